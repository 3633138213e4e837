"""C12: tracking of the instances, grep, and reuse of existing instances."""

import copy
import gc
import pickle
import weakref

from hypothesis import strategies as st

from .. import codec, gens, sut
from ..core import require
from ..oracle import Definition, check_values, read

ID = 'C12'
RULE = ('2-4 classes in three collectors (inheritance, reusable or not, optional and aliased attributes), and a history of 3-14 creations (direct, load, '
        'clone, copies, pickle), modifications, releases, grep (one or all collectors) and default. '
        'Non-trivial: an existing instance is reused, or a grep gives some of the instances but not all of them.')
BUDGET = dict(quick=5000, thorough=80000)

VALS = {'kind': ['a', 'b'], 'num': [1, 2, '1', '02', 'x', 0], 'opt': ['x', 'y', ''], 'free': ['p', 'q']}
FALSE = {None: {}, 'len': dict(__len__=lambda self: 0), 'bool': dict(__bool__=lambda self: False)}
TAGS = ['thing', 'gizmo', 'widget']


@st.composite
def _case(draw):
    classes = []
    for i in range(draw(st.integers(2, 4))):
        attrs = [dict(name='kind', values=draw(st.sampled_from([['a', 'b'], ['a', 'b'], ['a']])))]
        if draw(st.booleans()):
            attrs.append(dict(name='num', type='int', optional=draw(st.booleans()), alias=['al_num']))
            if attrs[-1]['optional'] and draw(st.booleans()):
                attrs[-1]['default'] = 2
        if draw(st.booleans()):
            attrs.append(dict(name='opt', optional=True))
            if draw(st.booleans()):
                attrs[-1]['default'] = 'x'
        if draw(st.booleans()):
            attrs.append(dict(name='free', access=draw(st.sampled_from(['rwx', 'rwd']))))
        classes.append(dict(name='Cls{:d}'.format(i), attrs=attrs, tags=draw(gens.subset(TAGS, 1, 2)),
                            false=draw(st.sampled_from([None, None, None, 'len', 'bool'])), reusable=draw(st.sampled_from([True, True, True, True, False, 'no'])), level=draw(st.sampled_from(['default', 'default', 'toolbox']))))
    ops = []
    descs = []
    for i in range(draw(st.integers(3, 14))):
        w = draw(st.integers(0, 15)) if i > 2 else 0
        desc = [[draw(st.sampled_from([k, 'al_num'])) if k == 'num' else k, draw(st.sampled_from(v))]
                for k, v in sorted(VALS.items()) if draw(st.integers(0, 7))]
        if descs and draw(st.booleans()):
            desc = draw(st.sampled_from(descs))
        descs.append(desc)
        if w < 4:
            ops.append(['new', draw(st.integers(0, 3)), desc])
        elif w < 6:
            ops.append(['load', draw(st.sampled_from(TAGS)), desc])
        elif w < 9:
            ops.append(['default', draw(st.sampled_from(TAGS)), desc])
        elif w < 12:
            kw = [[draw(st.sampled_from(['kind', 'num', 'opt', 'free', 'note', 'nothing'])),
                   draw(st.sampled_from(['a', 'b', 1, 2, 'x', 'p', 'q', None, '1', 0, '']))]
                  for _ in range(draw(st.sampled_from([0, 1, 1, 2])))]
            ops.append(['grep', draw(st.sampled_from(TAGS + ['all'])), kw])
        elif w == 12:
            ops.append(['drop', draw(st.integers(0, 9))])
        elif w == 13:
            ops.append([draw(st.sampled_from(['clone', 'pickle', 'deepcopy', 'copy'])), draw(st.integers(0, 9))])
        else:
            ops.append(['set', draw(st.integers(0, 9)), draw(st.sampled_from(['free', 'note', 'del'])),
                        draw(st.sampled_from(['p', 'q', 1]))])
    return dict(classes=classes, ops=ops, silent=draw(gens.subset(TAGS, 0, 1)) if draw(st.integers(0, 3)) == 0 else [])


def strategy(tier):
    return _case()


def check(case, ctx):
    fp = sut.footprints
    for tag in case['silent']:
        # a collector that is not interested in the instances
        sut.collectors.get(tag=tag).register = False
    # (a class may have its own mind about the reuse of its objects)
    defs = [Definition(c, **dict(FALSE[c.get('false')], **(dict(_reusable=c['reusable']) if c['reusable'] in (True, False) else
                                                         dict(footprint_reusable=classmethod(lambda cls: False)))))
            for c in case['classes']]
    bycls = {d.cls: d for d in defs}
    live = []

    def kept(obj):
        if not any(o is obj for o in live):
            live.append(obj)

    def tracked(tag):
        return [o for o in live if tag in bycls[type(o)].cdef['tags'] and tag not in case['silent']]

    def candidates(tag, desc):
        out = {}
        for d in defs:
            if tag in d.cdef['tags']:
                exp = d.expect(desc)
                if exp.kind == 'ok':
                    out[d.cls] = exp
        return out

    def loaded(what, obj, tag, desc):
        cand = candidates(tag, desc)
        require((obj is None) == (not cand), '{}: gives {!r} whereas candidates are {}', what, obj, list(cand))
        if obj is not None:
            weight = {c: (c.footprint_pl().rank, len(e.inputs)) for c, e in cand.items()}
            require(type(obj) in cand and weight[type(obj)] == max(weight.values()), '{}: gives {!r}', what, obj)
            check_values(read(obj, obj.footprint_attributes), cand[type(obj)].values, what)
            require(not any(o is obj for o in live), '{}: gives an already existing object', what)
            kept(obj)

    obj = None
    for step, op in enumerate(case['ops']):
        what = 'step {:d} {}'.format(step, op)
        if op[0] == 'new':
            d = defs[op[1] % len(defs)]
            desc = codec.decmap(op[2])
            if d.expect(desc).kind == 'ok':
                kept(d.cls(**desc))
        elif op[0] == 'load':
            desc = codec.decmap(op[2])
            loaded(what, fp.load(tag=op[1], **desc), op[1], desc)
        elif op[0] == 'default':
            desc = codec.decmap(op[2])
            compatible = []
            for o in tracked(op[1]):
                d = bycls[type(o)]
                exp = d.expect(desc)
                if d.cdef['reusable'] is True and exp.kind == 'ok' and sorted(exp.values) == list(o.footprint_attributes):
                    if all(fits(getattr(o, k), v) for k, v in exp.values.items()):
                        compatible.append(o)
            obj = fp.default(tag=op[1], **desc)
            if compatible:
                require(any(o is obj for o in compatible), '{}: gives {!r} instead of one of {}', what, obj, compatible)
                ctx.nontrivial()
                ctx.label('reused')
            else:
                loaded(what, obj, op[1], desc)
                ctx.label('loaded')
        elif op[0] == 'grep':
            kw = dict((k, v) for k, v in op[2])
            expected = [o for tag in (TAGS if op[1] == 'all' else [op[1]]) for o in tracked(tag)
                        if all(hasattr(o, k) and getattr(o, k) == v for k, v in kw.items())]
            found = fp.grep(**kw) if op[1] == 'all' else sut.collectors.get(tag=op[1]).grep(**kw)
            require(sorted(map(id, found)) == sorted(map(id, expected)), '{}: gives {} instead of {}', what, found, expected)
            found = None
            if 0 < len(expected) < len(live):
                ctx.nontrivial()
                ctx.label('some')
            o = expected = None
        elif op[0] == 'drop':
            if live:
                obj = live.pop(op[1] % len(live))
                probe = weakref.ref(obj)
                obj = o = compatible = None
                if probe() is not None:
                    gc.collect()
                require(probe() is None, '{}: the object is still alive: {!r}', what, probe())
                ctx.label('dropped')
        elif op[0] == 'set':
            if live:
                obj = live[op[1] % len(live)]
                if op[2] == 'note':
                    obj.note = op[3]
                elif op[2] == 'free' and 'free' in [m.name for m in bycls[type(obj)].mattrs]:
                    obj.free = op[3]
                elif op[2] == 'del' and 'free' in obj.footprint_attributes and obj.footprint_access('free') == 'rwd':
                    del obj.free
        else:
            if live:
                obj = live[op[1] % len(live)]
                if op[0] == 'clone':
                    if [m for m in bycls[type(obj)].mattrs if m.name not in obj.footprint_attributes]:
                        # (something was deleted)
                        continue
                    obj = obj.footprint_clone(full=True)
                elif op[0] == 'pickle':
                    obj = pickle.loads(pickle.dumps(obj))
                elif op[0] == 'copy':
                    obj = copy.copy(obj)
                else:
                    obj = copy.deepcopy(obj)
                require(not any(o is obj for o in live), '{}: not a new object', what)
                kept(obj)
                ctx.label('copied')
        obj = o = None
        for tag in TAGS:
            if tag in sut.collectors.keys():
                ids = sorted(id(o) for o in sut.collectors.get(tag=tag).instances())
                require(ids == sorted(id(o) for o in tracked(tag)), '{}: instances tracked by {} are {} instead of {}', what, tag,
                        sut.collectors.get(tag=tag).instances(), tracked(tag))


def fits(actual, wanted):
    if repr(wanted) == '<unset>':
        return actual is None
    return actual == wanted
