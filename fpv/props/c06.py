"""C06: selection among the classes of a collector."""

import logging

from hypothesis import strategies as st

from .. import codec, gens, sut
from ..core import require
from ..oracle import Definition, check_values, outcome_of, read

ID = 'C06'
RULE = ('2-8 classes (mandatory/optional attributes, values, only, any priority level including new ones, five ways of '
        'writing the footprint, abstract or discarded classes, two collectors), a history of priority re-orderings made before or after the '
        'definitions (with selections in between), and a description. Non-trivial: at least two classes are eligible.')
BUDGET = dict(quick=6000, thorough=100000)

VALS = {'kind': ['k1', 'k2'], 'alpha': ['a', 'b', '1'], 'beta': [1, 2, '1'], 'gamma': ['x', 'y'], 'delta': ['d']}
LEVELS = ['none', 'default', 'toolbox', 'debug']
NEW = ['site', 'lab']

OPS = st.one_of(
    st.tuples(st.sampled_from(['up', 'down', 'top', 'bottom']), st.sampled_from(LEVELS + NEW)),
    st.tuples(st.sampled_from(['rerank']), st.sampled_from(LEVELS + NEW), st.integers(-3, 3)),
    st.tuples(st.sampled_from(['after', 'before']), st.sampled_from(NEW + LEVELS), st.sampled_from(LEVELS)),
    st.tuples(st.sampled_from(['extend']), st.sampled_from(NEW)),
    st.tuples(st.sampled_from(['package']), st.sampled_from(['pk1', 'pk2', 'pk']), st.sampled_from(LEVELS)),
    st.tuples(st.sampled_from(['discard']), st.integers(0, 7)),
)


@st.composite
def _class(draw, i):
    attrs = []
    for n in draw(st.lists(st.sampled_from(sorted(VALS)), min_size=1, max_size=4, unique=True)):
        a = dict(name=n)
        if n == 'beta':
            a['type'] = 'int'
        if draw(st.integers(0, 2)) == 0:
            a['values'] = draw(gens.subset(VALS[n], 1))
        if draw(st.integers(0, 9)) == 0:
            a['outcast'] = draw(gens.subset(VALS[n], 1, 1))
        if draw(st.booleans()):
            a['optional'] = True
            if draw(st.booleans()):
                a['default'] = draw(st.sampled_from(a.get('values') or VALS[n]))
        if draw(st.integers(0, 4)) == 0:
            a['alias'] = ['al_' + n]
        attrs.append(a)
    if draw(st.integers(0, 5)) == 0:
        # a wide one
        attrs += [dict(name='w{:d}'.format(k), optional=draw(st.integers(0, 2)) == 0) for k in range(draw(st.integers(2, 7)))]
    c = dict(name='Cls{:d}'.format(i), attrs=attrs, form=draw(st.sampled_from(['dict', 'object', 'kwargs', 'nodefault', 'list',
                                                                               'mixlist'])),
             module=draw(st.sampled_from(['pk1.one', 'pk1.two', 'pk2.one'])),
             abstract=draw(st.integers(0, 7)) == 0,
             tags=draw(st.sampled_from([['thing'], ['thing'], ['thing'], ['thing', 'gizmo'], ['gizmo']])))
    if draw(st.integers(0, 2)):
        c['level'] = draw(st.sampled_from(LEVELS + NEW))
    if draw(st.integers(0, 5)) == 0:
        n = attrs[0]['name']
        c['only'] = [[n, draw(st.sampled_from([x for x in VALS[n]]))]]
    return c


@st.composite
def _case(draw):
    n = draw(st.integers(2, 8))
    classes = [draw(_class(i)) for i in range(n)]
    desc = []
    for k in sorted(VALS):
        if draw(st.integers(0, 3)):
            desc.append([draw(st.sampled_from([k, k, k, 'al_' + k])), draw(st.sampled_from(VALS[k]))])
    if draw(st.integers(0, 2)) == 0:
        desc += [['w{:d}'.format(k), 'w'] for k in range(draw(st.integers(1, 8)))]
    dflt = []
    if draw(st.integers(0, 3)) == 0:
        dflt.append(['gamma', draw(st.sampled_from(VALS['gamma']))])
    return dict(classes=classes, desc=draw(st.permutations(desc)), dflt=dflt, report=draw(st.integers(0, 3)),
                pre=draw(st.lists(OPS.filter(lambda o: o[0] not in ('package', 'discard')), max_size=3)),
                post=draw(st.lists(OPS, max_size=6)), looks=draw(st.lists(st.integers(0, 5), max_size=2, unique=True)))


def strategy(tier):
    return _case()


class Levels:
    """Model of the ordered set of priorities."""

    def __init__(self):
        self.order = [x.upper() for x in LEVELS]

    def has(self, tag):
        return tag.upper() in self.order

    def rerank(self, tag, upd):
        tag = tag.upper()
        pos = max(0, self.order.index(tag) + upd)
        self.order.remove(tag)
        self.order.insert(pos, tag)

    def put(self, tag, anchor=None, shift=0):
        tag = tag.upper()
        if tag in self.order:
            self.order.remove(tag)
        if anchor is None:
            self.order.append(tag)
        else:
            self.order.insert(self.order.index(anchor.upper()) + shift, tag)


def apply_priority(op, lv):
    """Apply the operation on both sides; unknown levels are skipped."""
    top = sut.priorities.top
    kind = op[0]
    if kind in ('up', 'down', 'top', 'bottom'):
        if lv.has(op[1]):
            getattr(top.level(op[1]), kind)()
            lv.rerank(op[1], dict(up=1, down=-1, top=len(lv.order), bottom=-len(lv.order))[kind])
    elif kind == 'rerank':
        if lv.has(op[1]):
            top.rerank(op[1], op[2])
            lv.rerank(op[1], op[2])
    elif kind in ('after', 'before'):
        if op[1] != op[2]:
            getattr(sut.priorities, 'set_' + kind)(op[2], op[1])
            lv.put(op[1], op[2], 1 if kind == 'after' else 0)
    elif kind == 'extend':
        top.extend(op[1])
        lv.put(op[1])


def check(case, ctx):
    fp = sut.footprints
    fp.setup.report = case['report']
    dflt = codec.decmap(case['dflt'])
    fp.setup.defaults = dict(dflt)
    lv = Levels()
    for tag in NEW:
        # the additional levels exist beforehand
        sut.priorities.top.extend(tag)
        lv.put(tag)
    for op in case['pre']:
        apply_priority(op, lv)
    defs, level, members = [], {}, {'thing': set(), 'gizmo': set()}
    for c in case['classes']:
        d = Definition(dict(c, tags=c['tags']), module=c['module'])
        defs.append(d)
        level[d.cls] = c.get('level', 'default').upper()
        if not c['abstract']:
            for tag in c['tags']:
                members[tag].add(d.cls)
    desc = codec.decmap(case['desc'])
    for step, op in enumerate(case['post']):
        if step in case['looks']:
            select(case, defs, members, level, lv, dict(desc), dflt, ctx)
        if op[0] == 'package':
            fp.reset_package_priority(op[1], op[2])
            for d in defs:
                if not d.cdef['abstract'] and d.cdef['module'].startswith(op[1]) and any(d.cls in m for m in members.values()):
                    level[d.cls] = op[2].upper()
            ctx.label('package')
        elif op[0] == 'discard':
            d = defs[op[1] % len(defs)]
            sut.collectors.get(tag='thing').discard(d.cls)
            members['thing'].discard(d.cls)
            ctx.label('discard')
        else:
            apply_priority(op, lv)
            ctx.label('priority')
    select(case, defs, members, level, lv, desc, dflt, ctx)


def select(case, defs, members, level, lv, desc, dflt, ctx):
    """Everything that can be said on the selections, right now."""
    fp = sut.footprints
    require(tuple(sut.priorities.top()) == tuple(lv.order), 'priorities are {} instead of {}', sut.priorities.top(), lv.order)

    expected = {d.cls: d.expect(desc, defaults=dflt) for d in defs}
    for tag in ('thing', 'gizmo'):
        coll = sut.collectors.get(tag=tag)
        if case['report'] == 1:
            coll.non_ambiguous_loglevel = logging.DEBUG
        require(set(coll) == members[tag], '{}: collected classes are {} instead of {}', tag, set(coll), members[tag])
        eligible = {c for c in members[tag] if expected[c].selected}
        found = coll.find_all(dict(desc))
        classes = [x[0] for x in found]
        require(len(classes) == len(set(classes)), '{}: duplicates in find_all: {}', tag, classes)
        require(set(classes) == eligible, '{}: find_all gives {} instead of {}', tag, sorted(c.__name__ for c in classes),
                sorted(c.__name__ for c in eligible))
        for c, resolved, inputs in found:
            check_values({k: (None if v is fp.UNKNOWN else v) for k, v in resolved.items()}, expected[c].values,
                         'find_all/' + c.__name__)
            require(set(inputs) == expected[c].inputs, 'find_all/{}: inputs are {} instead of {}', c.__name__, inputs,
                    expected[c].inputs)
        weight = {c: (lv.order.index(level[c]), len(expected[c].inputs)) for c in eligible}
        best = max(weight.values()) if weight else None
        ctx.label('eligible:{:d}'.format(min(len(eligible), 4)))
        ctx.nontrivial(len(eligible) > 1)
        if len({w[0] for w in weight.values()}) > 1:
            ctx.label('priority decides')
        elif len(set(weight.values())) > 1:
            ctx.label('inputs decide')

        def verify(what, obj, accepted):
            require((obj is None) == (not eligible), '{}: {} gives {!r} whereas {} are eligible', tag, what, obj,
                    sorted(c.__name__ for c in eligible))
            if obj is not None:
                require(type(obj) in accepted, '{}: {} gives {} instead of one of {} (weights: {})', tag, what,
                        type(obj).__name__, sorted(c.__name__ for c in accepted),
                        {c.__name__: w for c, w in weight.items()})
                check_values(read(obj, obj.footprint_attributes), expected[type(obj)].values, what)

        bests = {c for c, w in weight.items() if w == best}
        verify('find_best', coll.find_best(dict(desc)), bests)
        with sut.messages(coll.non_ambiguous_loglevel) as msgs:
            verify('load', fp.load(tag=tag, **desc), bests)
        # the user is warned when the levels do not settle the matter
        order = sorted((w[0] for w in weight.values()), reverse=True)
        warned = [m for m in msgs if m[0] >= logging.WARNING and 'ultiple' in m[1]]
        told = [m for m in msgs if m[0] == coll.non_ambiguous_loglevel and 'ultiple' in m[1]]
        require(bool(warned) == (len(order) > 1 and order[0] == order[1]), '{}: warned by {} (weights: {})', tag, warned, weight)
        require(bool(told) == (len(order) > 1 and order[0] > order[1]), '{}: told by {} (weights: {})', tag, told, weight)
        if warned or told:
            for i, (c, w) in enumerate(sorted(weight.items(), key=lambda x: x[1], reverse=True)):
                lines = [m for m in msgs if m[1].startswith('no.{:d} in.{:d} is '.format(i + 1, w[1]))]
                require(len(lines) == 1 and lines[0][0] == (warned or told)[0][0], '{}: candidates are listed as {} (weights: {})', tag, msgs, weight)
        verify('pickup', fp.pickup(dict(desc, tag=tag)).get(tag), bests)
        verify('find_any', coll.find_any(dict(desc)), eligible)
