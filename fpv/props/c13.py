"""C13: what pickup consumes, leaves and returns."""

from hypothesis import strategies as st

from .. import codec, gens, sut
from ..core import require
from ..oracle import Definition, check_values, read

ID = 'C13'
RULE = ('1-4 classes of two collectors (aliases, optional attributes, values), a description with known, alias, unknown and hidden keys, '
        'possibly with already resolved objects, picked up through one or several collectors in a row (function, collector or proxy). '
        'Non-trivial: an object is found and at least one key is left over.')
BUDGET = dict(quick=6000, thorough=100000)

VALS = {'kind': ['a', 'b'], 'num': [1, '2', 'x'], 'opt': ['u', 'v'], 'other': ['o', None]}
KEYS = ['kind', 'num', 'opt', 'other', 'al_kind', 'al_num', 'foreign', 'Kind', 'more', '_hidden', '_emptywarning', '_report',
        '_report_style', '_']


FALSE = {None: {}, 'len': dict(__len__=lambda self: 0), 'bool': dict(__bool__=lambda self: False)}


@st.composite
def _case(draw):
    classes = []
    for i in range(draw(st.integers(1, 4))):
        attrs = []
        for n in draw(gens.subset(sorted(VALS), 1, 3)):
            a = dict(name=n, optional=draw(st.booleans()))
            if n == 'num':
                a['type'] = 'int'
            elif n == 'kind' and draw(st.booleans()):
                a['values'] = draw(gens.subset(['a', 'b'], 1))
            if draw(st.booleans()):
                a['alias'] = ['al_' + n]
            attrs.append(a)
        c = dict(name='Cls{:d}'.format(i), attrs=attrs, tags=draw(st.sampled_from([['thing'], ['gizmo']])))
        if draw(st.integers(0, 2)) == 0:
            n = draw(st.sampled_from([a['name'] for a in attrs] + ['al_kind', 'al_num', 'foreign', 'more']))
            c['only'] = [[n, gens.t('list', draw(gens.subset(VALS.get(n[3:] if n[:3] == 'al_' else n, ['w', 3])[:2], 1)))]]
        if draw(st.integers(0, 3)) == 0:
            c['info'] = 'some info'
        if draw(st.integers(0, 3)) == 0:
            # the objects of this class are false
            c['false'] = draw(st.sampled_from(['len', 'bool']))
        classes.append(c)
    desc = []
    for k in draw(gens.subset(KEYS, 0, 9)):
        base = k[3:] if k.startswith('al_') else k
        if k in ('_emptywarning', '_report'):
            v = draw(st.booleans())
        elif k == '_report_style':
            v = draw(st.sampled_from([0, 1, 2, 3]))
        else:
            v = draw(st.sampled_from(VALS.get(base, ['w', 3, gens.t('list', [1])])))
        desc.append([k, v])
    steps = draw(st.lists(st.tuples(st.sampled_from(['thing', 'gizmo', 'Things', 'gizmos']),
                                    st.sampled_from(['function', 'collector', 'proxy', 'load'])), min_size=1, max_size=3))
    already = draw(st.sampled_from([None, None, None, 'none', 'object']))
    return dict(classes=classes, desc=desc, steps=steps, already=already, dflt=draw(gens.subset([['al_kind', 'a'], ['al_num', 1], ['foreign', 'w'], ['more', 3], ['opt', 'u']], 0, 2)), report=draw(st.integers(0, 3)))


def strategy(tier):
    return _case()


def check(case, ctx):
    fp = sut.footprints
    fp.setup.report = case['report']
    dflt = codec.decmap(case['dflt'])
    fp.setup.defaults = dict(dflt)
    defs = [Definition(c, **FALSE[c.get('false')]) for c in case['classes']]
    for tag in ('thing', 'gizmo'):
        # make sure that both of them exist
        sut.collectors.get(tag=tag).report = case['report']
    desc = codec.decmap(case['desc'])
    state = dict(desc)
    if case['already'] == 'none':
        state['thing'] = None
    elif case['already'] == 'object':
        for d in defs:
            given = {m.name: ('a' if m.name == 'kind' and not m.values else (m.values or [3])[0]) for m in d.mattrs}
            if 'thing' in d.cdef['tags'] and d.expect(given, defaults=dflt).kind == 'ok':
                state['thing'] = d.cls(**given)
                ctx.label('already there')
                break
    for step, (tag, way) in enumerate(case['steps']):
        what = 'step {:d}: {} of {} through {}'.format(step, state, tag, way)
        ctag = tag.lower().rstrip('s')
        mine = {d.cls: d for d in defs if ctag in d.cdef['tags']}
        visible = {k: v for k, v in state.items() if not k.startswith('_')}
        given = dict(state)
        before = dict(given)
        if state.get(ctag) is not None:
            if way == 'load':
                continue
            expected = {type(state[ctag]): None}
        else:
            expected = {}
            for c, d in mine.items():
                exp = d.expect({k: v for k, v in visible.items()}, defaults=dflt)
                if exp.kind == 'ok' and exp.selected:
                    expected[c] = exp
            if expected:
                best = max(len(e.inputs) for e in expected.values())
                expected = {c: e for c, e in expected.items() if len(e.inputs) == best}
        if way == 'load':
            obj = fp.load(tag=tag, **given)
            require(same_items(given, before), '{}: the description is now {}', what, given)
            require((obj is None) == (not expected) and (obj is None or type(obj) in expected), '{}: gives {!r}', what, obj)
            continue
        if way == 'function':
            given['tag'] = tag
            result = fp.pickup(given)
        elif way == 'collector':
            result = sut.collectors.get(tag=tag).pickup(given)
        else:
            result = getattr(fp.proxy, ctag + 's').pickup(given)
        require(isinstance(result, dict) and ctag in result, '{}: no {} in {}', what, ctag, result)
        obj = result[ctag]
        require((obj is None) == (not expected) and (obj is None or type(obj) in expected),
                '{}: gives {!r} instead of one of {}', what, obj, list(expected))
        if state.get(ctag) is not None:
            require(obj is state[ctag], '{}: the existing object was replaced by {!r}', what, obj)
        elif obj is not None:
            check_values(read(obj, obj.footprint_attributes), expected[type(obj)].values, what)
        left = {k: v for k, v in visible.items() if k != ctag}
        if obj is not None:
            known = {m.name for m in mine[type(obj)].mattrs} | {a for m in mine[type(obj)].mattrs for a in m.alias}
            left = {k: v for k, v in left.items() if k not in known}
            ctx.nontrivial(left)
            ctx.label('found')
        else:
            ctx.label('not found')
        rest = {k: v for k, v in result.items() if k != ctag}
        require(same_items(rest, left), '{}: leaves {} instead of {}', what, rest, left)
        state = result


def same_items(a, b):
    return set(a) == set(b) and all(a[k] is b[k] for k in a)
