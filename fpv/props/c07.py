"""C07: fasttrack is only an optimisation."""

from hypothesis import strategies as st

from .. import codec, gens, sut
from ..core import require
from ..oracle import Definition

ID = 'C07'
RULE = ('a history of class definitions (any type, values, outcast, remap, optional, aliases, class-valued), of changes of the '
        'fasttrack attributes, and of removals (discard, discard by package, by flag or by level, pop, clear, later re-addition) '
        'on two collectors; after every step, 1-4 descriptions are looked for. '
        'Non-trivial: with at least one fasttrack attribute given in the description and one class refused.')
BUDGET = dict(quick=4000, thorough=80000)

ATTRS = ['kind', 'num', 'misc']
KINDS = ['str', 'str', 'int', 'int', 'int16', 'float', 'Geo', 'Even', 'Scaled', 'Picky', 'FPStr', 'FPTuple', 'FPDict', 'FPSet', 'FPList', 'list', 'dict']


@st.composite
def _attr(draw, name, kind):
    if draw(st.integers(0, 9)) == 0:
        kind = draw(st.sampled_from(KINDS))
    a, pool = draw(gens.typed_attr(name, kinds=[kind], allow_cls=False, optional=draw(st.integers(0, 4)) == 0,
                                   allow_remap=draw(st.integers(0, 3)) == 0))
    if 'values' not in a and draw(st.booleans()):
        good = [x for x in gens.GOOD[kind] if kind != 'int16' or isinstance(x, (str, int))]
        a['values'] = draw(st.lists(st.sampled_from(good), min_size=1, max_size=4))
    if 'remap' in a:
        # both together might be circular
        a.pop('autoremap', None)
        keys = [codec.dec(k) for k, _ in a['remap']]
        a['remap'] = [r for i, r in enumerate(a['remap']) if not any(codec.dec(r[1]) == k for k in keys[:i + 1])]
    if draw(st.integers(0, 5)) == 0:
        a['alias'] = ['al_' + name]
    return a


@st.composite
def _cls(draw, i, kinds):
    attrs = [draw(_attr(n, kinds[n])) for n in draw(gens.subset(ATTRS, 1, 3))]
    return dict(name='Cls{:d}'.format(i), attrs=attrs, module=draw(st.sampled_from(['pk1.one', 'pk1.two', 'pk2.one'])),
                tags=draw(st.sampled_from([['thing'], ['thing'], ['thing', 'gizmo']])),
                abstract=draw(st.integers(0, 7)) == 0, level=draw(st.sampled_from(['default', 'default', 'toolbox'])))


#: values which have got a type already
TYPED = dict({k: [] for k in KINDS}, Scaled=[gens.t('Scaled', x) for x in (10, 20, 100, 1)] * 2, str=[gens.t('FPStr', x) for x in ('1', '10')],
             int=[gens.t('Even', 2), gens.t('Even', 10)])

CLASH = ['1', '2', '10', '16', '02']


@st.composite
def _clash(draw, i, family, scaled=False):
    """Classes that do not agree on the type of an attribute, with values that look the same."""
    kind = draw(st.sampled_from(family))
    a = dict(name='num', type='int' if kind == 'int16' else kind, values=draw(gens.subset(CLASH if kind != 'Even' else ['2', '10', '16'], 1, 3)))
    if kind == 'int16':
        a['args'] = dict(base=16)
    elif kind == 'Scaled' and (scaled or draw(st.booleans())):
        a['args'] = dict(scale=10 if scaled else draw(st.sampled_from([1, 10])))
    elif kind == 'str' and draw(st.booleans()):
        # (this is the default type)
        del a['type']
    if kind != 'Even' and draw(st.integers(0, 3)) == 0:
        # (raw strings are not values of the type: only one step, except for strings)
        a['remap'] = [[x, y] for x, y in [draw(st.permutations(CLASH))[:2]] if kind not in ('str', 'FPStr') or int(x) > int(y)]
    attrs = [a]
    if draw(st.integers(0, 2)):
        attrs.append(dict(name='kind', values=draw(gens.subset(['a', 'x', 'ff'], 1, 2))))
    return dict(name='Cls{:d}'.format(i), attrs=attrs, module='pk1.one', tags=['thing'])


@st.composite
def _core(draw, i):
    """A class-valued attribute."""
    a = dict(name='core', type='CoreA', isclass=True)
    if draw(st.integers(0, 3)):
        a['values'] = draw(gens.subset(gens.CLS_VALUES[:3], 1, 2))
    return dict(name='Cls{:d}'.format(i), attrs=[a], module='pk1.one', tags=['thing'])


@st.composite
def _case(draw):
    kinds = {n: draw(st.sampled_from(KINDS)) for n in ATTRS}
    ops = []
    if draw(st.integers(0, 15)) == 0:
        # values that have already been converted are not converted any more
        ops = [['class', dict(name='Cls{:d}'.format(i), attrs=[dict(name='num', type='Scaled', args=dict(scale=10), values=v)], module='pk1.one', tags=['thing'])]
               for i, v in enumerate(draw(st.lists(gens.subset(['1', '10', '100'], 1, 2), min_size=2, max_size=3)))]
        ops.insert(draw(st.sampled_from([0, len(ops)])), ['fast', ['num']])
        return dict(ops=ops, descs=[[['num', v]] for v in draw(gens.subset([gens.t('Scaled', x) for x in (10, 100, 1000)] + ['1', '10', 1, 10, 100], 1, 4))],
                    dflt=[], report=draw(st.integers(0, 3)))
    if draw(st.integers(0, 4)) == 0:
        # two or three classes that hardly agree on their common attribute
        family = draw(st.sampled_from([['int', 'int16'], ['int', 'int16'], ['int', 'Scaled'], ['str', 'FPStr'], ['float', 'int'], ['int16', 'str'], ['Scaled'], ['str', 'int'], ['str', 'int', 'Scaled']]))
        ops = [['class', draw(_clash(i, family, family == ['Scaled']))] for i in range(draw(st.integers(2, 3)))]
        ops.insert(draw(st.sampled_from([0, 0, len(ops)])), ['fast', draw(st.sampled_from([['num'], ['kind', 'num']]))])
        return dict(ops=ops, descs=[[['num', v]] + ([['kind', draw(st.sampled_from(['a', 'x', 'ff']))]] if draw(st.booleans()) else [])
                                    for v in draw(st.lists(st.sampled_from(CLASH + [1, 2, 10, 16, 22] + TYPED[family[0]]), min_size=2, max_size=4))],
                    dflt=[], report=draw(st.integers(0, 3)))
    clash = draw(st.integers(0, 2)) == 0
    family = draw(st.sampled_from([['str', 'int', 'int', 'int16', 'float', 'Even', 'Scaled', 'FPStr'], ['int', 'int16'], ['Scaled'], ['str', 'FPStr']]))
    if draw(st.booleans()) or clash:
        ops.append(['fast', draw(st.sampled_from([['num'], ['kind', 'num'], ['misc', 'num', 'kind']])) if clash else draw(gens.subset(ATTRS + ['core'], 1, 3))])
    n = 0
    for _ in range(draw(st.integers(2, 9))):
        w = draw(st.integers(0, 13))
        if w < 7 or n < 2:
            c = draw(_clash(n, family)) if clash and draw(st.integers(0, 3)) else draw(_core(n)) if draw(st.integers(0, 9)) == 0 else draw(_cls(n, kinds))
            ops.append(['class', c])
            n += 1
        elif w < 9:
            ops.append(['fast', draw(gens.subset(ATTRS if clash else ATTRS + ['core'], 0, 3))])
        else:
            ops.append(draw(st.one_of(
                st.tuples(st.sampled_from(['discard', 'readd']), st.integers(0, 8)),
                st.sampled_from([['pop'], ['clear'], ['package', 'pk1'], ['package', 'pk1.one'], ['level', 'toolbox'],
                                 ['lower', 'toolbox'], ['flag']]))))
    descs = []
    known = sorted({str(v) for op in ops if op[0] == 'class' for a in op[1]['attrs'] for v in a.get('values', ()) if type(v) in (int, str)})
    for _ in range(draw(st.integers(1, 4))):
        d = [['ext', draw(st.sampled_from(known if known and draw(st.booleans()) else ['a', '1', 'x', 'ff']))]]
        for a in ATTRS:
            if draw(st.integers(0, 4)):
                pool = gens.RAW[kinds[a]] + gens.GOOD[kinds[a]] + ['[ext]', 'r1', None]
                if draw(st.integers(0, 3)) == 0:
                    pool = ['[ext]']
                if clash and a == 'num':
                    pool = CLASH + [1, 2, 10]
                elif clash and a == 'kind' and draw(st.booleans()):
                    pool = ['a', 'x', 'ff']
                d.append([draw(st.sampled_from([a, a, a, 'al_' + a])), draw(st.sampled_from(pool))])
        if draw(st.integers(0, 4)) == 0:
            d.append(['core', draw(st.sampled_from(gens.CLS_VALUES))])
        descs.append(d)
    dflt = [['kind', draw(st.sampled_from(gens.GOOD[kinds['kind']]))]] if draw(st.integers(0, 3)) == 0 else []
    return dict(ops=ops, descs=descs, dflt=dflt, report=draw(st.integers(0, 3)))


def strategy(tier):
    return _case()


def check(case, ctx):
    fp = sut.footprints
    fp.setup.report = case['report']
    fp.setup.defaults = codec.decmap(case['dflt'])
    thing = sut.collectors.get(tag='thing')
    gizmo = sut.collectors.get(tag='gizmo')
    thing.report = case['report']
    members, others, classes = [], [], []
    fast = []
    for step, op in enumerate(case['ops']):
        if op[0] == 'class':
            d = Definition(op[1], module=op[1]['module'], isodd=classmethod(lambda cls: int(cls.__name__[3:]) % 2 == 1))
            if op[1].get('abstract'):
                ctx.label('abstract')
                continue
            classes.append(d.cls)
            members.append(d.cls)
            if 'gizmo' in op[1]['tags']:
                others.append(d.cls)
        elif op[0] == 'fast':
            thing.fasttrack = tuple(op[1])
            fast = op[1]
            ctx.label('fasttrack' if fast else 'nofasttrack')
        elif op[0] in ('discard', 'readd'):
            c = classes[op[1] % len(classes)] if classes else None
            if c is None:
                continue
            if op[0] == 'discard':
                thing.discard(c)
                members = [x for x in members if x is not c]
            else:
                thing.add(c)
                if c not in members:
                    members.append(c)
        elif op[0] == 'pop':
            if members:
                c = thing.pop()
                require(c in members, 'pop gives {!r}', c)
                members.remove(c)
        elif op[0] == 'clear':
            thing.clear()
            members = []
        elif op[0] == 'package':
            thing.discard_package(op[1], verbose=False)
            members = [c for c in members if not c.__module__.startswith(op[1])]
        elif op[0] == 'level':
            thing.discard_higher_level(op[1], verbose=False)
            members = [c for c in members if c.footprint_level() != 'TOOLBOX']
        elif op[0] == 'lower':
            thing.discard_lower_level(op[1], verbose=False)
            members = [c for c in members if c.footprint_level() == 'TOOLBOX']
        elif op[0] == 'flag':
            thing.discard_onflag('isodd', verbose=False)
            members = [c for c in members if int(c.__name__[3:]) % 2 == 0]
        if op[0] not in ('class', 'fast'):
            ctx.label('removal')
        for coll, mb in ((thing, members), (gizmo, others)):
            what = 'step {:d} ({}), {}'.format(step, op[0], coll.tag)
            require(set(coll.items()) == set(mb), '{}: classes are {} instead of {}', what, set(coll.items()), set(mb))
        require(thing.fasttrack <= set(fast), 'fasttrack is {} instead of {}', thing.fasttrack, fast)
        # an attribute on which all the classes agree is not forgotten
        for a in fast:
            types = {repr((x.get('type', 'str'), sorted(x.get('args', {}).items())))
                     for o in case['ops'][:step + 1] if o[0] == 'class' for x in o[1]['attrs'] if x['name'] == a}
            require(len(types) > 1 or a in thing.fasttrack, '{} {}: {} is not in the fasttrack anymore', step, op, a)
        for desc in case['descs']:
            verify(thing, members, desc, fast, step, ctx)
    for desc in case['descs']:
        verify(gizmo, others, desc, (), 'end', ctx)


def verify(coll, members, desc, fast, step, ctx):
    expected = {c for c in members if c.footprint_couldbe(codec.decmap(desc))[0]}
    found = coll.find_all(codec.decmap(desc))
    what = 'step {} {}'.format(step, desc)
    require(len(found) == len({x[0] for x in found}), '{}: duplicates in {}', what, found)
    require({x[0] for x in found} == expected, '{}: candidates are {} instead of {} (fasttrack: {})', what,
            sorted(x[0].__name__ for x in found), sorted(c.__name__ for c in expected), coll.fasttrack)
    anyone = coll.find_any(codec.decmap(desc))
    require((anyone is None) == (not expected) and (anyone is None or type(anyone) in expected),
            '{}: find_any gives {!r} instead of one of {}', what, anyone, expected)
    best = coll.load(**codec.decmap(desc))
    require((best is None) == (not expected) and (best is None or type(best) in expected),
            '{}: load gives {!r} instead of one of {}', what, best, expected)
    if best is not None:
        weights = {x[0]: x[0].footprint_weight(len(x[2])) for x in found}
        require(weights[type(best)] == max(weights.values()), '{}: load gives {!r} which is not the best: {}', what, best, weights)
    if any(k in fast for k, _ in desc) and len(expected) < len(members) and coll.fasttrack:
        ctx.nontrivial()
        if expected:
            ctx.label('some')
