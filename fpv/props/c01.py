"""C01: an attribute is exactly what its definition allows."""

from hypothesis import strategies as st

from .. import gens, sut
from ..codec import decmap
from ..oracle import Definition, check_couldbe, check_new, check_values, outcome_of, read, check_error
from ..core import require

ID = 'C01'
RULE = ('One class with 1-4 attributes (16 types incl. args, isclass, custom types; values, outcast, remap chains, '
        'autoremap, defaults) and a description drawn from native, convertible and unacceptable raw values; '
        'non-trivial: at least one attribute is converted, remapped, or restricted by values/outcast/isclass.')
BUDGET = dict(quick=9000, thorough=150000)


@st.composite
def _case(draw):
    names = draw(st.lists(st.sampled_from(gens.NAMES), min_size=1, max_size=4, unique=True))
    attrs, desc = [], []
    for n in names:
        a, pool = draw(gens.typed_attr(n))
        if draw(st.integers(0, 5)) == 0:
            # values that suit something else
            pool = pool + gens.RAW[draw(st.sampled_from(gens.KINDS))] + gens.CLS_VALUES[:2]
        attrs.append(a)
        given = draw(st.integers(0, 15))
        if given > (0 if not a.get('optional') else 5):
            good = a.get('values') if (a.get('values') and draw(st.integers(0, 2))) else None
            desc.append([n, draw(st.sampled_from(good or pool))])
        elif given == 0:
            desc.append([n, None])
    return dict(attrs=attrs, desc=draw(st.permutations(desc)), fast=draw(st.booleans()), split=draw(st.lists(st.integers(0, 3), min_size=4, max_size=4)))


def strategy(tier):
    return _case()


def check(case, ctx):
    sut.footprints.setup.fastmode = case['fast']
    d = Definition(dict(name='One', attrs=case['attrs']))
    desc = decmap(case['desc'])
    exp = d.expect(desc)
    ctx.label('outcome:' + exp.kind)
    for k, why in exp.failing.items():
        ctx.label('why:' + '/'.join(sorted(why)))
    for a in case['attrs']:
        for k in ('values', 'outcast', 'remap', 'isclass', 'args', 'autoremap'):
            if a.get(k):
                ctx.label(k)
                ctx.nontrivial(not exp.raw_none)
    if exp.kind == 'ok':
        for a in case['attrs']:
            raw = desc.get(a['name'])
            if raw is not None and exp.values[a['name']] is not raw:
                ctx.label('converted')
                ctx.nontrivial()
    check_couldbe(d, decmap(case['desc']), exp)
    check_new(d, decmap(case['desc']), exp)
    # in several parts (the last one prevails)
    parts, kw = [{}, {}, {}], {}
    for i, (k, v) in enumerate(decmap(case['desc']).items()):
        n = case['split'][i % 4]
        for j in range(n):
            # (hidden by the next part)
            parts[j][k] = 'hidden'
        (parts + [kw])[n][k] = v
    status, obj = outcome_of(lambda: d.cls(*parts, **kw))
    if status == 'exc':
        if exp.kind != 'reject' or not isinstance(obj, sut.FootprintFatalError):
            check_error(exp, obj, 'from several dictionaries')
    else:
        require(exp.kind == 'ok', 'from several dictionaries: successful ({!r}) but expected {!r}', obj, exp)
        check_values(read(obj, obj.footprint_attributes), exp.values, 'from several dictionaries')
    # through the collector
    status, obj = outcome_of(lambda: sut.footprints.load(tag='thing', **decmap(case['desc'])))
    if status == 'exc':
        check_error(exp, obj, 'load')
    elif exp.kind == 'ok':
        require(type(obj) is d.cls, 'load: {!r} instead of an instance of {}', obj, d.cls)
        check_values(read(obj, obj.footprint_attributes), exp.values, 'load')
    else:
        require(obj is None, 'load: {!r} but expected {!r}', obj, exp)
