"""C03: substitutions."""

from hypothesis import strategies as st

from .. import codec, gens, model, sut
from ..core import require
from ..oracle import Definition, check_couldbe, check_new, outcome_of, check_error, check_values, read

ID = 'C03'
RULE = ('One class with 2-8 attributes of various types whose values, defaults and setup defaults refer to other attributes '
        'and extra parameters (members, chained members, formats, #defaults, regex metacharacters, nested templates in extra '
        'parameters, footprint objects in the description, callback, setup defaults); every case is resolved with the given '
        'and a permuted declaration order. Non-trivial: at least one substitution is performed and the outcome is specified.')
BUDGET = dict(quick=9000, thorough=150000)

TEXTS = ['', 'a', 'x_', '/', ' ', '\\', '\\1', '\\g<0>', '\\d+', '$', 'C:\\new', '%', '{}', '{0}', ':', '#', 'é', '(', '.*',
         'range(1,2)']
PLAIN = ['v', 'arome', 'back\\slash', '\\g<1>', '\\n', '12', '{brace}', '%s', '$1', 'a.b*', '0']


def part(k, m=(), d=None, f=None, sep=':'):
    return '[' + k + ''.join(sep + x for x in m) + ('#' + d if d else '') + ('%' + f if f else '') + ']'


@st.composite
def _template(draw, refs, kinds, weird=True):
    """A string made of literal texts and references."""
    out = ''
    for _ in range(draw(st.integers(1, 3))):
        if draw(st.booleans()):
            out += draw(st.sampled_from(TEXTS))
        if not refs:
            continue
        k = draw(st.sampled_from(refs))
        kind = kinds.get(k, 'str')
        m, f, d = (), None, None
        if kind == 'Geo' and draw(st.booleans()):
            m = draw(st.sampled_from([('area',), ('size',), ('label',), ('deep',), ('deep', 'area'), ('deep', 'deep', 'label'),
                                      ('name',), ('name', 'upper'), ('nothing',), ('void',), ('nosuch',), ('area', 'title'),
                                      ('seen',), ('deep', 'seen'), ('extra',), ('extra',), ('late',), ('late',), ('deep', 'late'), ('late', 'real'), ('late', 'bit_length'), ('late', 'nosuch'),
                                      ('extra', 'upper'), ('broken',)]))
        elif kind == 'str' and draw(st.integers(0, 3)) == 0:
            m = draw(st.sampled_from([('upper',), ('title', 'swapcase'), ('nosuch',)]))
        elif kind == 'obj':
            m = draw(st.sampled_from([('alpha',), ('inner',), ('inner', 'upper'), ('nosuch',), ('hollow',)]))
        if draw(st.integers(0, 3)) == 0:
            if kind == 'int' or m[-1:] in (('size',), ('late',)):
                f = draw(st.sampled_from(['03d', '+d', 'x', '6.2f', '5s']))
            elif kind == 'Geo' and not m:
                f = draw(st.sampled_from(['.area:6s', '.name:>4s', '!s', '.name.upper:s', '!r']))
            else:
                f = draw(st.sampled_from(['10s', '>4s', '!s', '!s:>6', '03d', '.upper:6s']))
        if draw(st.integers(0, 4)) == 0:
            d = draw(st.sampled_from(['dflt', '01', 'x_y']))
            if draw(st.integers(0, 3)) == 0:
                d = draw(st.sampled_from([' ', '  ', '#', '0']))
            elif draw(st.integers(0, 2)) == 0:
                # (the name of something else, which is a mere text)
                d = draw(st.sampled_from(sorted(kinds)))
        if k == 'missing' and draw(st.integers(0, 3)):
            d = d or 'used'
        out += part(k, m, d, f, draw(st.sampled_from([':', '::'])))
    if draw(st.integers(0, 2)) == 0:
        out += draw(st.sampled_from(TEXTS))
    return out


@st.composite
def _case(draw):
    n = draw(st.integers(2, 8))
    names = draw(st.permutations(gens.NAMES + ['aa', 'zz1']))[:n]
    kinds = {k: draw(st.sampled_from(['str', 'str', 'int', 'Geo'])) for k in names}
    kinds['obj'] = 'obj'
    ekeys = draw(st.lists(st.sampled_from(gens.EXTRAS + ['more1', 'inner']), max_size=4, unique=True))
    for k in ekeys:
        if k != 'more' and k != 'inner' and draw(st.integers(0, 3)) == 0:
            kinds[k] = 'Geo'
    useobj = draw(st.integers(0, 2)) == 0
    cyc = draw(st.integers(0, 9)) == 0
    attrs, desc, dflt, cb = [], [], [], []
    for i, k in enumerate(names):
        refs = (names if cyc else names[:i]) + ekeys + (['obj'] if useobj else [])
        if draw(st.integers(0, 5)) == 0:
            refs = refs + ['missing', 'hollow']
        a = dict(name=k)
        if kinds[k] != 'str':
            a['type'] = kinds[k]
        if kinds[k] == 'int':
            irefs = [x for x in refs if kinds.get(x) == 'int']
            val = draw(st.one_of(st.sampled_from([5, '07', -3]),
                                 st.builds(part, st.sampled_from(irefs)) if irefs else st.just('3'),
                                 st.builds(lambda x: part(x) + '0', st.sampled_from(irefs)) if irefs else st.just(8)))
        elif kinds[k] == 'Geo' and draw(st.booleans()):
            val = gens.t('Geo', draw(st.sampled_from(['g', 'glob\\d'])))
        elif refs and draw(st.integers(0, 3)):
            val = draw(_template(refs, kinds))
        else:
            val = draw(st.sampled_from(PLAIN))
        where = draw(st.integers(0, 5))
        if where == 0:
            a.update(optional=True, default=val)
        elif where == 1:
            dflt.append([k, val])
        elif where == 2:
            a.update(optional=True, default='unused')
            desc.append([k, val])
        else:
            desc.append([k, val])
        attrs.append(a)
    for i, k in enumerate(ekeys):
        refs = ekeys[:i] + (names[:1] if draw(st.integers(0, 3)) == 0 else [])
        where = draw(st.sets(st.sampled_from(['desc', 'dflt', 'cb', 'desc']), min_size=1))
        for w in sorted(where):
            nested = refs and draw(st.integers(0, 3)) == 0
            val = (draw(st.sampled_from(TEXTS)) + part(draw(st.sampled_from(refs)))) if nested else draw(st.sampled_from(PLAIN))
            if kinds.get(k) == 'Geo':
                # an object which is not an attribute
                dict(desc=desc, dflt=dflt, cb=cb)[w].append([k, gens.t('Geo', w)])
                continue
            val = w + ':' + val
            if draw(st.integers(0, 19)) == 0:
                # (this is a value as well)
                val = None
            dict(desc=desc, dflt=dflt, cb=cb)[w].append([k, val])
    if useobj:
        desc.append(['obj', dict(t='object')])
    opts = dict(extended=draw(st.booleans()) or draw(st.booleans()), fast=draw(st.booleans()))
    if draw(st.integers(0, 3)) == 0:
        cb.append([draw(st.sampled_from(names)), 'shadowed'])
    return dict(attrs=draw(st.permutations(attrs)), desc=draw(st.permutations(desc)), dflt=dflt, cb=cb,
                perm=draw(st.permutations(range(len(attrs)))), inner=draw(st.sampled_from(PLAIN)),
                objattr=draw(st.sampled_from(ekeys + ['inner'])), **opts)


def strategy(tier):
    return _case()


def check(case, ctx):
    setup = sut.footprints.setup
    setup.extended = case['extended']
    setup.fastmode = case['fast']
    dflt = codec.decmap(case['dflt'])
    cb = codec.decmap(case['cb'])
    setup.defaults = dict(dflt)
    setup.callback = lambda: dict(cb)
    helper = sut.mkclass('Helper', dict(attr={'alpha': dict(optional=True, default='obj-alpha'),
                                              'inner': dict(), 'hollow': dict(optional=True), case['objattr']: dict()}), collector=('helper', ))
    with_obj = any(k == 'obj' for k, _ in case['desc'])
    obj = None
    if with_obj:
        status, obj = outcome_of(lambda: helper(**{'inner': case['inner'], case['objattr']: case['inner'],
                                                   'alpha': 'obj-alpha'}))
        if status == 'exc':
            raise obj

    def mkdesc(pairs):
        return {k: (obj if isinstance(v, dict) and v['t'] == 'object' else codec.dec(v)) for k, v in pairs}

    d = Definition(dict(name='One', attrs=case['attrs']))
    d2 = Definition(dict(name='Two', attrs=[case['attrs'][i] for i in case['perm']]), collector=('thang', ))
    desc = mkdesc(case['desc'])
    try:
        exp = d.expect(desc, defaults=dflt, callback=cb, extended=case['extended'])
    except model.Unspecified:
        ctx.label('unspecified')
        return
    ctx.label('outcome:' + exp.kind, 'obj' if with_obj else 'no-obj')
    for e in exp.errors if exp.kind == 'error' else ():
        ctx.label('error:' + e)
    ctx.nontrivial(exp.subst > 0)
    res = check_couldbe(d, mkdesc(case['desc']), exp)
    check_new(d, mkdesc(case['desc']), exp)
    if res:
        for k, v in res.items():
            require(not (isinstance(v, str) and model.PLACEHOLDER.search(v)), 'unreplaced sequence: {}={!r}', k, v)
    check_couldbe(d2, mkdesc(list(reversed(case['desc']))), exp, what='permuted couldbe')
    for tag, dd in (('thing', d), ('thang', d2)):
        status, new = outcome_of(lambda: sut.footprints.load(tag=tag, **mkdesc(case['desc'])))
        if status == 'exc':
            check_error(exp, new, 'load')
            continue
        require((new is not None) == (exp.kind == 'ok'), 'load: {!r} but expected {!r}', new, exp)
        if new is not None:
            check_values(read(new, new.footprint_attributes), exp.values, 'load')
