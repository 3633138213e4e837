"""C02: provenance and precedence of attribute values."""

import types

from hypothesis import strategies as st

from .. import gens, sut
from ..core import require
from ..oracle import outcome_of

ID = 'C02'
RULE = ('One class with 1-6 attributes (mandatory/optional, aliases, declared or on-demand default), a description that '
        'gives any subset of names, aliases and unknown keys (possibly None), and setup defaults with keys of any case; each '
        'source provides a distinct value. Non-trivial: at least two sources compete for an attribute, or a default is used.')
BUDGET = dict(quick=9000, thorough=150000)


class OnDemand:
    """A default that is computed at each resolution."""

    def __init__(self, name):
        self.name = name
        self.calls = 0

    def footprint_value(self):
        self.calls += 1
        return 'dyn-{}-{}'.format(self.name, self.calls)


class Delegate:
    """Something that looks like a default on demand."""

    def __init__(self, inner):
        self._inner = inner

    def __getattr__(self, key):
        if key.startswith('_'):
            raise AttributeError(key)
        return getattr(self._inner, key)


@st.composite
def _case(draw):
    names = draw(st.lists(st.sampled_from(gens.NAMES), min_size=1, max_size=6, unique=True))
    pool = list(gens.ALIASES) + ['second', 'third', 'fourth']
    attrs, desc, dflt, blank = [], [], [], []
    for n in names:
        opt = draw(st.booleans())
        nal = draw(st.integers(0, min(2, len(pool))))
        aliases = [pool.pop(draw(st.integers(0, len(pool) - 1))) for _ in range(nal)]
        attrs.append(dict(name=n, optional=opt, alias=aliases, default=draw(st.sampled_from(['none', 'static', 'falsy', 'dyn', 'dyn', 'dynobj', 'dyndel', 'dynblank']))))
        for key in [n] + aliases:
            how = draw(st.integers(0, 7))
            if how <= (3 if key == n else 2):
                desc.append([key, True])
            elif how == 4:
                desc.append([key, None])
            elif how == 5:
                desc.append([key, ''])
        if draw(st.integers(0, 2)) == 0:
            dflt.append(draw(st.sampled_from([n, n.upper(), n.capitalize()])))
            if draw(st.integers(0, 2)) == 0:
                blank.append(dflt[-1])
    for key in draw(st.lists(st.sampled_from(gens.EXTRAS + pool[:2]), max_size=2, unique=True)):
        desc.append([key, True])
        if draw(st.booleans()):
            dflt.append(key)
    if draw(st.integers(0, 3)) == 0 and attrs[0]['alias']:
        # an alias in the defaults of the setup is meaningless
        dflt.append(attrs[0]['alias'][0])
    return dict(attrs=attrs, desc=draw(st.permutations(desc)), dflt=dflt, blank=blank, extended=draw(st.booleans()),
                split=draw(st.integers(0, 3)))


def strategy(tier):
    return _case()


def check(case, ctx):
    sut.footprints.setup.extended = case['extended']
    # (some of the defaults are blank strings: they are values as any other one)
    given = {k: '' if k in case.get('blank', ()) else 'dflt-' + k for k in case['dflt']}
    sut.footprints.setup.defaults = dict(given)
    dflt = {k.lower(): v for k, v in given.items()}
    dyn = {a['name']: OnDemand(a['name']) for a in case['attrs']}
    fp = dict()
    for a in case['attrs']:
        fp[a['name']] = dict(optional=a['optional'], alias=set(a['alias']))
        if a['default'] == 'static':
            fp[a['name']]['default'] = 'stat-' + a['name']
        elif a['default'] == 'falsy':
            fp[a['name']]['default'] = ''
        elif a['default'] == 'dyn':
            fp[a['name']]['default'] = dyn[a['name']]
        elif a['default'] == 'dynobj':
            fp[a['name']]['default'] = types.SimpleNamespace(footprint_value=dyn[a['name']].footprint_value)
        elif a['default'] == 'dynblank':
            fp[a['name']]['default'] = types.SimpleNamespace(footprint_value=lambda: '')
        elif a['default'] == 'dyndel':
            fp[a['name']]['default'] = Delegate(dyn[a['name']])
    cls = sut.mkclass('Prov', dict(attr=fp))
    desc = {k: ('desc-' + k if v is True else v) for k, v in case['desc']}

    expected, reject, inputs, fresh = dict(), False, set(), set()
    for a in case['attrs']:
        n, opt = a['name'], a['optional']
        sources = [x for x in [n] + a['alias'] if x in desc and not (opt and desc[x] is None)]
        ctx.nontrivial(len(sources) + (n.lower() in dflt) > 1)
        if n in sources:
            acc = {desc[n]}
            ctx.label('source:name')
        elif sources:
            acc = {desc[x] for x in sources}
            if len(acc) > 1 and None in acc:
                ctx.label('ambiguous alias')
                return
            ctx.label('source:alias')
        elif n.lower() in dflt:
            acc = {dflt[n.lower()]}
            ctx.label('source:setup')
        elif not opt:
            acc = {None}
            ctx.label('source:missing')
        else:
            ctx.label('source:' + a['default'])
            ctx.nontrivial()
            acc = {dict(none=None, static='stat-' + n, falsy='', dynblank='').get(a['default'], 'dyn')}
            if acc == {'dyn'}:
                fresh.add(n)
        if sources or n.lower() in dflt:
            inputs.add(n)
        if acc == {None} and (not opt or n in inputs):
            reject = True
        expected[n] = acc

    def verify(obj, what):
        require(set(obj.footprint_attributes) == set(expected), '{}: attributes are {}', what, obj.footprint_attributes)
        for n, acc in expected.items():
            v = getattr(obj, n)
            if n in fresh:
                require(isinstance(v, str) and v.startswith('dyn-' + n + '-'), '{}: {} is {!r} instead of a value on '
                        'demand', what, n, v)
                require(v not in seen[n], '{}: stale value on demand for {}: {!r}', what, n, v)
                seen[n].add(v)
            else:
                require(v in acc, '{}: {} is {!r} instead of {!r}', what, n, v, acc)
        for k in desc:
            require(k in expected or not obj.footprint_has_attribute(k), '{}: {} became an attribute', what, k)

    seen = {n: set() for n in fresh}

    def new():
        items = list(desc.items())
        cut = min(case['split'], len(items))
        return cls(dict(items[:cut]), **dict(items[cut:]))

    def couldbe():
        resolved, got = cls.footprint_couldbe(dict(desc))
        if resolved:
            require(set(got) == inputs, 'couldbe: inputs are {} instead of {}', sorted(got), sorted(inputs))
            return cls(resolved, checked=True)

    for what, fn in (('instantiation', new), ('couldbe', couldbe),
                     ('load', lambda: sut.footprints.load(tag='thing', **desc)),
                     ('load again', lambda: sut.collectors.get(tag='thing').load(**desc))):
        status, obj = outcome_of(fn)
        if status == 'exc' and not (what == 'instantiation' and isinstance(obj, sut.FootprintFatalError)):
            raise obj
        if reject:
            require(status == 'exc' or obj is None, '{}: {!r} but a mandatory attribute is missing', what, obj)
        else:
            require(status == 'ok' and obj is not None, '{}: rejected ({!r}) but {!r} was expected', what, obj, expected)
            verify(obj, what)
    ctx.label('reject' if reject else 'ok')
