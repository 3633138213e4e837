"""C04: termination of the resolution."""

from hypothesis import strategies as st

from .. import gens, sut
from ..core import require
from ..oracle import outcome_of

ID = 'C04'
RULE = ('Reference graphs over 1-60 attributes (chains, dense acyclic graphs, cycles of length 1-12 with or without tails, '
        'through attributes or extra parameters; 1 to 80 and 1100 references in a single value; remap chains and cycles), with arbitrary names, i.e. arbitrary '
        'evaluation orders. Non-trivial: a reference or remap depth of at least 2, or a cycle.')
BUDGET = dict(quick=14400, thorough=60000)
ASSUMPTIONS = ['A case that executes more than 3 million lines of Python is said not to terminate '
               '(the biggest generated case needs about a hundred times less).']


@st.composite
def _graph(draw):
    shape = draw(st.sampled_from(['chain', 'chain', 'dag', 'dag', 'cycle', 'cycle', 'wide', 'repeat']))
    n = draw(st.one_of(st.integers(1, 12), st.integers(1, 60)))
    if shape == 'cycle':
        n = min(n, 20)
    order = draw(st.one_of(st.just(list(range(n))), st.just(list(range(n - 1, -1, -1))), st.permutations(range(n))))
    edges = [[] for _ in range(n)]
    size = [1] * n
    if shape == 'chain':
        for i in range(1, n):
            edges[i] = [i - 1]
    elif shape == 'dag':
        for i in range(1, n):
            for _ in range(draw(st.integers(0, 3))):
                j = draw(st.integers(0, i - 1))
                if size[i] + size[j] < 300:
                    edges[i].append(j)
                    size[i] += size[j]
    elif shape == 'wide':
        for i in range(1, n):
            edges[i] = [0]
    elif shape == 'repeat':
        for i in range(1, min(n, 3)):
            edges[i] = [0] * (draw(st.integers(1, 80)) if draw(st.integers(0, 24)) else 1100)
    else:
        ln = draw(st.integers(1, min(12, n)))
        for i in range(1, n):
            edges[i] = [i - 1] if draw(st.booleans()) else []
        for i in range(1, ln):
            edges[i] = [i - 1]
        edges[0] = [ln - 1]
    # some of the nodes are extra parameters rather than attributes
    nextra = draw(st.sampled_from([0, 0, 0, 1, 2, n - 1]))
    extras = draw(st.lists(st.integers(0, n - 1), max_size=min(nextra, 20), unique=True)) if nextra > 0 else []
    if len(extras) == n:
        extras = extras[1:]
    return dict(kind='graph', shape=shape, order=list(order), edges=edges, extras=sorted(extras),
                src=draw(st.sampled_from(['desc', 'default', 'setup', 'cb'])), fast=draw(st.booleans()),
                prefix=draw(st.sampled_from(['a', 'kind', 'Z'])))


@st.composite
def _remap(draw):
    keys = ['r{:d}'.format(i) for i in range(draw(st.integers(1, 8)))]
    m = {k: draw(st.sampled_from(keys + ['end', k])) for k in keys}
    return dict(kind='remap', remap=sorted(m.items()), start=draw(st.sampled_from(keys + ['end'])))


@st.composite
def _autoremap(draw):
    vals = draw(st.lists(st.sampled_from(['u', 'v', 'w']), min_size=1, max_size=5))
    return dict(kind='auto', values=vals, start=draw(st.sampled_from(vals)))


@st.composite
def _method(draw):
    """Methods (of attributes, of extra parameters or of footprint objects) that fail for a while, or for ever."""
    names = draw(st.permutations(['alpha', 'beta', 'gamma', 'kind', 'zeta']))[:draw(st.integers(2, 5))]
    owner = draw(st.sampled_from(['extra', 'extra', 'object', 'attr']))
    return dict(kind='method', names=list(names), owner=owner, fails=draw(st.sampled_from([0, 1, 2, 5, 10, 1000000])),
                error=draw(st.sampled_from(['ValueError', 'KeyError', 'AttributeError', 'FootprintException'])),
                method=draw(st.sampled_from(names + ['other'])), users=draw(gens.subset(names[1:], 1)),
                chain=draw(st.booleans()), fast=draw(st.booleans()))


def strategy(tier):
    return st.one_of(_graph(), _graph(), _graph(), _remap(), _autoremap(), _method())


def check(case, ctx):
    return dict(graph=check_graph, remap=check_remap, auto=check_auto, method=check_method)[case['kind']](case, ctx)


def check_auto(case, ctx):
    ctx.label('autoremap')
    ctx.nontrivial(len(case['values']) > 2)
    cls = sut.mkclass('Auto', dict(attr=dict(alpha=dict(values=list(case['values']), remap=dict(autoremap='first')))))
    obj = cls(alpha=case['start'])
    require(obj.alpha == case['values'][0], 'autoremap: {!r} instead of {!r}', obj.alpha, case['values'][0])


class Failing:
    """An object whose methods fail *fails* times before they give a result."""

    def __init__(self, fails, error):
        self.fails, self.error, self.calls = fails, error, 0

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)

        def method(guess, extras):
            self.calls += 1
            if self.calls <= self.fails:
                raise self.error('not now')
            return 'done'
        return method


def check_method(case, ctx):
    error = dict(ValueError=ValueError, KeyError=KeyError, AttributeError=AttributeError,
                 FootprintException=sut.FootprintException)[case['error']]
    sut.footprints.setup.fastmode = case['fast']
    ref = '[helper:{:s}{:s}]'.format(case['method'], ':title' if case['chain'] else '')
    attrs = {n: dict() for n in case['names']}
    if case['owner'] == 'attr':
        attrs['helper'] = dict(type=Failing)
    cls = sut.mkclass('Method', dict(attr=attrs))
    holder = sut.mkclass('Holder', dict(attr=dict(helper=dict(type=Failing))), collector=('holder', ))
    values = {n: (ref if n in case['users'] else 'v' + n) for n in case['names']}
    ctx.label('method of an ' + case['owner'], 'fails' if case['fails'] > 10 else 'succeeds' if not case['fails'] else 'fails for a while')
    ctx.nontrivial(case['fails'])
    for what, fn in (('instantiation', lambda d: cls(**d)),
                     ('load', lambda d: sut.footprints.load(tag='thing', **d))):
        helper = Failing(case['fails'], error)
        desc = dict(values)
        if case['owner'] == 'object':
            desc['somewhere'] = holder(helper=helper)
        else:
            desc['helper'] = helper
        status, res = outcome_of(lambda: fn(desc))
        require(helper.calls < 100000, '{}: the method was called {:d} times', what, helper.calls)
        if case['owner'] == 'attr' and case['fails']:
            require(status == 'exc' and isinstance(res, error), '{}: {!r} instead of {}', what, res, case['error'])
        elif case['fails'] > 10:
            require(status == 'exc' and isinstance(res, sut.FootprintMaxIter), '{}: {!r} instead of FootprintMaxIter', what, res)
        else:
            require(status == 'ok' and res is not None, '{}: {!r} whereas the method succeeds after {:d} failures', what, res, case['fails'])
            for n in case['names']:
                expected = ('Done' if case['chain'] else 'done') if n in case['users'] else 'v' + n
                require(getattr(res, n) == expected, '{}: {} is {!r} instead of {!r}', what, n, getattr(res, n), expected)


def check_remap(case, ctx):
    remap = dict(case['remap'])
    cls = sut.mkclass('Remap', dict(attr=dict(alpha=dict(remap=dict(remap)))))
    value, seen = case['start'], []
    while value in remap and remap[value] != value and value not in seen:
        seen.append(value)
        value = remap[value]
    cycle = value in seen
    ctx.label('remap cycle' if cycle else 'remap')
    ctx.nontrivial(cycle or len(seen) > 1)
    for fn in (lambda: cls(alpha=case['start']), lambda: sut.footprints.load(tag='thing', alpha=case['start'])):
        status, res = outcome_of(fn)
        if cycle:
            require(status == 'exc' and isinstance(res, sut.FootprintMaxIter),
                    'remap cycle from {!r}: {!r} instead of FootprintMaxIter', case['start'], res)
        else:
            require(status == 'ok', 'acyclic remap: {!r}', res)
            require(res.alpha == value, 'remap: {!r} instead of {!r}', res.alpha, value)


def check_graph(case, ctx):
    setup = sut.footprints.setup
    setup.fastmode = case['fast']
    n = len(case['order'])
    extras = set(case['extras'])
    name = ['{:s}{:02d}'.format(case['prefix'].lower() if i in extras else case['prefix'], k)
            for i, k in enumerate(case['order'])]
    text = ['t' + ''.join('[' + name[j] + ']' for j in case['edges'][i]) for i in range(n)]
    # Oracle: depth first evaluation
    final, state = [None] * n, [0] * n

    def cyclic(i):
        """Evaluate node i, tell if a cycle can be reached."""
        if state[i] == 1:
            return True
        if state[i] == 2:
            return final[i] is None
        state[i] = 1
        bad = any([cyclic(j) for j in case['edges'][i]])
        state[i] = 2
        final[i] = None if bad else 't' + ''.join(final[j] for j in case['edges'][i])
        return bad

    attrs = [i for i in range(n) if i not in extras]
    bad = any([cyclic(i) for i in attrs])
    depth = [0] * n
    if not bad:
        done = set()

        def dep(i):
            if i not in done:
                depth[i] = 1 + max([dep(j) for j in case['edges'][i]] or [0])
                done.add(i)
            return depth[i]
        for i in attrs:
            dep(i)
        ctx.label('depth>10' if max(depth) > 10 else 'depth<=10')
    ctx.label('cycle' if bad else 'acyclic', 'shape:' + case['shape'], 'n>50' if n > 50 else 'n<=50',
              'extras' if extras else 'no-extras')
    ctx.nontrivial(bad or max(depth) >= 2)

    fp, desc, dflt, cb = dict(), dict(), dict(), dict()
    for i in attrs:
        if case['src'] == 'default' and i % 2:
            fp[name[i]] = dict(optional=True, default=text[i])
        else:
            fp[name[i]] = dict()
            (dflt if case['src'] == 'setup' and i % 3 == 0 else desc)[name[i]] = text[i]
    for i in extras:
        dict(desc=desc, setup=dflt, cb=cb).get(case['src'], desc)[name[i]] = text[i]
    setup.defaults = dflt
    setup.callback = lambda: dict(cb)
    cls = sut.mkclass('Graph', dict(attr=fp))
    for what, fn in (('instantiation', lambda: cls(**desc)),
                     ('load', lambda: sut.footprints.load(tag='thing', **desc))):
        status, res = outcome_of(fn)
        if bad:
            require(status == 'exc' and isinstance(res, sut.FootprintMaxIter),
                    '{}: circular references lead to {!r} instead of FootprintMaxIter', what,
                    res if status == 'exc' or res is None else {name[i]: getattr(res, name[i]) for i in attrs})
        else:
            require(status == 'ok' and res is not None, '{}: acyclic references lead to {!r}', what, res)
            for i in attrs:
                got = getattr(res, name[i])
                require(got == final[i], '{}: {} is {!r} instead of {!r}', what, name[i], got, final[i])
