"""C18: the expansion of descriptions, compared to a cartesian product."""

import re

from hypothesis import strategies as st

from footprints import FPList

from .. import codec, sut
from ..core import require

ID = 'C18'
RULE = ('a description of 1-7 keys in any order: plain values, (nested) lists, tuples, sets, ranges with 1-3 bounds, comma separated strings, footprints containers and '
        'strings (never expanded, including user-defined ones), dictionaries matched on another key (possibly chained, possibly giving values to be expanded) or on '
        'nothing; the result is compared with a recursive cartesian product, with the input, and with the expansion of the same keys in another order. '
        'Non-trivial: at least two keys are expanded and three descriptions (or more) are expected.')
BUDGET = dict(quick=9000, thorough=150000)

NAMES = ['alpha', 'beta', 'gamma', 'delta', 'kind', 'zeta', 'eta']
WORDS = ['x', 'y', 'zz', '1', '2', 'None', '', ' x', 'range(2)', 'range', 'range(1', 'a b', 'RANGE(1)', 'é', 'range(x)', '(1)', '{glob}', '[glob:i]']


class Bag(list):
    """A kind of list that is not a footprints one."""


class Pair(tuple):
    """A kind of tuple (such as a named one) that is not a footprints one."""


class Pool(set):
    """A kind of set that is not a footprints one."""


class FPBag(list):
    """A user-defined list that must not be expanded."""

    __hash__ = None


def t(kind, v):
    return dict(t=kind, v=v)


@st.composite
def _atom(draw):
    w = draw(st.integers(0, 15))
    if w < 6:
        return draw(st.sampled_from(WORDS))
    if w < 9:
        return draw(st.sampled_from([0, 1, 2, None, True, 1.5, -3]))
    if w == 9:
        return t('Geo', draw(st.sampled_from(['paris', 'x'])))
    if w == 10:
        return t('FPStr', draw(st.sampled_from(['a,b', 'range(1,3)', 'x', '{glob:i:.*}'])))
    if w == 11:
        return t(draw(st.sampled_from(['FPList', 'FPTuple', 'FPBag'])), draw(st.lists(st.sampled_from(['x', 'a,b', 1, t('list', [1, 2])]), max_size=3)))
    if w == 12:
        return t('FPSet', draw(st.lists(st.sampled_from(['x', 'a,b', 1]), max_size=2, unique=True)))
    if w == 13:
        return t('FPDict', [[draw(st.sampled_from(NAMES)), draw(st.sampled_from(['x', 1]))]])
    if w == 14:
        return t('re', 'a,b')
    return t('dict', [['nowhere', t('dict', [['x', 'y']])]])


@st.composite
def _expandable(draw, depth=0):
    w = draw(st.integers(0, 9))
    if w < 4:
        inner = _atom() if depth >= 2 else st.one_of(_atom(), _atom(), _expandable(depth + 1))
        return t(draw(st.sampled_from(['list', 'tuple', 'Bag', 'Pair', 'list'])), draw(st.lists(inner, min_size=0 if draw(st.integers(0, 9)) == 0 else 1, max_size=3)))
    if w == 4:
        return t(draw(st.sampled_from(['set', 'Pool'])), draw(st.lists(st.sampled_from(['x', 'y', 1, 2, 'a,b', 'range(2,3)', None]), max_size=3, unique=True)))
    if w < 8:
        a = draw(st.integers(0, 12))
        args = draw(st.sampled_from([[a], [a, a + 1], [a, a + 3], [a, a + 4, 2], [a, a + 3, 2], [a, a, 1], [a, a + 9, 5], [a + 2, a]]))
        name = draw(st.sampled_from(['range', 'range', 'RANGE', 'Range']))
        return '{}({})'.format(name, ','.join(str(x) for x in args))
    return ','.join(draw(st.lists(st.sampled_from(WORDS), min_size=2, max_size=3)))


@st.composite
def _case(draw):
    names = draw(st.lists(st.sampled_from(NAMES), min_size=1, max_size=7, unique=True))
    nexp = draw(st.sampled_from([0, 1, 2, 2, 2, 3, 3]))
    pairs = []
    for i, n in enumerate(names):
        if i < nexp:
            pairs.append([n, dict(val=draw(_expandable()))])
        elif i and draw(st.integers(0, 2)) == 0:
            on = draw(st.sampled_from(names[:i]))
            res = draw(st.lists(st.one_of(_atom(), _atom(), _atom(), _expandable(1)), min_size=1, max_size=3))
            pairs.append([n, dict(on=on, res=res, noise=draw(st.sampled_from([[], ['nowhere'], ['other', 'nowhere']])),
                                  first=draw(st.booleans()), twin=draw(st.sampled_from(names[:i])) if draw(st.booleans()) else None)])
        else:
            pairs.append([n, dict(val=draw(_atom()))])
    if draw(st.integers(0, 9)) == 0:
        pairs.append(['index_expansion', dict(val=7)])
    order = draw(st.permutations(list(range(len(pairs)))))
    return dict(pairs=pairs, order=list(order), order2=list(draw(st.permutations(list(range(len(pairs)))))))


def strategy(tier):
    return _case()


# ----------------------------------------------------------------------- the specification

def dec(spec):
    if isinstance(spec, dict):
        if spec['t'] in ('Bag', 'Pair', 'Pool', 'FPBag'):
            return globals()[spec['t']](dec(x) for x in spec['v'])
        if spec['t'] in ('list', 'tuple', 'set', 'FPList', 'FPTuple', 'FPSet'):
            return {'list': list, 'tuple': tuple, 'set': set}.get(spec['t'], codec.TYPES.get(spec['t']))(dec(x) for x in spec['v'])
    return codec.dec(spec)


def protected(v):
    return type(v).__name__.startswith('FP')


def split(v):
    """What a value stands for (or None when it stands for itself)."""
    if protected(v):
        return None
    if isinstance(v, (list, tuple, set)):
        return list(v)
    if isinstance(v, str):
        m = re.fullmatch(r'range\((\d+)(?:,(\d+))?(?:,(\d+))?\)', v, re.IGNORECASE)
        if m:
            lo, hi, step = m.groups()
            return list(range(int(lo), int(hi if hi is not None else lo) + 1, int(step or 1)))
        if ',' in v:
            return v.split(',')
    return None


def leaves(v):
    """All the final values of v, in order."""
    parts = split(v)
    if parts is None:
        return [v]
    return [y for x in parts for y in leaves(x)]


def build(case):
    """The description: completes the dictionaries that are matched on an other key."""
    desc, finals = {}, {}
    for n, spec in case['pairs']:
        if 'val' in spec:
            desc[n] = dec(spec['val'])
            finals[n] = leaves(desc[n])
        elif any(isinstance(x, (list, tuple, set)) for x in finals[spec['on']]):
            # Matching on a whole footprints sequence is unspecified
            desc[n] = {'nowhere': {'x': 'never'}}
            finals[n] = [desc[n]]
        else:
            table = {}
            for i, k in enumerate(dict.fromkeys(str(x) for x in finals[spec['on']])):
                table[k] = dec(spec['res'][i % len(spec['res'])])
            finals[n] = [y for x in table.values() for y in leaves(x)]
            outer = [(spec['on'], table)]
            noise = [(x, {'x': 'never'}) for x in spec['noise']]
            desc[n] = dict(outer + noise if spec['first'] else noise + outer)
            twin = spec.get('twin')
            if twin not in (None, spec['on']) and all(x in desc and split(desc[x]) is None and not isinstance(desc[x], dict) for x in (twin, spec['on'])):
                # the first suitable key of such a dictionary is the right one
                desc[n][twin] = {'x': 'never'}
    return desc


def matched(desc, k):
    v = desc[k]
    if isinstance(v, dict) and not protected(v):
        return [x for x in v if x in desc]
    return []


def reference(desc):
    for k, v in desc.items():
        parts = split(v)
        if parts is not None:
            return [y for x in parts for y in reference({**desc, k: x})]
    for k, v in desc.items():
        on = matched(desc, k)
        if on and not matched(desc, on[0]):
            return reference({**desc, k: v[on[0]][str(desc[on[0]])]})
    return [desc]


def size(desc):
    n = 1
    for v in desc.values():
        n *= max(1, len(leaves(v)))
    return n


def key(d):
    return sorted((k, type(v).__name__, str(sorted(map(str, v))) if isinstance(v, set) else re.sub(r'0x\w+', '', str(v))) for k, v in d.items())


def strip(d):
    return {k: v for k, v in d.items() if k != 'index_expansion'}


def same(a, b):
    return (list(sorted(a)) == list(sorted(b)) and
            all(codec.same(a[k], b[k]) for k in a))


# ----------------------------------------------------------------------- the check

def containers(v):
    """The mutable containers found in a value."""
    if isinstance(v, (list, dict, set)):
        yield v
    if isinstance(v, (list, tuple, dict)):
        for x in (v.values() if isinstance(v, dict) else v):
            yield from containers(x)


def check(case, ctx):
    full = build(case)
    names = [n for n, _ in case['pairs']]
    desc = {names[i]: full[names[i]] for i in case['order']}
    if size(desc) > 600:
        ctx.label('too_big')
        return
    expected = reference(desc)
    if len(expected) > 3000:
        ctx.label('too_big')
        return
    witness = {k: v for k, v in build(case).items()}
    got = sut.util.expand(desc)
    require(isinstance(got, list), 'expand returns {!r}', type(got))
    require(list(desc) == [names[i] for i in case['order']] and same(desc, witness), 'the description is now {} (it was {})', desc, witness)
    require(len(got) == len(expected), '{:d} descriptions instead of {:d}: {} from {}', len(got), len(expected), got, desc)
    require([d.get('index_expansion') for d in got] == list(range(1, len(got) + 1)), 'indices are {}', [d.get('index_expansion') for d in got])
    sets = any(isinstance(v, set) and not protected(v) and len(v) > 1 for v in _deep(desc))
    late = any('on' in spec and any(split(dec(x)) is not None for x in spec['res']) for _, spec in case['pairs'])
    compare(got, expected, sets or late, desc)
    # the order of the keys does not matter
    other = {names[i]: full[names[i]] for i in case['order2']}
    got2 = sut.util.expand(other)
    compare(got2, expected, True, other)
    # what is plain is left alone
    for k, v in desc.items():
        if k != 'index_expansion' and split(v) is None and not matched(desc, k):
            require(all(same({k: d[k]}, {k: v}) for d in got), '{} was changed: {}', k, [d[k] for d in got])
    # the descriptions are independent from each other (at any depth), and from the input
    seen = dict()
    for i, d in enumerate(got):
        for k, v in d.items():
            for x in containers(v):
                require(seen.setdefault(id(x), i) == i, '{} is shared by several results: {}', x, got)
    if len(got) > 1:
        for k, v in desc.items():
            if isinstance(v, (FPList, FPBag)):
                got[0][k].append('changed')
                require('changed' not in v and all('changed' not in d[k] for d in got[1:]), 'the value of {} is shared', k)
                ctx.label('independence')
    nexp = sum(1 for k, v in desc.items() if split(v) is not None or matched(desc, k))
    ctx.nontrivial(nexp >= 2 and len(expected) >= 3)
    if not expected:
        ctx.label('empty')
    for k, v in desc.items():
        if matched(desc, k):
            ctx.label('match')
            if matched(desc, matched(desc, k)[0]):
                ctx.label('chain')
        elif split(v) is not None:
            ctx.label(type(v).__name__)
        elif protected(v):
            ctx.label('protected')


def _deep(v):
    yield v
    if isinstance(v, dict):
        for x in v.values():
            yield from _deep(x)
    elif isinstance(v, (list, tuple)):
        for x in v:
            yield from _deep(x)


def compare(got, expected, anyorder, desc):
    require(len(got) == len(expected), '{:d} descriptions instead of {:d}: {} from {}', len(got), len(expected), got, desc)
    got, expected = [strip(d) for d in got], [strip(d) for d in expected]
    if anyorder:
        got, expected = sorted(got, key=key), sorted(expected, key=key)
    for g, e in zip(got, expected):
        require(same(g, e), '{} instead of {} (from {})', g, e, desc)
