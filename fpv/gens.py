"""Hypothesis strategies shared by the properties (they only draw JSON data)."""

from hypothesis import strategies as st

NAMES = ['kind', 'alpha', 'beta', 'gamma', 'delta', 'epsi', 'zeta', 'Mixed']
ALIASES = ['aka', 'other', 'altname', 'nick', 'Alt']
EXTRAS = ['ext', 'more', 'Upper', 'x_1']


def t(kind, v):
    return {'t': kind, 'v': v}


#: raw values that can be given for each type (native, convertible or not)
RAW = {
    'str': ['a', 'b', 'foo', '01', '', 'a b', 5, 1.5, True, 'None', 'A', 'é', t('FPStr', 'foo')],
    'int': [1, 2, 3, '1', '01', '02', ' 7 ', 'x', '', 2.0, 2.7, True, False, -4, '-4', 'None', '0x1f', 10 ** 20],
    'int16': ['ff', '10', '0f', 'zz', 3, 16, '0X10', 1.5, ''],
    'float': ['1.5', 2, 1.5, 'abc', True, '1e3', 0.0, '-0', 'None'],
    'bool': [True, False, 0, 1, '', 'no', 'False', 2],
    'FPStr': ['a', 'b,c', 5, t('FPStr', 'a'), t('FPStr', 'range(1,2)'), ''],
    'FPList': [t('FPList', [1, 2]), t('FPList', ['a']), t('list', [1, 2]), t('tuple', ['a']), 'ab', 5,
               t('FPList', [t('list', [1])])],
    'FPTuple': [t('FPTuple', [1, 2]), t('tuple', [1, 2]), t('list', ['a']), 'ab', 5, t('tuple', [t('list', [1])])],
    'list': [t('list', [1, 2]), t('FPList', [1, 2]), t('tuple', [2, 1]), 'ab', t('FPList', ['a', 'b']), t('list', []), 5],
    'dict': [t('dict', [['a', 1]]), t('FPDict', [['a', 1]]), t('dict', [['b', t('list', [1])]]), t('list', [t('tuple', ['a', 1])]),
             t('list', []), 'ab', 5],
    'FPSet': [t('FPSet', [1, 2]), t('list', [2, 1, 1]), 'ab', 5, t('FPSet', [8, 0, 16])],
    'FPDict': [t('FPDict', [['a', 1]]), t('dict', [['a', 1]]), t('FPDict', [['a', t('list', [1])]]), 'ab', 5,
               t('FPDict', [['b', 2], ['a', 1]]), t('FPDict', [['a', 1], ['b', 2]])],
    'Geo': [t('Geo', 'x'), t('Geo', 'glob'), 'x', 'glob', '!bad', 5, ''],
    'Even': ['4', 3, 8, t('Even', 4), 2.0, 'x', True],
    'Scaled': [3, '3', t('Scaled', 30), 'x', '03', 30],
    'Picky': ['ab', 'abcd', t('Picky', 'ab'), 12, 12345, ''],
}
#: values that can be used in values/outcast definitions (all of them can be converted, and hashed)
GOOD = {
    'str': ['a', 'b', 'foo', '01', 'A', 5, 'True', ''],
    'int': [1, 2, '1', '01', '02', 3, -4, '7', True, 10 ** 20],
    'int16': ['ff', '10', '0f', 3, 16],
    'float': ['1.5', 2, 1.5, '2', 1000.0],
    'bool': [True, False, 0, 1],
    'FPStr': ['a', 'b,c', t('FPStr', 'a'), ''],
    'FPList': [t('FPList', [1, 2]), t('tuple', ['a']), 'ab'],
    'FPTuple': [t('FPTuple', [1, 2]), t('tuple', ['a']), 'ab'],
    'list': [t('FPList', [1, 2]), t('FPList', ['a', 'b']), t('FPList', [])],
    'dict': [t('FPDict', [['a', 1]]), t('FPDict', [])],
    'FPSet': [t('FPSet', [1, 2]), t('tuple', [2, 1]), 'ab', t('FPSet', [8, 0, 16])],
    'FPDict': [t('FPDict', [['a', 1]]), t('FPDict', [['b', 2], ['a', 1]])],
    'Geo': [t('Geo', 'x'), 'glob', 'x', t('Geo', 'y')],
    'Even': ['4', 8, t('Even', 4), 2],
    'Scaled': [3, '3', 30, t('Scaled', 30)],
    'Picky': ['ab', 'cd', t('Picky', 'ab')],
}
KINDS = sorted(RAW)
CLS_VALUES = [t('cls', x) for x in ('CoreA', 'CoreB', 'CoreC', 'Other', 'str')] + ['CoreA', 5, t('Geo', 'x')]


def subset(pool, min_size=0, max_size=None):
    return st.lists(st.sampled_from(pool), min_size=min_size, max_size=max_size or len(pool), unique_by=repr)


@st.composite
def typed_attr(draw, name, kinds=KINDS, optional=None, allow_values=True, allow_remap=True, allow_cls=True,
               with_alias=False, access=('rxx', )):
    """An attribute definition together with the pool of raw values that suits it: (attrdef, pool)."""
    a = dict(name=name)
    if allow_cls and draw(st.integers(0, 9)) == 0:
        a.update(type=draw(st.sampled_from(['CoreA', 'CoreB'])), isclass=True)
        pool = list(CLS_VALUES)
        if draw(st.integers(0, 2)) == 0:
            a[draw(st.sampled_from(['values', 'outcast']))] = draw(subset(CLS_VALUES[:3], 1, 2))
        good = CLS_VALUES[:3]
    else:
        kind = draw(st.sampled_from(kinds))
        pool, good = list(RAW[kind]), list(GOOD[kind])
        if kind == 'str':
            if draw(st.booleans()):
                a['type'] = 'str'
        elif kind == 'int16':
            a.update(type='int', args=dict(base=16))
            good = [x for x in good if isinstance(x, (str, int))]
        elif kind == 'Scaled':
            a.update(type='Scaled', args=dict(scale=10))
        else:
            a['type'] = kind
        hashable = [x for x in good]
        if allow_values:
            if draw(st.booleans()):
                a['values'] = draw(st.lists(st.sampled_from(hashable), min_size=1, max_size=6))
            if draw(st.integers(0, 2)) == 0:
                a['outcast'] = draw(st.lists(st.sampled_from(hashable), min_size=1, max_size=4))
    if allow_remap and draw(st.integers(0, 2)) == 0:
        keys = draw(st.lists(st.sampled_from([x for x in pool + ['r1', 'r2'] if _plain(x)] + ['r3', 'r4']),
                             min_size=1, max_size=4, unique_by=_key))
        # forward mappings only: no cycle
        targets = keys + [draw(st.sampled_from(good))]
        a['remap'] = [[k, draw(st.sampled_from(targets[i + 1:]))] for i, k in enumerate(keys)]
    if allow_remap and 'values' in a and not a.get('isclass') and draw(st.integers(0, 4)) == 0:
        a['autoremap'] = True
    opt = draw(st.booleans()) if optional is None else optional
    if opt:
        a['optional'] = True
        mode = draw(st.integers(0, 3))
        if mode in (1, 2):
            a['default'] = draw(st.sampled_from(good if mode == 1 else pool + (['None'] * 4 if a.get('type', 'str') == 'str' else [])))
        elif mode == 3:
            a['default'] = t('dyn', draw(st.sampled_from(good)))
    elif draw(st.integers(0, 4)) == 0:
        # the default of a mandatory attribute is ignored
        a['default'] = draw(st.sampled_from(good))
    if with_alias and draw(st.integers(0, 2)) == 0:
        a['alias'] = draw(subset(ALIASES, 1, 3))
    if draw(st.integers(0, 3)) == 0:
        a['access'] = draw(st.sampled_from(list(access)))
    pool = pool + [x for x in a.get('values', [])] + [k for k, _ in a.get('remap', [])]
    return a, pool


def _plain(x):
    return not isinstance(x, dict) or x['t'] in ('cls', 'FPStr', 'Geo')


def _key(x):
    """Equal values share the same key (so that remap tables have no equal keys)."""
    if isinstance(x, bool) or isinstance(x, (int, float)):
        return ('n', float(x))
    if isinstance(x, dict) and x['t'] == 'FPStr':
        return ('s', x['v'])
    if isinstance(x, str):
        return ('s', x)
    return ('o', repr(x))
