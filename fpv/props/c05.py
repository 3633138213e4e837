"""C05: only clauses."""

from hypothesis import strategies as st

from .. import codec, gens, sut
from ..core import require
from ..oracle import Definition, check_couldbe, outcome_of

ID = 'C05'
RULE = ('1-3 classes with 0-4 only clauses (plain value, string, tuple/list/set of values, regular expressions, mixtures, '
        'after_/before_ bounds on integers or strings) on attributes (typed, remapped, optional and possibly unset), on '
        'setup defaults of any case, or on nothing; all report levels. Non-trivial: the description fits and a clause decides.')
BUDGET = dict(quick=8000, thorough=150000)

STR = ['a', 'b', 'ab', 'abc', 'hello', 'h', '', 'B', '10', '9']
INT = [0, 1, 2, 3, 10, -5]


@st.composite
def _case(draw):
    attrs = [dict(name='name'), dict(name='num', type='int')]
    names = ['name', 'num']
    for i in (0, 1):
        if draw(st.integers(0, 3)) == 0:
            # names that look like (parts of) bounds
            names[i] = attrs[i]['name'] = draw(st.sampled_from(['run_name', 'my_first_name', 'run_after_name', 'name_before_'] if i == 0 else
                                                               ['run_num', 'my_first_num', 'run_before_num']))
    attrs[1]['args'] = {}
    for a, pool in zip(attrs, (STR, INT)):
        del_args = a.pop('args', None)
        assert del_args in (None, {})
        if draw(st.booleans()):
            a['optional'] = True
            if draw(st.booleans()):
                a['default'] = draw(st.sampled_from(pool))
    if draw(st.integers(0, 3)) == 0:
        attrs[0]['remap'] = [['raw', draw(st.sampled_from(STR))]]
    classes = []
    for i in range(draw(st.integers(1, 3))):
        only = []
        for key in draw(st.lists(st.sampled_from([names[0], names[1], 'after_' + names[1], 'before_' + names[1], 'after_' + names[0], 'before_' + names[0],
                                                  'level', 'someMixed', 'after_level', 'nowhere']),
                                 max_size=4, unique=True)):
            isint = key.endswith('num') or key.endswith('level')
            pool = INT if isint else STR
            form = draw(st.sampled_from(['one', 'one', 'tuple', 'list', 'set', 'frozenset', 'FPTuple', 'FPList', 'FPSet', 'range', 're', 'mix']))
            if form in ('re', 'mix') and (isint or key.startswith(('after_', 'before_'))):
                form = 'tuple'
            if form == 'range' and not isint:
                form = 'tuple'
            if form == 'range':
                v = gens.t(form, [draw(st.integers(0, 3)), draw(st.integers(0, 12))])
            elif form == 'one':
                v = draw(st.sampled_from(pool))
            elif form == 're':
                v = gens.t('re', draw(st.sampled_from(['a', '^ab', 'b$', '[hH]', '$', '.*b', '(?i)HELLO'])))
            elif form == 'mix':
                v = gens.t('tuple', [draw(st.sampled_from(STR)), gens.t('re', draw(st.sampled_from(['^ab', 'z', 'h']))),
                                     draw(st.sampled_from(STR))])
            else:
                v = gens.t(form, draw(st.lists(st.sampled_from(pool), max_size=3, unique=True)))
            only.append([key, v])
        classes.append(only)
    desc = []
    if draw(st.integers(0, 3)):
        desc.append([names[0], draw(st.sampled_from(STR + ['raw']))])
    if draw(st.integers(0, 3)):
        desc.append([names[1], draw(st.sampled_from(INT + ['1', '2', '10', 'x']))])
    dflt = []
    for k in ('level', 'Level', 'someMixed', 'SOMEMIXED', names[1]):
        if draw(st.integers(0, 3)) == 0:
            dflt.append([k, draw(st.sampled_from(STR if 'ixed' in k.lower() else INT))])
    return dict(attrs=attrs, classes=classes, desc=desc, dflt=dflt, report=draw(st.integers(0, 3)),
                aslist=draw(st.booleans()))


def strategy(tier):
    return _case()


def check(case, ctx):
    setup = sut.footprints.setup
    setup.report = case['report']
    dflt = codec.decmap(case['dflt'])
    setup.defaults = dict(dflt)
    defs = []
    for i, only in enumerate(case['classes']):
        cdef = dict(name='Only{:d}'.format(i), attrs=case['attrs'], only=only)
        d = Definition(dict(cdef, tags=['thing']))
        if case['aslist'] and only:
            # the same clauses, given as a list of dictionaries
            from .. import model
            fp = model.footprint_dict(cdef)
            fp['only'] = [{k: v} for k, v in fp['only'].items()]
            d.cls = sut.mkclass('OnlyL{:d}'.format(i), fp, collector=('thong', ))
        defs.append(d)
    desc = codec.decmap(case['desc'])
    winners = set()
    for d in defs:
        exp = d.expect(desc, defaults=dflt)
        ctx.label('resolve:' + exp.kind)
        if exp.kind == 'ok':
            ctx.label('selected' if exp.selected else 'discarded')
            ctx.nontrivial(d.cdef['only'])
            for key, spec in d.cdef['only']:
                ctx.label('key:' + key)
        check_couldbe(d, dict(desc), exp)
        check_couldbe(d, dict(desc), exp, mkreport=True, what='couldbe with a report')
        if exp.selected:
            winners.add(d.cls.__name__)
    coll = {c for d in defs for c in d.cls._collector}
    allfound = set()
    for tag in coll:
        found = sut.collectors.get(tag=tag).find_all(dict(desc))
        names = {c[0].__name__ for c in found}
        mine = {d.cls.__name__ for d in defs if tag in d.cls._collector}
        require(names & mine == winners & mine, 'find_all: {} instead of {}', sorted(names), sorted(winners & mine))
        allfound |= names
        status, obj = outcome_of(lambda: sut.footprints.load(tag=tag, **desc))
        if status == 'exc':
            raise obj
        if tag == 'thong' or not case['aslist']:
            require((obj is not None) == bool(winners & mine), 'load: {!r} whereas {} are eligible', obj, sorted(winners))
            if obj is not None:
                require(type(obj).__name__ in winners, 'load: {!r} is not eligible', obj)
        anyobj = sut.collectors.get(tag=tag).find_any(dict(desc))
        if tag == 'thong' or not case['aslist']:
            require((anyobj is not None) == bool(winners & mine), 'find_any: {!r} whereas {} are eligible', anyobj, sorted(winners))
