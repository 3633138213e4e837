"""C11: clones, copies, pickles, dictionary views and exports."""

import copy
import pickle

from hypothesis import strategies as st

from .. import codec, gens, sut
from ..codec import same
from ..core import require
from ..oracle import Definition

ID = 'C11'
RULE = ('a class (1-6 attributes of any type and access mode, unset ones, containers, nested footprint objects, own export methods), '
        'an instance that is possibly modified afterwards and given ordinary attributes, and all of: the 6 pickle protocols, copy, deepcopy, clone '
        '(plain, full, with replaced attributes), clone by the collector, dictionary views, export; then the copies are modified. '
        'Non-trivial: a container, a nested object or an unset attribute is present.')
BUDGET = dict(quick=5000, thorough=80000)

MODES = ['rxx', 'rwx', 'rwd']
KINDS = ['str', 'int', 'float', 'bool', 'FPStr', 'FPList', 'FPTuple', 'FPSet', 'FPDict', 'Geo', 'Even', 'Picky']
t = gens.t
CONTAINERS = [t('list', [1, 2]), t('list', [t('list', [1]), 'a']), t('list', [])]
DICTS = [t('dict', [['a', 1]]), t('dict', [['a', t('list', [1])]]), t('dict', [])]


@st.composite
def _case(draw):
    attrs, desc, spare = [], [], {}
    for n in draw(gens.subset(['alpha', 'beta', 'gamma', 'delta'], 1, 3)):
        a, pool = draw(gens.typed_attr(n, kinds=KINDS, allow_remap=False, access=MODES))
        a.setdefault('access', draw(st.sampled_from(MODES)))
        pool = [x for x in a.get('values') or pool if x != 'None'] or ['a']
        attrs.append(a)
        spare[n] = draw(st.sampled_from(pool))
        if not a.get('optional') or draw(st.booleans()):
            desc.append([n, draw(st.sampled_from(pool))])
    if draw(st.booleans()):
        attrs.append(dict(name='lst', type='list', access=draw(st.sampled_from(MODES))))
        desc.append(['lst', draw(st.sampled_from(CONTAINERS))])
        spare['lst'] = draw(st.sampled_from(CONTAINERS))
    if draw(st.integers(0, 2)) == 0:
        attrs.append(dict(name='dct', type='dict', access=draw(st.sampled_from(MODES))))
        desc.append(['dct', draw(st.sampled_from(DICTS))])
        spare['dct'] = draw(st.sampled_from(DICTS))
    if draw(st.integers(0, 2)) == 0:
        attrs.append(dict(name='stamp', type='Stamp', optional=True))
        if draw(st.booleans()):
            desc.append(['stamp', 'st'])
    if draw(st.integers(0, 2)) == 0:
        attrs.append(dict(name='both', type='Both', optional=True))
        if draw(st.booleans()):
            desc.append(['both', 'bo'])
    if draw(st.integers(0, 3)) == 0:
        attrs.append(dict(name='geo', type='Geo'))
        desc.append(['geo', t('Geo', 'g')])
    nested = draw(st.sampled_from(['no', 'no', 'given', 'optional']))
    return dict(attrs=attrs, desc=desc, spare=spare, nested=nested,
                export=draw(st.sampled_from([None, None] + [a['name'] for a in attrs])),
                resets=draw(gens.subset([a['name'] for a in attrs], 0, 1)) if draw(st.integers(0, 2)) == 0 else [],
                writes=draw(gens.subset(sorted(spare), 0, 2)), more=draw(st.booleans()), born=draw(st.booleans()),
                extra=draw(gens.subset(sorted(spare), 0, 2)), proto=draw(st.integers(0, 5)))


def strategy(tier):
    return _case()


def like(a, b):
    """Same values, including nested footprint objects."""
    if isinstance(a, sut.FootprintBase) or isinstance(b, sut.FootprintBase):
        return (type(a) is type(b) and a.footprint_attributes == b.footprint_attributes and
                all(like(getattr(a, k), getattr(b, k)) for k in a.footprint_attributes))
    return same(a, b)


def values(obj):
    return {k: getattr(obj, k) for k in obj.footprint_attributes}


def all_like(a, b):
    return set(a) == set(b) and all(like(a[k], b[k]) for k in a)


def mutable(v):
    return isinstance(v, (list, dict, set, sut.FootprintBase))


def poke(v):
    """Modify a mutable value in place, and whatever it contains."""
    for x in list(v.values() if isinstance(v, dict) else v if isinstance(v, (list, tuple, set)) else ()):
        poke(x)
    if isinstance(v, list):
        v.append('POKED')
    elif isinstance(v, dict):
        v['POKED'] = 1
    elif isinstance(v, set):
        v.add('POKED')
    elif isinstance(v, codec.Geo):
        v.name = 'POKED'
    elif isinstance(v, sut.FootprintBase):
        v.level = 77


def canon(v):
    # (the order of a set is meaningless)
    return str(sorted(map(repr, v)) if isinstance(v, (set, frozenset)) else v)


def frozen(obj):
    return {k: copy.deepcopy(v) for k, v in values(obj).items()}


def check(case, ctx):
    inner = sut.mkclass('Inner', dict(attr=dict(name=dict(), level=dict(type=int, access='rwx', optional=True))),
                        collector=('inner', ))
    attrs = [dict(a) for a in case['attrs']]
    ns = {}
    if case['export']:
        def exporter(self, key=case['export']):
            return ('EXPORTED', canon(getattr(self, key)))
        ns['footprint_export_' + case['export']] = exporter
    if case['born']:
        def init(self, *args, **kw):
            # an ordinary class that has its own data
            self.count = 0
            self._hidden = 'born'
            sut.FootprintBase.__init__(self, *args, **kw)
            self.later = 'born'
        ns['__init__'] = init
    cdef = dict(name='Cls', attrs=attrs)
    foot = None
    d = Definition(cdef, **ns)
    if case['nested'] != 'no':
        # (a type that is not known beforehand)
        foot = dict(attr=dict(inner=dict(type=inner, optional=case['nested'] == 'optional')))
        cls = sut.mkclass('Outer', foot, bases=[d.cls])
    else:
        cls = d.cls
    desc = codec.decmap(case['desc'])
    exp = d.expect(desc)
    if exp.kind != 'ok':
        return
    if case['nested'] == 'given' or (case['nested'] == 'optional' and len(desc) % 2):
        desc['inner'] = inner(name='foo', level=3)
    obj = cls(**desc)
    if case['more']:
        obj.note = ['some', 'thing']
        obj.count = 3
        obj.later = 'changed'
        obj._hidden = 'x'
        obj.tool = len
        obj.nothing = None
    for k in case['writes']:
        try:
            setattr(obj, k, codec.dec(case['spare'][k]))
            ctx.label('modified')
        except (AttributeError, ValueError, sut.FootprintException):
            pass
    ref = frozen(obj)
    names = list(obj.footprint_attributes)
    unset = [k for k in names if ref[k] is None]
    ctx.nontrivial(unset or any(mutable(v) for v in ref.values()))
    if unset:
        ctx.label('unset')
    if any(isinstance(v, sut.FootprintBase) for v in ref.values()):
        ctx.label('nested')

    def untouched(what):
        require(all_like(values(obj), ref), '{}: the original object became {} instead of {}', what, values(obj), ref)

    # dictionary views
    shallow = obj.footprint_as_shallow_dict()
    require(set(shallow) == set(names) and all(shallow[k] is getattr(obj, k) or type(shallow[k]) is int and
                                               shallow[k] == getattr(obj, k) for k in names),
            'the shallow dictionary is {} instead of {}', shallow, ref)
    if not unset:
        try:
            listing = sorted(ref.values())
        except TypeError:
            pass
        else:
            # (sets are only partially ordered)
            if not any(isinstance(x, (set, frozenset, sut.FootprintBase, codec.Geo)) for x in listing):
                # (equal values may come in any order)
                got = obj.footprint_attributes_values
                require(type(got) is list and all(x <= y for x, y in zip(got, got[1:])) and
                        sorted((type(x).__name__, repr(x)) for x in got) == sorted((type(x).__name__, repr(x)) for x in listing),
                        'the values are {} instead of {}', obj.footprint_attributes_values, listing)
    shallow.clear()
    untouched('shallow dictionary')
    pure = obj.footprint_as_dict()
    require(all_like(pure, ref), 'the dictionary is {} instead of {}', pure, ref)
    for v in pure.values():
        poke(v)
    pure.clear()
    untouched('dictionary')
    export = obj.footprint_export()
    require(set(export) == set(names), 'the export has {} instead of {}', sorted(export), names)
    for k, v in export.items():
        if k == case['export']:
            expected = ('EXPORTED', canon(ref[k]))
        elif isinstance(ref[k], sut.FootprintBase):
            expected = dict(name='foo', level=ref[k].level)
        elif isinstance(ref[k], sut.footprints.FPSet):
            require(isinstance(v, list) and len(v) == len(ref[k]) and set(v) == ref[k], 'export of {} is {!r} instead of a list with {!r}',
                    k, v, ref[k])
            continue
        elif isinstance(ref[k], codec.Stamp):
            expected = dict(stamp='st')
        elif isinstance(ref[k], codec.Both):
            expected = ('both', 'bo')
        else:
            expected = ref[k]
        require(like(v, expected), 'export of {} is {!r} instead of {!r}', k, v, expected)
    for v in export.values():
        poke(v)
    untouched('export')

    # copies and pickles
    makers = [('pickle protocol {:d}'.format(case['proto']), lambda: pickle.loads(pickle.dumps(obj, case['proto'])), True),
              ('deepcopy', lambda: copy.deepcopy(obj), True),
              ('copy', lambda: copy.copy(obj), False),
              ('pickle of a deepcopy', lambda: pickle.loads(pickle.dumps(copy.deepcopy(obj))), True),
              ('pickle in a container', lambda: pickle.loads(pickle.dumps({'x': [obj]}))['x'][0], True)]
    for what, maker, deep in makers:
        other = maker()
        require(type(other) is type(obj) and other is not obj, '{}: result is {!r}', what, other)
        require(all_like(values(other), ref), '{}: attributes are {} instead of {}', what, values(other), ref)
        require(sorted(other.footprint_undefs()) == unset, '{}: unset attributes are {} instead of {}', what,
                other.footprint_undefs(), unset)
        if case['more']:
            require(other.note == ['some', 'thing'] and other.count == 3 and other._hidden == 'x' and other.later == 'changed' and
                    vars(other).get('tool') is len and 'nothing' in vars(other) and other.nothing is None,
                    '{}: ordinary attributes were lost', what)
        require(other in sut.collectors.get(tag='thing').instances(), '{}: the copy is not tracked', what)
        # copies can be cloned, and live their own life
        again = other.footprint_clone()
        require(all_like(values(again), ref), '{} then clone: attributes are {} instead of {}', what, values(again), ref)
        change(other, case, deep)
        untouched(what)
        obj.footprint_riseup()
        require([o for o in sut.collectors.get(tag='thing').instances() if o is obj], '{}: the original object is not tracked', what)
    # clones
    extra = {k: codec.dec(case['spare'][k]) for k in case['extra']}
    # (None: back to the default)
    extra.update({k: None for k in case.get('resets', ())})
    for full in (False, True):
        what = 'clone(full={})'.format(full)
        other = obj.footprint_clone(full=full)
        require(type(other) is type(obj) and other is not obj, '{}: result is {!r}', what, other)
        require(all_like(values(other), ref), '{}: attributes are {} instead of {}', what, values(other), ref)
        require(('note' in vars(other)) == (full and case['more']) and getattr(other, '_hidden', None) == ('born' if case['born'] else None),
                '{}: ordinary attributes: {}', what, sorted(vars(other)))
        if full and case['more']:
            require(other.note == ['some', 'thing'] and other.count == 3 and other.later == 'changed' and
                    vars(other).get('tool') is len and 'nothing' in vars(other) and other.nothing is None, '{}: ordinary attributes were lost', what)
        elif case['born']:
            require(other.count == 0 and other.later == 'born', '{}: ordinary attributes: {}', what, vars(other))
        change(other, case, False)
        untouched(what)
        if extra:
            before = frozen(obj)
            given = dict(extra)
            status = None
            mods = {}
            for k, v in extra.items():
                ma = [m for m in d.mattrs if m.name == k][0]
                if v is None:
                    if not ma.optional:
                        status = 'Missing'
                        break
                    v = ma.default
                    v = codec.dec(v['v'] if isinstance(v, dict) and v['t'] == 'dyn' else v)
                    ctx.label('reset')
                status, mods[k] = (None, v) if v is None else ma.accept(v)
                if status or (isinstance(mods[k], str) and mods[k] == 'None'):
                    status = status or 'Invalid'
                    break
            try:
                other = obj.footprint_clone(full=full, extra=given)
            except sut.FootprintFatalError as exc:
                require(status is not None, 'clone with {}: refused ({})', extra, exc)
            else:
                require(status is None, 'clone with {}: accepted whereas {}', extra, status)
                wanted = dict(before, **mods)
                require(all_like(values(other), wanted), 'clone with {}: attributes are {} instead of {}', extra,
                        values(other), wanted)
                ctx.label('extra')
            require(same(given, extra), 'clone: extra was modified: {}', given)
            untouched('clone with extra')
    # what was deleted may be given again
    for a in attrs:
        k = a['name']
        if a.get('access') == 'rwd' and ref.get(k) is not None and ref[k] != 'None' and k in desc:
            other = obj.footprint_clone()
            delattr(other, k)
            got = attempt(lambda: other.footprint_clone())
            require(got is sut.FootprintFatalError or a.get('optional') and isinstance(got, sut.FootprintBase),
                    'clone of an object without its {}: {!r}', k, got)
            got = attempt(lambda: other.footprint_clone(extra={k: copy.deepcopy(ref[k])}))
            require(isinstance(got, sut.FootprintBase) and all_like(values(got), ref), 'clone of an object without its {}, given again: {!r}', k, got)
            ctx.label('given again')
    untouched('clones of an object without some attribute')
    # whatever the defaults have become
    fp = sut.footprints
    later = {k: codec.dec(case['spare'][k]) for k in unset if k in case['spare']}
    if later:
        fp.setup.defaults = dict(later)
        for full in (False, True):
            other = obj.footprint_clone(full=full)
            require(all_like(values(other), ref), 'clone(full={}) with defaults {}: attributes are {} instead of {}', full, later, values(other), ref)
        fp.setup.defaults = dict()
        ctx.label('later defaults')
    # the collector's way
    if case['nested'] == 'no' and not unset:
        coll = sut.collectors.get(tag='thing')
        other = coll.almost_clone(obj)
        require(other is not None and all_like(values(other), ref), 'almost_clone: {} instead of {}',
                other and values(other), ref)
        ctx.label('almost_clone')
        untouched('almost_clone')
        for k in sorted(ref):
            # something else for an attribute is what an object made from scratch would have
            for v in sorted({repr(x): x for x in ref.values() if type(x) in (str, int)}.items()):
                got = attempt(lambda: coll.almost_clone(obj, **{k: v[1]}))
                exp = attempt(lambda: coll.load(**dict(obj.footprint_as_dict(), **{k: v[1]})))
                agree = all_like(values(got), values(exp)) if isinstance(exp, sut.FootprintBase) and isinstance(got, sut.FootprintBase) else got == exp
                require(agree, 'almost_clone({}={!r}): {!r} instead of {!r}', k, v[1], got, exp)
        untouched('almost_clone')
        # with more than it takes, this may even be something else
        bis = sut.mkclass('Bis', dict(attr=dict(addon=dict(alias=['extension'])), priority=dict(level=sut.footprints.priorities.top.DEBUG)), bases=[cls])
        other = coll.almost_clone(obj)
        require(type(other) is cls, 'almost_clone of {!r}: {!r}', obj, other)
        for k in ('addon', 'extension'):
            other = coll.almost_clone(obj, **{k: 'added'})
            require(type(other) is bis and all_like(values(other), dict(ref, addon='added')), 'almost_clone({}=added): {!r} {}', k, other, other and values(other))
        third = coll.almost_clone(other)
        require(type(third) is bis and all_like(values(third), values(other)), 'almost_clone of {!r}: {!r}', other, third)
        untouched('almost_clone as something else')


def attempt(fn):
    try:
        return fn()
    except Exception as exc:
        return type(exc)


def change(obj, case, deep):
    """Modify a copy as much as possible."""
    if deep:
        for v in list(values(obj).values()):
            poke(v)
        if case['more']:
            obj.note.append('POKED')
    for k in obj.footprint_attributes:
        mode = type(obj).footprint_access(k)
        if mode == 'rwd':
            delattr(obj, k)
        elif mode == 'rwx' and k in case['spare']:
            try:
                setattr(obj, k, codec.dec(case['spare'][k]))
            except (ValueError, sut.FootprintException):
                pass
    obj.note = 'POKED'
