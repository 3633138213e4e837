"""C10: access modes of the attributes, as histories of reads, writes and deletions."""

import gc
import types
import weakref

from hypothesis import strategies as st

from .. import codec, gens, sut
from ..core import require
from ..codec import same
from ..model import MAttr
from ..oracle import Definition

ID = 'C10'
RULE = ('a class (2-5 attributes of any type, values, outcast and access mode, weak ones included), a subclass that may change the access modes, '
        'three instances, and a history of up to 14 writes, deletions, unauthorised writes and releases of the referenced objects; '
        'all the attributes of all the instances are read after each step. Non-trivial: a write or deletion is accepted and another one refused.')
BUDGET = dict(quick=6000, thorough=100000)

MODES = ['rxx', 'rwx', 'rwd']
WEAK = ['rxx-weak', 'rwx-weak', 'rwd-weak']
KINDS = ['str', 'int', 'int16', 'float', 'bool', 'FPStr', 'FPList', 'FPTuple', 'Geo', 'Even', 'Scaled', 'Picky']


def _settable(x):
    return x != 'None'


@st.composite
def _case(draw):
    attrs, pools = [], {}
    for n in draw(gens.subset(['alpha', 'beta', 'gamma'], 1, 3)):
        a, pool = draw(gens.typed_attr(n, kinds=KINDS, allow_remap=False, access=MODES))
        a.setdefault('access', draw(st.sampled_from(MODES + ['rwd', 'rwx'])))
        attrs.append(a)
        pools[n] = [x for x in pool if _settable(x)] + [None]
        if draw(st.integers(0, 2)) == 0:
            # values that suit something else
            pools[n] = pools[n] + [x for x in gens.RAW[draw(st.sampled_from(KINDS))] if _settable(x)] + gens.CLS_VALUES[:2]
    for n in draw(gens.subset(['ref', 'link'], 0, 2)):
        attrs.append(dict(name=n, type='Geo', access=draw(st.sampled_from(WEAK)), optional=draw(st.booleans())))
    insts = []
    for _ in range(3):
        d = []
        for a in attrs:
            n = a['name']
            if n in pools:
                good = a.get('values') or pools[n]
                if not a.get('optional') or draw(st.booleans()):
                    d.append([n, draw(st.sampled_from(good if draw(st.integers(0, 2)) else pools[n]))])
            elif not a['optional'] or draw(st.booleans()):
                d.append([n, draw(st.integers(0, 3))])
        insts.append(dict(desc=d, sub=draw(st.booleans()), proxy=draw(st.integers(0, 3)) == 0))
    ops = []
    for _ in range(draw(st.integers(1, 14))):
        a = draw(st.sampled_from(attrs))
        n = a['name']
        i = draw(st.integers(0, 2))
        w = draw(st.integers(0, 9))
        if w < 6:
            if n in pools:
                ops.append(['set', i, n, draw(st.sampled_from(pools[n] + list(a.get('values', []))))])
            else:
                ops.append(['set', i, n, draw(st.one_of(st.integers(0, 3), st.none(), st.just('proxy')))])
        elif w < 8:
            ops.append(['del', i, n])
        elif w == 8:
            ops.append(['force', i, n])
        else:
            ops.append(['release', draw(st.integers(0, 3))])
    return dict(attrs=attrs, insts=insts, ops=ops, sub={a['name']: draw(st.sampled_from(MODES)) for a in attrs
                                                         if a['name'] in pools and draw(st.integers(0, 3)) == 0})


def strategy(tier):
    return _case()


class Deleted:
    pass


class Dead:
    pass


def check(case, ctx):
    d = Definition(dict(name='Cls', attrs=case['attrs'], form='dict'))
    sub = Definition(dict(name='Sub', attrs=[dict(name=n, access=m) for n, m in case['sub'].items()]), bases=[d.cls])
    mattrs = {a['name']: MAttr(a) for a in case['attrs']}
    base_mode = {a['name']: a['access'] for a in case['attrs']}
    sub_mode = dict(base_mode, **case['sub'])
    geos = [codec.Geo('geo{:d}'.format(i)) for i in range(4)]

    objs = []
    for spec in case['insts']:
        desc, weak = {}, {}
        for k, v in spec['desc']:
            if k in ('ref', 'link'):
                weak[k] = v
            else:
                desc[k] = codec.dec(v)
        exp = d.expect(dict(desc, **{k: geos[v] for k, v in weak.items()}))
        cls = sub.cls if spec['sub'] else d.cls
        if exp.kind != 'ok':
            continue
        obj = cls(**dict(desc, **{k: weakref.proxy(geos[v]) if spec['proxy'] else geos[v] for k, v in weak.items()}))
        state = {}
        for k in mattrs:
            v = exp.values[k]
            v = None if repr(v) == '<unset>' else v
            if k in weak:
                v = ('weak', weak[k])
            state[k] = v
        objs.append((obj, state, sub_mode if spec['sub'] else base_mode))
    if not objs:
        return
    del v
    desc = exp = None
    compare(objs, mattrs, geos, 'initially')
    accepted = refused = False
    for step, op in enumerate(case['ops']):
        what = 'step {:d} {}'.format(step, op)
        if op[0] == 'release':
            if geos[op[1]] is not None:
                probe = weakref.ref(geos[op[1]])
                geos[op[1]] = None
                if probe() is not None:
                    gc.collect()
                require(probe() is None, '{}: a weak attribute keeps the object alive', what)
                ctx.label('release')
            compare(objs, mattrs, geos, what)
            continue
        obj, state, modes = objs[op[1] % len(objs)]
        k = op[2]
        mode = modes[k]
        if op[0] == 'set':
            value = op[3]
            if mode.endswith('weak'):
                if value is None:
                    new, value = None, None
                else:
                    idx = 0 if value == 'proxy' else value
                    if geos[idx] is None:
                        continue
                    new = ('weak', idx)
                    value = weakref.proxy(geos[idx]) if value == 'proxy' else geos[idx]
                reason = None
                if value is None and (mattrs[k].values or mattrs[k].outcast):
                    continue
            else:
                value = codec.dec(value)
                if value is None:
                    new, reason = None, None
                    if mattrs[k].isclass or (mattrs[k].values and not any(x is None for x in mattrs[k].values)):
                        reason = 'None'
                else:
                    reason, new = mattrs[k].accept(value)
            try:
                setattr(obj, k, value)
            except AttributeError as exc:
                require(mode.startswith('rxx'), '{}: refused on a writable attribute ({})', what, exc)
                refused = True
            except (ValueError, sut.FootprintException) as exc:
                require(not mode.startswith('rxx') and reason is not None, '{}: refused: {}', what, exc)
                refused = True
                ctx.label('invalid value')
            else:
                require(not mode.startswith('rxx'), '{}: accepted on a read-only attribute', what)
                require(reason is None, '{}: accepted whereas {}', what, reason)
                state[k] = new
                accepted = True
                ctx.label('written')
            value = new = None
        elif op[0] == 'del':
            try:
                delattr(obj, k)
            except (AttributeError, KeyError) as exc:
                require(mode[2] != 'd' or state[k] is Deleted, '{}: refused ({!r})', what, exc)
                refused = True
            else:
                require(mode[2] == 'd' and state[k] is not Deleted, '{}: accepted', what)
                state[k] = Deleted
                accepted = True
                ctx.label('deleted')
        elif op[0] == 'force':
            for method, args in (('footprint_setattr', (k, 'forced')), ('footprint_delattr', (k, ))):
                try:
                    getattr(obj, method)(*args)
                except AttributeError:
                    pass
                else:
                    require(False, '{}: {} is accepted without authorisation', what, method)
        compare(objs, mattrs, geos, what)
    ctx.nontrivial(accepted and refused)
    if len(case['ops']) % 4 == 0:
        weak_sources(WEAK[len(case['ops']) // 4 % 3], ctx)


def weak_sources(mode, ctx):
    """Wherever a weak attribute comes from, it is a weak reference."""
    kept = {k: codec.Geo(k) for k in ('default', 'demand', 'setup', 'alias')}
    foot = {k: dict(type=codec.Geo, optional=True, access=mode) for k in kept}
    foot['default']['default'] = kept['default']
    foot['demand']['default'] = types.SimpleNamespace(footprint_value=lambda: kept['demand'])
    foot['alias']['alias'] = ['nick']
    cls = sut.mkclass('Weak', dict(attr=foot), collector=('weakthing', ))
    sut.footprints.setup.defaults = dict(setup=kept['setup'])
    kept['default'] = cls.footprint_retrieve().attr['default']['default']
    for how, fn in (('instantiation', lambda: cls(nick=kept['alias'])),
                    ('load', lambda: sut.footprints.load(tag='weakthing', nick=kept['alias'])),
                    ('clone', lambda: cls(nick=kept['alias']).footprint_clone())):
        obj = fn()
        for k, geo in kept.items():
            v = getattr(obj, k)
            require(type(v) in weakref.ProxyTypes and v.name == k and v.__dict__ is geo.__dict__, '{} ({}): the attribute {} is {!r}', how, mode, k, v)
    ctx.label('weak sources')


def compare(objs, mattrs, geos, what):
    for i, (obj, state, modes) in enumerate(objs):
        names = sorted(k for k, v in state.items() if v is not Deleted)
        require(list(obj.footprint_attributes) == names, '{}: instance {:d} has {} instead of {}', what, i,
                obj.footprint_attributes, names)
        for k in mattrs:
            require(obj.footprint_has_attribute(k) == (state[k] is not Deleted), '{}: instance {:d} has {}?', what, i, k)
            try:
                v = getattr(obj, k)
                if modes[k].endswith('weak') and v is not None:
                    v.name
            except AttributeError:
                v = Deleted
            except ReferenceError:
                v = Dead
            exp = state[k]
            if isinstance(exp, tuple) and exp[:1] == ('weak', ):
                geo = geos[exp[1]]
                if geo is None:
                    require(v is Dead, '{}: instance {:d}.{} is {!r} whereas the object does not exist anymore', what, i, k, v)
                else:
                    require(v is not Deleted and v is not Dead and v is not None and v.name == geo.name,
                            '{}: instance {:d}.{} is not {!r}', what, i, k, geo)
                    require(type(v) in weakref.ProxyTypes, '{}: instance {:d}.{} is not a weak reference', what, i, k)
                continue
            require(same(v, exp), '{}: instance {:d}.{} is {!r} ({}) instead of {!r}', what, i, k, v, type(v).__name__, exp)
        undefs = sorted(k for k, v in state.items() if v is None)
        require(sorted(obj.footprint_undefs()) == undefs, '{}: undefs are {} instead of {}', what, obj.footprint_undefs(), undefs)
