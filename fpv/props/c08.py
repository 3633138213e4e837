"""C08: inheritance and composition of footprints."""

import copy
import inspect
import logging

from hypothesis import strategies as st

from .. import codec, gens, model, sut
from ..core import require
from ..oracle import check_couldbe, check_new, Definition

ID = 'C08'
RULE = ('a pool of footprint pieces (dictionaries, Footprint objects with or without defaults, objects composed from others, decorative ones) '
        'assembled in a hierarchy of 1-6 classes (single and multiple inheritance, shared pieces, partial overrides of any property of an attribute); every class '
        'is checked against descriptions both right after its definition and once all of the others are defined. '
        'Non-trivial: a class overrides a property of an inherited attribute.')
BUDGET = dict(quick=6000, thorough=100000)

NAMES = ['kind', 'num', 'alpha', 'beta']
TYPES = ['str', 'int', 'float', 'FPStr', 'Even', 'Scaled', 'bool']
RAWS = ['1', '2', 'a', 'b', 4, 6, 2.0, '04', 'x', 3]
ACCESS = ['rxx', 'rwx', 'rwd']
METHODS = ['footprint_foo', 'footprint_bar', 'footprint_kind', 'bar', 'footprint_alpha']
LEVELS = ['none', 'default', 'toolbox', 'debug']


@st.composite
def _partial(draw, name):
    a = dict(name=name)
    for k in draw(gens.subset(['type', 'values', 'outcast', 'optional', 'default', 'alias', 'remap', 'access', 'args', 'info'], 0, 4)):
        if k == 'type':
            a[k] = draw(st.sampled_from(TYPES))
        elif k in ('values', 'outcast'):
            a[k] = draw(st.lists(st.sampled_from(['1', '2', '4', 6, '6', 4] + (['a'] if draw(st.booleans()) else [])),
                                 min_size=1 if draw(st.integers(0, 4)) else 0, max_size=3))
        elif k == 'optional':
            a[k] = draw(st.booleans())
        elif k == 'default':
            a[k] = draw(st.sampled_from(['1', 4, '6', 'a']))
        elif k == 'alias':
            a[k] = draw(gens.subset(['al_' + name, 'bis_' + name], 0, 1))
        elif k == 'remap':
            a[k] = [[x, y] for x, y in (('r1', 'r2'), ('r2', '6'), ('r3', draw(st.sampled_from(['4', '6'])))) if draw(st.booleans())]
        elif k == 'access':
            a[k] = draw(st.sampled_from(ACCESS))
        elif k == 'args':
            a[k] = {draw(st.sampled_from(['scale', 'shift'])): draw(st.sampled_from([1, 2, 10]))}
            a['type'] = 'Scaled'
        elif k == 'info':
            a[k] = draw(st.sampled_from(['Info A.', 'Info B.']))
    return a


@st.composite
def _piece(draw):
    p = dict(form=draw(st.sampled_from(['dict', 'dict', 'dict', 'object', 'nodefault', 'kwargs', 'kwlist', 'deco', 'deco', 'attrlist'])),
             attrs=[draw(_partial(n)) for n in draw(gens.subset(NAMES, 1 if draw(st.integers(0, 5)) else 0, 3))])
    if draw(st.integers(0, 3)) == 0:
        p['level'] = draw(st.sampled_from(LEVELS))
    if draw(st.integers(0, 3)) == 0:
        p['info'] = draw(st.sampled_from(['Some doc', 'Other doc']))
    if draw(st.integers(0, 4)) == 0:
        p['only'] = [[draw(st.sampled_from(['kind', 'alpha', 'beta', 'level'])), draw(st.sampled_from(['1', 'a', '6']))]]
    if p['form'] == 'deco':
        p['ndeco'] = draw(st.integers(0, 2))
        if p['ndeco'] and draw(st.integers(0, 3)) == 0:
            p['swaps'] = [draw(st.integers(0, p['ndeco'] - 1))]
    return p


@st.composite
def _case(draw):
    pool = draw(st.lists(_piece(), min_size=1, max_size=5))
    if len(pool) > 2 and draw(st.integers(0, 4)) == 0:
        for p in pool[:3]:
            if p['form'] != 'deco':
                p.update(form='deco', ndeco=draw(st.integers(0, 2)))
    # Some objects may be built from former ones
    for i, p in enumerate(pool):
        if i and p['form'] in ('object', 'deco', 'nodefault') and draw(st.booleans()):
            others = list(range(i))
            if p['form'] == 'deco' and draw(st.booleans()):
                # other decorative ones rather
                others = [j for j in others if pool[j]['form'] == 'deco'] or others
            p['parents'] = draw(gens.subset(others, 1, 3))
    for i, p in enumerate(pool):
        if draw(st.integers(0, 3)) == 0 and not any(i in x.get('parents', ()) for x in pool):
            # (the values have to be known, hence such an attribute is not shared)
            p['attrs'].append(dict(name='auto{:d}'.format(i), optional=True, default='1', values=draw(gens.subset(['1', '2', '4', 'a'], 1, 3)),
                                   remap=draw(st.sampled_from([[], [['r1', '1']], [['2', 'r3']]])) + [['autoremap', draw(st.sampled_from(['first', 'first', 'last']))]]))
    classes = []
    for i in range(draw(st.integers(1, 6))):
        c = dict(name='Cls{:d}'.format(i), pieces=draw(gens.subset(list(range(len(pool))), 0 if i % 3 == 2 else 1, 3)),
                 bases=draw(gens.subset(list(range(i)), 0 if draw(st.integers(0, 3)) == 0 else 1, 2)) if i else [],
                 aslist=draw(st.booleans()), abstract=draw(st.integers(0, 5)) == 0)
        if not c['bases'] and not c['pieces'] and draw(st.booleans()):
            c['pieces'] = [0]
        c['methods'] = draw(gens.subset(METHODS, 0, 4)) if draw(st.integers(0, 2)) == 0 else []
        c['short'] = draw(st.sampled_from([None, None, True, False]))
        classes.append(c)
    descs = []
    for _ in range(draw(st.integers(1, 3))):
        d = []
        for n in NAMES:
            if draw(st.integers(0, 5)):
                key = draw(st.sampled_from([n, n, n, 'al_' + n, 'bis_' + n, 'auto0', 'auto1']))
                d.append([key, draw(st.sampled_from(RAWS + ['r1', 'r2', 'r3']))])
        for i, p in enumerate(pool):
            # what both a remapping and an automatic one deal with
            if p['attrs'] and p['attrs'][-1]['name'] == 'auto{:d}'.format(i) and draw(st.booleans()):
                d.append([p['attrs'][-1]['name'], draw(st.sampled_from(['2', '2', 'r3', 'a', '4', '1']))])
        descs.append(d)
    return dict(pool=pool, classes=classes, descs=descs, promote=draw(st.booleans()), short=draw(st.booleans()))


def strategy(tier):
    return _case()


# ------------------------------------------------------------------ model of the merge

def merge(eff, new, bare=False):
    """
    Update the effective definition *eff* with *new* (when it is the definition of a footprint object
    without any attribute or clause, the default values are not distinguishable from values that are given).
    """
    if bare and not new['attrs'] and not new.get('only'):
        new = {k: v for k, v in new.items() if (k, v) not in (('level', 'DEFAULT'), ('info', 'Not documented'))}
    for n, a in new['attrs'].items():
        mine = eff['attrs'].setdefault(n, {})
        for k, v in a.items():
            if k in ('remap', 'args') and k in mine:
                mine[k] = dict(mine[k])
                mine[k].update(v)
            else:
                mine[k] = v
    for k in ('level', 'info'):
        if k in new:
            eff[k] = new[k]
    if new.get('only'):
        eff['only'] = dict(eff.get('only', {}), **new['only'])


def isobj(piece):
    return isinstance(piece, sut.Footprint)


def normalise(eff, defaults=True):
    """What an actual Footprint object makes of a definition."""
    for n, a in eff['attrs'].items():
        if 'autoremap' in a.get('remap', ()):
            auto = a['remap']['autoremap']
            a['remap'] = {k: v for k, v in a['remap'].items() if k != 'autoremap'}
            if auto == 'first':
                a['remap'].update((x, a['values'][0]) for x in a['values'][1:])
        for k, v in dict(default=None, optional=False, access='rxx', alias=[], remap={}, values=[], outcast=[]).items():
            a.setdefault(k, v)
        m = mattr(n, a)
        a['values'] = [m._typed(x) for x in a['values']]
        a['outcast'] = [m._typed(x) for x in a['outcast']]
    if defaults:
        eff.setdefault('level', 'DEFAULT')
        eff.setdefault('info', 'Not documented')
    return eff


def mattr(name, a):
    m = model.MAttr(dict(name=name))
    m.type = codec.TYPES[a.get('type', 'str')]
    m.args = dict(a.get('args', {}))
    m.optional = a['optional']
    m.default = a['default']
    m.alias = list(a['alias'])
    m.values, m.outcast = a['values'], a['outcast']
    m.remap = list(a['remap'].items())
    return m


def blank(piece):
    """The JSON piece as an effective definition."""
    eff = dict(attrs={})
    for a in piece['attrs']:
        b = {k: copy.deepcopy(v) for k, v in a.items() if k != 'name'}
        if 'remap' in b:
            b['remap'] = {x: y for x, y in b['remap']}
        eff['attrs'][a['name']] = b
    if 'level' in piece:
        eff['level'] = piece['level'].upper()
    if 'info' in piece:
        eff['info'] = piece['info']
    if 'only' in piece:
        eff['only'] = {k: v for k, v in piece['only']}
    return eff


def refinements(sources):
    """The attributes whose type is not always a refinement of the one that is given before."""
    types = {}
    for eff in sources:
        for n, a in eff['attrs'].items():
            if 'type' in a:
                types.setdefault(n, []).append(codec.TYPES[a['type']])
    return sorted(n for n, found in types.items() if not all(issubclass(y, x) for x, y in zip(found, found[1:])))


def warned(records, name):
    """The attributes that are the subject of a warning about types."""
    out = []
    for level, msg in records:
        start = name + ': Type inconsistency among footprints for attribute '
        if msg.startswith(start):
            require(level == logging.WARNING, '{}: {} is told at level {}', name, msg, level)
            out.append(msg[len(start):].split(':')[0])
    return sorted(out)


def check(case, ctx):
    fp = sut.footprints
    log = []
    swaps = {str(i) + 'd' + str(k) for i, p in enumerate(case['pool']) for k in p.get('swaps', ())}

    def deco(tag):
        def decorator(cls):
            log.append((cls.__name__, tag))
            setattr(cls, 'mark_' + tag, True)
            if tag in swaps:
                # a decorator may return another class
                cls = sut.Meta('Swap' + cls.__name__, (cls, ), dict(__module__=cls.__module__, _abstract=cls._abstract,
                                                                   swapped=tag))
            return cls
        decorator.tag = tag
        return decorator

    # -- the pieces
    pieces, effs, decos, snaps = [], [], [], []
    for i, p in enumerate(case['pool']):
        cdef = dict(p, name='piece', attrs=p['attrs'])
        cdef.pop('form')
        raw = model.footprint_dict(cdef)
        eff = blank(p)
        mydeco = []
        form = p['form']
        if form in ('dict', 'attrlist'):
            obj = raw
            if form == 'attrlist':
                obj['attr'] = [{k: v} for k, v in raw['attr'].items()]
                if 'only' in raw:
                    obj['only'] = [{k: v} for k, v in raw['only'].items()]
        else:
            parents = [j for j in p.get('parents', ()) if pieces[j] is not None]
            args = [pieces[j] for j in parents]
            full = dict(attrs={})
            try:
                if form != 'nodefault':
                    full.update(level='DEFAULT', info='Not documented')
                for j in parents:
                    merge(full, copy.deepcopy(effs[j]), isobj(pieces[j]))
                    mydeco.extend(decos[j])
                merge(full, eff)
                eff = normalise(full, defaults=form != 'nodefault')
            except (ValueError, TypeError):
                eff = None
            kw = dict(nodefault=True) if form == 'nodefault' else {}
            if form == 'deco':
                own = [str(i) + 'd' + str(k) for k in range(p['ndeco'])]
                mydeco.extend(own)
                if own:
                    kw['decorator'] = [deco(t) for t in own] if len(own) > 1 else deco(own[0])
            else:
                mydeco = []
            try:
                with sut.messages(logging.WARNING) as records:
                    if form == 'kwlist':
                        raw = dict(raw, attr=[{k: v} for k, v in raw['attr'].items()])
                        if 'only' in raw:
                            raw['only'] = [{k: v} for k, v in raw['only'].items()]
                    if form in ('kwargs', 'kwlist', 'deco'):
                        obj = (sut.DecorativeFootprint if form == 'deco' else sut.Footprint)(*args, **raw, **kw)
                    else:
                        obj = sut.Footprint(*(args + [raw]), **kw)
            except (ValueError, TypeError):
                require(eff is None, 'piece {:d} is refused', i)
                obj = None
            else:
                require(eff is not None, 'piece {:d} is accepted despite values that can not be converted', i)
                if form not in ('kwargs', 'kwlist', 'deco'):
                    # (keyword arguments are the last word: they are not compared to anything)
                    exp = refinements([effs[j] for j in parents] + [blank(p)])
                    require(warned(records, 'unknown class') == exp, 'piece {:d}: warnings about the types of {} instead of {}',
                            i, warned(records, 'unknown class'), exp)
        pieces.append(obj)
        effs.append(eff)
        decos.append(mydeco if form == 'deco' else [])
        snaps.append(snapshot(obj))
        if form == 'deco' and obj is not None:
            require([f.tag for f in obj.decorators] == mydeco, 'piece {:d}: the decorators are {} instead of {}', i, [f.tag for f in obj.decorators], mydeco)
            plain = obj.as_footprint()
            require(type(plain) is sut.Footprint and {k: v for k, v in snapshot(plain).items()} == {k: v for k, v in snaps[-1].items()}, 'piece {:d}: {} as a plain footprint is {}',
                    i, snaps[-1], snapshot(plain))

    # -- the classes
    classes, known = {}, {}
    for i, c in enumerate(case['classes']):
        mine = [j for j in c['pieces'] if pieces[j] is not None]
        bases = [j for j in c['bases'] if j in classes]
        if not mine and not bases:
            if c['pieces'] or c['bases']:
                continue
            ctx.label('no footprint')
        bases = [j for j in bases if not any(k != j and issubclass(classes[k].cls, classes[j].cls) for k in bases)]
        eff = dict(attrs={}, level='DEFAULT', info='Not documented')
        try:
            for j in reversed(bases):
                merge(eff, copy.deepcopy(classes[j].eff), True)
            inherited = copy.deepcopy(eff)
            for j in mine:
                merge(eff, copy.deepcopy(effs[j]), isobj(pieces[j]))
            normalise(eff)
        except (ValueError, TypeError):
            eff = None
        if len(mine) == 1 and not c['aslist']:
            local = pieces[mine[0]]
        else:
            local = [pieces[j] for j in mine]
        ns = {}
        if not mine and not c['aslist']:
            local = {}
        nlog = len(log)
        own = {m: (lambda m=m, n=c['name']: classmethod(lambda cls: n + m))() for m in c['methods']}
        ns.update(own)
        if c['short'] is not None:
            ns['_mkshort'] = c['short']
        fp.setup.shortnames = case['short']
        try:
            with sut.messages(logging.WARNING) as records:
                cls = sut.mkclass(c['name'], local, bases=[classes[j].cls for j in bases], abstract=c['abstract'], **ns)
        except (ValueError, TypeError) as exc:
            if 'MRO' in str(exc) or 'method resolution' in str(exc):
                continue
            require(eff is None, '{}: the definition is refused ({})', c['name'], exc)
            ctx.label('refused')
            continue
        require(eff is not None, '{}: the definition is accepted despite values that can not be converted', c['name'])
        exp = refinements([classes[j].eff for j in reversed(bases)] + [effs[j] for j in mine])
        require(warned(records, c['name']) == exp, '{}: warnings about the types of {} instead of {}', c['name'],
                warned(records, c['name']), exp)
        if exp:
            ctx.label('inconsistent types')
        marks = [t for j in mine for t in decos[j]]
        name, wanted = c['name'], []
        for t in marks:
            wanted.append((name, t))
            if t in swaps:
                name = 'Swap' + name
        require(log[nlog:] == wanted, '{}: decorators applied: {} instead of {}', c['name'], log[nlog:], wanted)
        require(cls.__name__ == name, '{}: the class is {} instead of {}, despite decorators {}', c['name'], cls, name, marks)
        if name != c['name']:
            ctx.label('swapped by a decorator')
            known.update({k: own if k.__name__ == c['name'] else {} for k in cls.__mro__[:len(marks) + 1] if k not in known and k.__name__.endswith(c['name'])})
        if marks:
            ctx.label('decorated')
        if any(decos[j] for k in bases for j in case['classes'][k]['pieces']):
            ctx.label('parent decorated')
        d = Definition.__new__(Definition)
        d.cdef = dict(name=c['name'], only=[[k, v] for k, v in eff.get('only', {}).items()])
        d.name, d.cls, d.eff, d.abstract = name, cls, eff, c['abstract']
        if c['short'] or (c['short'] is None and case['short']):
            for m in c['methods']:
                if m.startswith('footprint_'):
                    own.setdefault(m[10:], own[m])
        d.methods = own
        known.setdefault(cls, own)
        for m in ('footprint_foo', 'footprint_bar', 'foo', 'bar'):
            exp = next((known[k][m] for k in cls.__mro__ if m in known.get(k, ())), None)
            got = inspect.getattr_static(cls, m, None)
            require(got is exp, '{}.{} is {} instead of {} (short names: {}, {})', c['name'], m, got, exp, c['short'], case['short'])
            if m in ('foo', 'bar') and exp:
                ctx.label('short name')
        d.mattrs = [mattr(n, a) for n, a in eff['attrs'].items()]
        classes[i] = d
        if any(n in inherited['attrs'] for j in mine for n in effs[j]['attrs']) and bases:
            ctx.nontrivial()
        if len(bases) > 1:
            ctx.label('multiple inheritance')
        examine(d, case, ctx, known)

    # -- once all of them are defined
    if case['promote'] and classes:
        last = classes[max(classes)]
        if not last.abstract:
            # (abstract classes are not collected)
            last.cls.footprint_retrieve()
            last.cls.__module__ = 'fpvsub.one'
            fp.reset_package_priority('fpvsub', 'debug')
            last.eff['level'] = 'DEBUG'
    for d in classes.values():
        examine(d, case, ctx, known)
    for i, (obj, snap) in enumerate(zip(pieces, snaps)):
        # (a list of attributes is replaced by the equivalent dictionary)
        require(snap is None or snapshot(obj) == snap, 'piece {:d} was modified: {} instead of {}', i, snapshot(obj), snap)


def snapshot(obj):
    """A comparable view of a piece."""
    if isinstance(obj, sut.Footprint):
        obj = obj.as_copy()
    if obj is None or isinstance(obj.get('attr'), list):
        return None
    out = copy.deepcopy({k: v for k, v in obj.items() if k not in ('priority', 'decorator')})
    if 'priority' in obj:
        out['level'] = obj['priority']['level'].tag
    if isinstance(out.get('attr'), dict):
        for a in out['attr'].values():
            for k in ('values', 'outcast', 'alias'):
                if k in a:
                    a[k] = sorted(a[k], key=lambda x: (type(x).__name__, repr(x)))
    return out


def examine(d, case, ctx, known):
    cls = d.cls
    require(cls.footprint_level() == d.eff['level'], '{}: priority level is {} instead of {}', d.name, cls.footprint_level(),
            d.eff['level'])
    foot = cls.footprint_retrieve()
    # whatever is done to a copy...
    other = foot.as_copy()
    for a in list(other['attr'].values()):
        for v in a.values():
            if isinstance(v, set):
                v.add('POKED')
            elif isinstance(v, dict):
                v['POKED'] = 'POKED'
            elif isinstance(v, list):
                v.append('POKED')
        a.update(optional='POKED', info='POKED')
    other['attr']['POKED'] = 1
    other.get('only', {}).update(POKED=1)
    other['priority']['level'] = 'POKED'
    other = foot.as_dict()
    other.pop('attr')
    other['info'] = 'POKED'
    require(foot.info == d.eff['info'], '{}: info is {!r} instead of {!r}', d.name, foot.info, d.eff['info'])
    require(foot.only == d.eff.get('only', {}) and foot.level == d.eff['level'] and foot.priority['level'] == d.eff['level'] and foot.bind == [],
            '{}: only is {}, priority {}, bind {}', d.name, foot.only, foot.priority, foot.bind)
    require(set(foot.attr) == set(d.eff['attrs']), '{}: attributes are {} instead of {}', d.name, sorted(foot.attr),
            sorted(d.eff['attrs']))
    keys = {m.name for m in d.mattrs} | {x for m in d.mattrs for x in m.alias}
    require(foot.as_opts() == keys == foot.allkeys(), '{}: names are {} and {} instead of {}', d.name, foot.as_opts(), foot.allkeys(), keys)
    require(cls.footprint_clskind() == d.name.lower() and cls.footprint_clsrealkind() == 'footprintbase' and
            cls.fullname() == cls.__module__ + '.' + cls.__name__, '{}: kind of the class is {} {} {}', d.name, cls.footprint_clskind(),
            cls.footprint_clsrealkind(), cls.fullname())
    mandatory = sorted(m.name for m in d.mattrs if not m.optional)
    require(sorted(foot.mandatory()) == mandatory and all(bool(foot.optional(m.name)) == m.optional for m in d.mattrs),
            '{}: mandatory attributes of the footprint are {}', d.name, foot.mandatory())
    require(sorted(cls.footprint_mandatory()) == mandatory, '{}: mandatory attributes are {} instead of {}',
            d.name, sorted(cls.footprint_mandatory()), mandatory)
    for m in d.mattrs:
        a = d.eff['attrs'][m.name]
        require(cls.footprint_access(m.name) == a['access'], '{}.{}: access is {} instead of {}', d.name, m.name,
                cls.footprint_access(m.name), a['access'])
        require(bool(cls.footprint_optional(m.name)) == m.optional, '{}.{}: optional is {}', d.name, m.name, not m.optional)
        for what, actual, exp in (('values', cls.footprint_values(m.name), m.values),
                                  ('outcast', foot.get_outcast(m.name), m.outcast)):
            require(set(actual) == set(exp) and len(actual) == len(set(exp)), '{}.{}: {} is {} instead of {}',
                    d.name, m.name, what, actual, exp)
        # (what has been given is not a way to change the definition)
        given = cls.footprint_values(m.name)
        require(isinstance(given, list), '{}.{}: values are given as {!r}', d.name, m.name, given)
        given.append('never')
        require(len(cls.footprint_values(m.name)) == len(set(m.values)), '{}.{}: values have become {}', d.name, m.name, cls.footprint_values(m.name))
        require(foot.attr[m.name].get('info') == a.get('info'), '{}.{}: info is {}', d.name, m.name, foot.attr[m.name].get('info'))
    for desc in case['descs']:
        desc = codec.decmap(desc)
        exp = d.expect(desc)
        ctx.label('outcome:' + exp.kind)
        if d.mattrs:
            # (nothing can be said of a class that has no attribute at all)
            check_couldbe(d, dict(desc), exp, what='{}.couldbe({})'.format(d.name, desc))
        if not d.abstract:
            obj = check_new(d, dict(desc), exp, what='{}({})'.format(d.name, desc))
            if obj is not None:
                require(obj.footprint is foot and obj.footprint_info == d.eff['info'] and obj.footprint_clsname() == d.name and obj.realkind == 'footprintbase',
                        '{}: {} {} {} {}', d.name, obj.footprint, obj.footprint_info, obj.footprint_clsname(), obj.realkind)
                for m in ('footprint_foo', 'foo', 'bar'):
                    sup = next((known[k][m] for k in cls.__mro__[1:] if m in known.get(k, ())), None)
                    if sup is not None:
                        got = getattr(obj.SUPER(), m)()
                        require(got == sup.__func__(cls), '{}: SUPER().{}() gives {}', d.name, m, got)
                        ctx.label('SUPER')
                for m in d.mattrs:
                    # the actual access mode is the expected one
                    writable = True
                    try:
                        setattr(obj, m.name, getattr(obj, m.name))
                    except AttributeError:
                        writable = False
                    except ValueError:
                        # unset attributes (None) may be outside the authorised values
                        pass
                    require(writable == (d.eff['attrs'][m.name]['access'] != 'rxx'), '{}.{}: writable is {} (access: {})',
                            d.name, m.name, writable, d.eff['attrs'][m.name]['access'])
