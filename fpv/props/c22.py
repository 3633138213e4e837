"""C22: administration of the classes known by the collectors (filters, discards, levels, maps of attributes)."""

import contextlib
import io
import re

from hypothesis import strategies as st

from .. import gens, sut
from ..core import require

ID = 'C22'
RULE = ('3-9 classes from several packages (inheritance, levels, flags, values of any type) in two collectors, and a history of 2-12 filters, discards, additions, changes '
        'of the levels by package (one collector or all of them) or of the order of the levels, fast tracks, new classes; after each step the contents, the levels, the attribute '
        'maps, the printed tables and the classes actually selected are compared to a model. Non-trivial: at least two effective changes, and an object is found after them.')
BUDGET = dict(quick=4000, thorough=60000)

PACKS = ['pack.one', 'pack.two', 'packtwo', 'other', 'other.pack']
PREFIX = ['pack', 'pack.', 'pack.one', 'pack.one.Cls0', 'other', 'other.pack', 'nothing', '', 'ack']
LEVELS = ['none', 'default', 'toolbox', 'debug']
TAGS = ['thing', 'gizmo']
KINDS = ['a', 'b', 'c']
FLAGS = ['is_old', 'is_good']


@st.composite
def _class(draw, i):
    c = dict(name='Cls{:d}'.format(i), pack=draw(st.sampled_from(PACKS)), tags=draw(gens.subset(TAGS, 1, 2)),
             kind=draw(gens.subset(KINDS, 1, 3)), level=draw(st.sampled_from(LEVELS + [None, None])), flags={})
    for f in FLAGS:
        v = draw(st.sampled_from([None, True, False, 5, 'null', 0]))
        if v is not None:
            c['flags'][f] = v
    c['extra'] = draw(st.sampled_from([None, None, 'opt', 'man']))
    if c['extra']:
        c['num'] = draw(st.sampled_from(['int', 'str', 'int']))
        c['values'] = draw(gens.subset([1, 2, 3], 0, 2)) if draw(st.integers(0, 4)) else draw(gens.subset([1, 2, 3] + list(range(6, 18)), 6, 12))
        c['outcast'] = draw(gens.subset([4, 5], 0, 1))
    if i and draw(st.integers(0, 3)) == 0:
        c['base'] = draw(st.integers(0, i - 1))
    return c


@st.composite
def _case(draw):
    n = draw(st.integers(2, 6))
    ops = [['class', draw(_class(i))] for i in range(n)]
    for _ in range(draw(st.integers(2, 12))):
        w = draw(st.integers(0, 19))
        tag = draw(st.sampled_from(TAGS))
        level = draw(st.sampled_from(LEVELS))
        if w < 3:
            ops.append(['package', tag, draw(st.sampled_from(PREFIX)), draw(st.booleans()), draw(st.booleans())])
        elif w < 5:
            ops.append(['onflag', tag, draw(st.sampled_from(FLAGS + ['nothing'])), draw(st.sampled_from([None, True, False, 5, 'null', 0])), draw(st.booleans())])
        elif w < 8:
            ops.append([draw(st.sampled_from(['higher', 'lower'])), tag, level, draw(st.booleans()), draw(st.booleans())])
        elif w < 11:
            ops.append(['reset', draw(st.sampled_from([tag, 'all', 'all'])), draw(st.sampled_from(PREFIX)), level])
        elif w == 11:
            ops.append(['rerank', level, draw(st.sampled_from([-2, -1, 1, 2]))])
        elif w < 15:
            ops.append([draw(st.sampled_from(['add', 'discard', 'add'])), tag, draw(st.integers(0, 8))])
        elif w == 15:
            ops.append([draw(st.sampled_from(['pop', 'clear'])), tag])
        elif w == 16:
            ops.append(['fasttrack', tag, draw(gens.subset(['kind', 'extra'], 0, 2))])
        elif w == 17:
            ops.append(['class', draw(_class(n))])
            n += 1
        else:
            ops.append(['table', level])
    asks = [[draw(st.sampled_from(KINDS)), draw(st.sampled_from([None, 1, 2, 4]))] for _ in range(2)]
    return dict(ops=ops, asks=asks)


def strategy(tier):
    return _case()


class Model:
    def __init__(self):
        self.classes = []           # (class, definition)
        self.content = {t: set() for t in TAGS}
        self.level = {}
        self.attrs = {}
        self.flags = {}
        self.order = list(LEVELS)

    def rank(self, cls):
        return self.order.index(self.level[cls])


def name_of(cls):
    return '{}.{}'.format(cls.__module__, cls.__name__)


def define(model, c):
    fpd = dict(info='x', attr=dict(kind=dict(values=list(c['kind']))))
    attrs = dict(kind=dict(values=set(c['kind']), outcast=set(), optional=False))
    bases = None
    level = 'default'
    flags = {}
    if 'base' in c and c['base'] < len(model.classes):
        base = model.classes[c['base']]
        bases = (base, )
        attrs = {k: dict(v) for k, v in model.attrs[base].items()}
        # (the authorised values are redefined)
        attrs['kind'] = dict(values=set(c['kind']), outcast=set(), optional=False)
        level = model.level[base]
        flags = dict(model.flags[base])
    if c['level']:
        fpd['priority'] = dict(level=sut.priorities.top.level(c['level']))
        level = c['level']
    if c['extra'] and 'extra' not in attrs:
        typ = dict(int=int, str=str)[c['num']]
        fpd['attr']['extra'] = dict(type=typ, optional=c['extra'] == 'opt', values=[typ(x) for x in c['values']], outcast=[typ(x) for x in c['outcast']])
        attrs['extra'] = dict(values={typ(x) for x in c['values']}, outcast={typ(x) for x in c['outcast']}, optional=c['extra'] == 'opt', type=typ)
    ns = {}
    for f, v in c['flags'].items():
        v = None if v == 'null' else v
        ns[f] = classmethod(lambda cls, v=v: v)
        flags[f] = v
    cls = sut.mkclass(c['name'], fpd, bases=bases, collector=c['tags'], module=c['pack'], **ns)
    model.classes.append(cls)
    model.level[cls], model.attrs[cls], model.flags[cls] = level, attrs, flags
    for t in c['tags']:
        model.content[t].add(cls)


def printed(fn, *args, **kw):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        res = fn(*args, **kw)
    return res, out.getvalue().splitlines()


def check(case, ctx):
    fp, top = sut.footprints, sut.priorities.top
    model = Model()
    cols = {t: fp.collectors.get(tag=t) for t in TAGS}
    changes, found = 0, 0
    for step, op in enumerate(case['ops']):
        what = 'step {:d} {}'.format(step, op)
        before = ({t: set(v) for t, v in model.content.items()}, dict(model.level), list(model.order))
        if op[0] == 'class':
            define(model, op[1])
        elif op[0] in ('package', 'onflag', 'higher', 'lower'):
            col, content = cols[op[1]], model.content[op[1]]
            args, kw = (op[2], ), {}
            if op[0] == 'package':
                expected = {c for c in content if name_of(c).startswith(op[2])}
            elif op[0] == 'onflag':
                flag = True if op[3] is None else None if op[3] == 'null' else op[3]
                if op[3] is not None:
                    kw = dict(default=flag)
                expected = {c for c in content if op[2] in model.flags[c] and model.flags[c][op[2]] == flag}
            else:
                ref = model.order.index(op[2])
                expected = {c for c in content if (model.rank(c) >= ref) == (op[0] == 'higher')}
                if op[4]:
                    args = (top.level(op[2]), )
            name = op[0] + ('_level' if op[0] in ('higher', 'lower') else '')
            got = getattr(col, 'filter_' + name)(*args, **kw)
            require(len(got) == len(expected) and set(got) == expected, '{}: filter gives {} instead of {}', what, got, expected)
            if op[-1] if op[0] in ('package', 'onflag') else op[3]:
                verbose = bool((len(content) + step) % 2)
                _, lines = printed(getattr(col, 'discard_' + name), *args, **(kw if verbose else dict(kw, verbose=False)))
                exp = sorted(name_of(c) for c in expected) if verbose else []
                got = sorted(m for line in lines for m in re.findall(r'[\w.]+\.Cls\d+', line))
                require(len(lines) == len(exp) and got == exp, '{}: printed {} instead of {}', what, lines, exp)
                content -= expected
        elif op[0] == 'reset':
            if op[1] == 'all':
                fp.reset_package_priority(op[2], op[3])
                targets = set().union(*model.content.values())
            else:
                cols[op[1]].reset_package_level(op[2], op[3])
                targets = model.content[op[1]]
            for c in targets:
                if name_of(c).startswith(op[2]):
                    model.level[c] = op[3].upper().lower()
        elif op[0] == 'rerank':
            top.rerank(op[1], op[2])
            pos = model.order.index(op[1])
            model.order.pop(pos)
            model.order.insert(max(0, pos + op[2]), op[1])
        elif op[0] in ('add', 'discard'):
            c = model.classes[op[2] % len(model.classes)]
            getattr(cols[op[1]], op[0])(c)
            getattr(model.content[op[1]], op[0])(c)
        elif op[0] == 'pop':
            try:
                c = cols[op[1]].pop()
            except KeyError:
                require(not model.content[op[1]], '{}: nothing to pop', what)
            else:
                require(c in model.content[op[1]], '{}: popped {}', what, c)
                model.content[op[1]].discard(c)
        elif op[0] == 'clear':
            cols[op[1]].clear()
            model.content[op[1]].clear()
        elif op[0] == 'fasttrack':
            cols[op[1]].fasttrack = op[2]
        elif op[0] == 'table':
            _, lines = printed(fp.collected_priorities, op[1])
            ref = model.order.index(op[1])
            allc = {c for c in set().union(*model.content.values()) if model.rank(c) >= ref}
            exp = sorted((name_of(c), model.level[c].upper()) for c in allc)
            require([x.split() for x in lines] == [[lev, '-', n] for n, lev in exp], '{}: printed {} instead of {}', what, lines, exp)
        if before != (model.content, model.level, model.order) and op[0] != 'class':
            changes += 1
            ctx.label(op[0])
        found += state(case, fp, cols, model, what, changes >= 2)
    ctx.nontrivial(changes >= 2 and found)


def state(case, fp, cols, model, what, late):
    found = 0
    for c in model.classes:
        require(c.footprint_level() == model.level[c].upper() and c.footprint_pl().tag == model.level[c].upper() and
                c.footprint_pl().rank == model.rank(c), '{}: level of {} is {} instead of {}', what, c, c.footprint_level(), model.level[c])
        require(c.fullname() == name_of(c), '{}: name of {} is {}', what, c, c.fullname())
    require({c for c in fp.collected_classes() if c in model.level} == set().union(*model.content.values()), '{}: collected classes are {}', what, fp.collected_classes())
    for t, col in cols.items():
        content = model.content[t]
        require(set(col) == content and len(col) == len(content) and set(col.items()) == content, '{}: {} contains {} instead of {}', what, t, set(col), content)
        for c in model.classes:
            require((c in col) == (c in content), '{}: {} in {} is {}', what, c, t, c in col)
        attributes(col, content, model, what)
        for kind, extra in case['asks']:
            desc = dict(kind=kind)
            if extra is not None:
                desc['extra'] = extra
            cands = {c: key for c in content for key in [suits(model, c, desc)] if key is not None}
            obj = col.load(**desc)
            require((obj is None) == (not cands), '{}: {} from {} gives {} (candidates: {})', what, desc, t, obj, cands)
            if cands:
                best = max(cands.values())
                require(type(obj) in cands and cands[type(obj)] == best, '{}: {} from {} gives a {} instead of the best of {}', what, desc, t, type(obj), cands)
                found += late
            require({x[0] for x in col.find_all(dict(desc))} == set(cands), '{}: all the candidates for {} in {} are {} instead of {}', what, desc, t,
                    col.find_all(dict(desc)), cands)
    return found


def suits(model, c, desc):
    attrs = model.attrs[c]
    if desc['kind'] not in attrs['kind']['values']:
        return None
    n = 1
    if 'extra' in attrs:
        a = attrs['extra']
        if 'extra' in desc:
            v = a['type'](desc['extra'])
            if (a['values'] and v not in a['values']) or v in a['outcast']:
                return None
            n += 1
        elif not a['optional']:
            return None
    return (model.rank(c), n)


def attributes(col, content, model, what):
    for only in (None, 'kind', 'kind_extra', ('extra', ), ['extra', 'kind'], [], ''):
        amap = col.build_attrmap(only=only)
        exp = {}
        for c in content:
            for k, a in model.attrs[c].items():
                if only is None or k in (only if not isinstance(only, str) else [only]):
                    exp.setdefault(k + (' [optional]' if a['optional'] else ''), []).append(
                        (c.__module__, c.__name__, repr(sorted(a['values'])), repr(sorted(a['outcast']))))
        got = {k: sorted((i['module'], i['name'], repr(sorted(i['values'])), repr(sorted(i['outcast']))) for i in v) for k, v in amap.items()}
        require(got == {k: sorted(v) for k, v in exp.items()}, '{}: attributes of {} (only={}) are {} instead of {}', what, col.tag, only, got, exp)
        _, lines = printed(col.show_attrkeys, only=only)
        require(sorted(x.split()[1:] for x in lines) == sorted(k.split() for k in exp), '{}: printed keys {} instead of {}', what, lines, sorted(exp))
        _, lines = printed(col.show_attrmap, only=only)
        heads = [x.strip() for x in lines if x.startswith(' * ')]
        require(heads == ['* ' + k + ':' for k in sorted(exp)], '{}: printed attributes {} instead of {}', what, heads, sorted(exp))
        rows = [x.split() for x in lines if ' + ' in x]
        require(sorted((r[2], r[0]) for r in rows) == sorted((i[0], i[1]) for v in exp.values() for i in v), '{}: printed classes {}', what, rows)
        got, attr, row = [], None, None
        for x in lines:
            if x.startswith(' * '):
                attr = x.strip()[2:-1]
            elif ' + ' in x:
                row = x.split()
            elif x.strip():
                key, _, vals = x.strip().lstrip('| ').partition(' = ')
                got.append((attr, row[2], row[0], key, sorted(vals.split(', '))))
        info = [(k, c.__module__, c.__name__, key, sorted(str(x) for x in a[key])) for c in content for k, a in model.attrs[c].items()
                for key in ('values', 'outcast') if a[key]]
        info = [(k + (' [optional]' if k + ' [optional]' in exp and (m, n) in {i[:2] for i in exp[k + ' [optional]']} else ''), m, n, key, v)
                for k, m, n, key, v in info if only is None or k in (only if not isinstance(only, str) else [only])]
        require(sorted(got) == sorted(info), '{}: printed details {} instead of {}', what, got, info)
    for k in ('kind', 'extra', 'nothing'):
        exp = [v for c in content if k in model.attrs[c] for v in model.attrs[c][k]['values']]
        got = col.get_values(k)
        require(len(got) == len(set(exp)) and set(got) == set(exp), '{}: values of {} in {} are {} instead of {}', what, k, col.tag, got, exp)
        if len({type(x) for x in exp}) < 2:
            require(list(got) == sorted(set(exp)), '{}: values of {} are not sorted: {}', what, k, got)
