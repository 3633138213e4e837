"""C16: the report log, and the consistency of all of its views."""

import contextlib
import gc
import io
import re
import weakref
from xml.dom import minidom

from hypothesis import strategies as st

from .. import gens, sut
from ..core import require

ID = 'C16'
RULE = ('a report log (bounded or not, weak or not) fed with a history of 1-25 collector, class and attribute entries (possibly out of place), clears, reductions '
        'to the last entry, releases of the reported objects, with views read at any time (dictionary with or without stamps, XML, flat report '
        'reshuffled in any order, factorized report in any order, light dump, whynot); or loads through a collector with a bounded log. '
        'Non-trivial: views are read after two entries at least, and something was dropped, cleared or refused.')
BUDGET = dict(quick=6000, thorough=100000)

ATTRS = ['zeta', 'kind', 'kindness', 'alpha', 'beta']
WHY = ['Missing value', 'Invalid value', 'Not in values', 'Outcast value', 'Could not reclass', 'Not a subclass', 'My own reason']
ONLY = ['No value found', 'Do not match']
CLASSES = ['pack.one.Alpha', 'pack.one.Beta', 'pack.two.alpha', 'other.Gamma', 'other.Delta']
TAGS = ['thing', 'gizmo', 'zorglub']
VIEWS = ['forced', 'dict', 'stamped', 'xml', 'flat', 'tree', 'light', 'whynot', 'iter_last', 'fulldump']
ORDERS = [['why', 'attribute'], ['only', 'attribute'], ['attribute', 'why'], ['attribute'], ['why'], ['attribute', 'only']]


@st.composite
def _case(draw):
    if draw(st.integers(0, 9)) == 0:
        return dict(mode='collector', report=draw(st.integers(1, 3)), len=draw(st.integers(1, 4)),
                    loads=draw(st.lists(st.sampled_from(['a', 'b', 'c', 'ok']), min_size=1, max_size=8)))
    if draw(st.integers(0, 19)) == 0:
        return dict(mode='null', n=draw(st.sampled_from([0, 1, 10, 999, 1000, 1001, 2500])), clear=draw(st.booleans()))
    ops = []
    for _ in range(draw(st.integers(1, 25))):
        w = draw(st.integers(0, 19)) if ops else draw(st.sampled_from([0, 0, 0, 0, 3, 8]))
        if w < 3:
            ops.append(['collector', draw(st.sampled_from(TAGS))] if draw(st.integers(0, 3)) else ['resume', draw(st.integers(0, 4))])
        elif w < 8:
            ops.append(['candidate', draw(st.sampled_from(CLASSES))])
        elif w < 13:
            info = dict(why=draw(st.sampled_from(WHY))) if draw(st.integers(0, 3)) else dict(only=draw(st.sampled_from(ONLY)))
            if draw(st.booleans()):
                info['args'] = draw(st.sampled_from(['x', 'some text', 5, 0, False, gens.t('tuple', ['int', 'zz'])]))
            ops.append(['attribute', draw(st.sampled_from(ATTRS)), info])
        elif w == 13:
            ops.append([draw(st.sampled_from(['clear', 'reduce', 'nothing', 'release', 'reduce']))])
        else:
            v = draw(st.sampled_from(VIEWS))
            ops.append(['view', v, draw(st.sampled_from(ORDERS)), draw(st.booleans()),
                        draw(st.sampled_from(['', 'alpha', 'PACK', r'one\.', 'Gamma|Delta', 'zzz']))])
    ops.append(['view', draw(st.sampled_from(VIEWS)), draw(st.sampled_from(ORDERS)), draw(st.booleans()), ''])
    return dict(mode='log', maxlen=draw(st.sampled_from([None, None, 1, 2, 3])), weak=draw(st.booleans()), ops=ops)


def strategy(tier):
    return _case()


class Node:
    """What is put in a log."""

    def __init__(self, name):
        self.tag = name

    def fullname(self):
        return self.tag


def printed(fn, *args, **kw):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        fn(*args, **kw)
    return out.getvalue()


def parse_dump(text):
    """Nested dictionaries printed by a dump (leaves are kept as text)."""
    stack = [{}]
    for line in text.splitlines():
        line = line.strip()
        m = re.match(r'^(.*?) = dict\($', line)
        if m:
            new = {}
            require(m.group(1) not in stack[-1], 'printed twice: {}', line)
            stack[-1][m.group(1)] = new
            stack.append(new)
        elif line == 'dict(':
            stack.append({})
            stack[0].setdefault('roots', []).append(stack[-1])
        elif re.match(r'^\),?$', line):
            stack.pop()
        elif re.match(r'^(.*?) = (.*?),?$', line) and len(stack) > 1:
            k, v = re.match(r'^(.*?) = (.*?),?$', line).groups()
            if v == 'dict()':
                v = {}
            stack[-1][k] = v
        elif line == 'dict()':
            stack[0].setdefault('roots', []).append({})
    return stack[0].get('roots', [])


def parse_tree(text):
    """Rows (key = value, ..., class (args)) printed by a factorized report."""
    rows, path = [], []
    for line in text.splitlines():
        if not line.strip():
            continue
        depth = (len(line) - len(line.lstrip())) // 4 - 1
        del path[depth:]
        path.append(line.strip())
        if line.strip().startswith('class : '):
            rows.append(tuple(path))
    return rows


def check(case, ctx):
    if case['mode'] == 'collector':
        return check_collector(case, ctx)
    if case['mode'] == 'null':
        null = sut.reporting.NullReport()
        for i in range(case['n']):
            null.add(attribute='x', why=i) if i % 2 else null.add('x', why=i)
        require(len(null) <= 1000 and len(null.items()) == len(null) and (len(null) > 0) == (case['n'] > 0),
                '{:d} entries in a null report', len(null))
        if case['clear']:
            null.clear()
            require(len(null) == 0, 'cleared null report: {:d}', len(null))
        return

    log = sut.reporting.get(tag='mylog', log_maxlen=case['maxlen'], weak=case['weak'])
    other = sut.reporting.get(tag='other')
    require(sut.reporting.get(tag='mylog') is log and log.weak == case['weak'] and other is not log, 'the log is not found again')
    known = dict(sut.reporting.items())
    require(known.get('mylog') is log and known.get('other') is other and sorted(sut.reporting.keys()) == sorted(known) and
            set(sut.reporting.values()) == set(known.values()), 'known logs are {}', known)
    from ..codec import dec
    model, current, nodes = [], None, []
    touched = released = False
    for step, op in enumerate(case['ops']):
        what = 'step {:d} {}'.format(step, op)
        if op[0] == 'view':
            examine(log, model, op, what)
            ctx.label(op[1])
            ctx.nontrivial(touched and len(model) > 1 or (touched and any(len(c[1]) > 1 for c in model)))
            continue
        peek = (step + len(case['ops'])) % 3 == 0
        if peek:
            # what has been shown before does not show afterwards
            log.as_dict(stamp=False)
        touched = touched or (op[0] not in ('collector', 'candidate', 'attribute', 'resume'))
        if op[0] == 'collector':
            nodes.append(Node(op[1]))
            log.add(collector=nodes[-1])
            model.append((op[1], []))
            if case['maxlen'] and len(model) > case['maxlen']:
                del model[0]
                touched = True
                ctx.label('dropped')
            current = (model[-1], None)
        elif op[0] == 'candidate':
            if current is not None and op[1] in [c[0] for c in current[0][1]]:
                continue
            nodes.append(Node(op[1]))
            bad = refused(lambda: log.add(candidate=nodes[-1]))
            require(bad == (current is None), '{}: refused is {}', what, bad)
            if not bad:
                current[0][1].append((op[1], []))
                current = (current[0], current[0][1][-1])
            touched = touched or bad
        elif op[0] == 'attribute':
            info = {k: dec(v) for k, v in op[2].items()}
            bad = refused(lambda: log.add(attribute=op[1], **info))
            require(bad == (current is None or current[1] is None), '{}: refused is {}', what, bad)
            if not bad:
                current[1][1].append(dict(info, name=op[1]))
            touched = touched or bad
        elif op[0] == 'clear':
            log.clear()
            model, current = [], None
        elif op[0] == 'reduce':
            log.reduce_to_last()
            del model[:-1]
        elif op[0] == 'resume':
            # back to a former entry
            i = op[1] % len(log) if len(log) else 0
            entry = log.items()[i] if len(log) else None
            if entry is None:
                continue
            same = log.current(entry)
            require(same is entry is log.current(), '{}: current entry is {}', what, same)
            current = (model[i], None)
            entry = same = None
        elif op[0] == 'nothing':
            require(refused(lambda: log.add(why='x')), '{}: accepted', what)
        elif op[0] == 'release':
            released = True
            probes = [weakref.ref(n) for n in nodes]
            expected = [n.tag for n in nodes]
            del nodes[:]
            gc.collect()
            if case['weak']:
                require(not any(p() for p in probes), '{}: the log keeps the reported things alive', what)
            assert len(expected) == len(probes)
        if peek:
            examine(log, model, ['view', 'dict', None, False, ''], what)
        entry = log.current()
        name = None if current is None else current[1][0] if current[1] is not None else current[0][0]
        require((entry is None) == (name is None) and (entry is None or entry.name == name), '{}: current entry is {}', what, entry)
        require(list(log.items()) == list(log), '{}: items are {}', what, log.items())
        for entry in [x for e in log for x in [e] + list(e)]:
            node = entry.node
            require(node is not None or (case['weak'] and released), '{}: what {} is about has gone', what, entry.name)
            require(node is None or node.tag == entry.name, '{}: {} is about {}', what, entry.name, node)
            entry = node = None
        require(len(log) == len(model), '{}: {:d} entries instead of {:d}', what, len(log), len(model))
        require([e.name for e in log] == [c[0] for c in model], '{}: entries are {} instead of {}', what, [e.name for e in log], model)
        require((log.last is None) == (not model) and (not model or log.last.name == model[-1][0]), '{}: last is {}', what, log.last)


def written(node):
    """The contents of an XML element."""
    return (node.tagName, sorted(node.attributes.items()), [written(k) for k in node.childNodes if k.nodeType == k.ELEMENT_NODE])


def refused(fn):
    try:
        fn()
    except sut.reporting.FootprintBadLogEntry:
        return True
    return False


def as_dict(entry):
    """The dictionary view of a model's entry."""
    return {n: {a['name']: {k: v for k, v in a.items() if k != 'name'} for a in attrs} for n, attrs in entry[1]}


def examine(log, model, op, what):
    _, view, order, flag, select = op
    last = model[-1] if model else None
    if view == 'dict':
        exp = {'{:s}_{:04d}'.format(c[0], i + 1): as_dict(c) for i, c in enumerate(model)}
        got = log.as_dict(stamp=False)
        require(got == exp, '{}: {} instead of {}', what, got, exp)
        require(list(got) == list(exp), '{}: order is {} instead of {}', what, list(got), list(exp))
        if flag:
            # whatever is done to what has been given, a new view may be asked for
            got.clear()
            got = log.as_dict(stamp=False, force=True)
            require(got == exp, '{}: {} instead of {} when forced', what, got, exp)
    elif view == 'forced':
        # whatever is done to what has been given
        log.as_dict(stamp=flag).clear()
        exp = {'{:s}_{:04d}'.format(c[0], i + 1): as_dict(c) for i, c in enumerate(model)}
        if flag:
            for entry, n in zip(log, list(exp)):
                exp[entry.name + ' ' + entry.stamp.isoformat()] = exp.pop(n)
            require(len(log.as_dict(stamp=True, force=True)) == len(exp), '{}: {} instead of {} when forced', what, log.as_dict(force=True), exp)
        else:
            roots = parse_dump(printed(log.fulldump))
            require(len(roots) == 1 and shape(roots[0]) == shape(exp), '{}: printed {} instead of {}', what, roots, exp)
            log.as_dict(stamp=False, force=True)
    elif view == 'stamped':
        exp = {}
        for entry, c in zip(log, model):
            exp[c[0] + ' ' + entry.stamp.isoformat()] = as_dict(c)
        got = log.as_dict()
        require(got == exp, '{}: {} instead of {}', what, got, exp)
    elif view == 'fulldump':
        roots = parse_dump(printed(log.fulldump))
        exp = {'{:s}_{:04d}'.format(c[0], i + 1): as_dict(c) for i, c in enumerate(model)}
        require(len(roots) == 1 and shape(roots[0]) == shape(exp), '{}: printed {} instead of {}', what, roots, exp)
    elif view in ('xml', 'iter_last'):
        xml = log.as_xml(force=flag)
        got = [(c.getAttribute('name'), [(k.getAttribute('name'), [dict(a.attributes.items()) for a in k.childNodes])
                                         for k in c.childNodes]) for c in xml.root.childNodes]
        exp = [(c[0], [(n, [{k: str(v) for k, v in a.items()} for a in attrs]) for n, attrs in sorted(c[1], key=lambda x: x[0])])
               for c in model]
        require(got == exp, '{}: {} instead of {}', what, got, exp)
        require(all(k.tagName == 'collector' for k in xml.root.childNodes), '{}: tags', what)
        require(xml.root.getAttribute('tag') == 'mylog' and [k.getAttribute('stamp') for k in xml.root.childNodes] ==
                [e.stamp.isoformat() for e in log], '{}: attributes', what)
        whole = minidom.parseString(xml.dump_all()).documentElement
        require(written(whole) == written(xml.root), '{}: {} is printed {}', what, xml.root, xml.dump_all())
        require(printed(xml).strip() == xml.dump_all().strip(), '{}: printed {}', what, printed(xml))
        if last:
            part = minidom.parseString(xml.dump_last()).documentElement
            require(written(part) == written(xml.root.lastChild), '{}: the last entry is printed {}', what, xml.dump_last())
        doc = minidom.Document()
        mine = sut.reporting.StandardReport(doc=doc, tag='mine')
        require(mine.doc is doc and doc.documentElement is mine.root and mine.root.getAttribute('tag') == 'mine', '{}: given document', what)
        if view == 'iter_last' and last:
            got = list(xml.iter_last())
            exp = [dict(classname=n, name=a['name'], why=a.get('why', '')) for n, attrs in sorted(last[1], key=lambda x: x[0]) for a in attrs]
            require(got == exp, '{}: {} instead of {}', what, got, exp)
    elif view == 'whynot':
        got = log.whynot(select)
        if last is None:
            require(got is None, '{}: {}', what, got)
        else:
            exp = {n: v for n, v in as_dict(last).items() if v and re.search(select.lower(), n.lower())}
            require(got == exp, '{}: {} instead of {}', what, got, exp)
    elif last is None:
        pass
    elif view == 'light':
        exp = []
        for n, attrs in sorted(last[1], key=lambda x: x[0]):
            exp.append(n if attrs else '=> ' + n)
            exp.extend('{} : {}'.format(a['name'], {k: v for k, v in a.items() if k != 'name'}) for a in attrs)
        got = [' '.join(x.split()) for x in printed(log.last.lightdump).splitlines() if x.strip()]
        require(got == [' '.join(x.split()) for x in exp], '{}: {} instead of {}', what, got, exp)
    elif view == 'flat':
        flat = log.last.as_flat()
        if flag:
            # the result does not depend on former orders
            for o in ORDERS[:3]:
                flat.reshuffle(list(o), skip=False)
        for skip in (False, True):
            flat.reshuffle(list(order), skip=skip)
            got = parse_dump(printed(flat.fulldump))
            exp = {}
            for n, attrs in last[1]:
                for a in attrs:
                    info = {k: str(v) for k, v in a.items()}
                    info['attribute'] = info.pop('name')
                    path = [k for k in order if k in info]
                    missing = len(path) < len(order)
                    if missing and not skip:
                        path = []
                        for k in order:
                            if k not in info:
                                break
                            path.append(k)
                    cur = exp
                    for k in path:
                        cur = cur.setdefault('{}: {}'.format(k, info[k]), {})
                    if not missing or skip:
                        rest = sorted('{}: {}'.format(k, v) for k, v in info.items() if k not in path)
                        cur[n] = sorted(cur.get(n, []) + rest)
            got = leaves(got[0] if got else None)
            require(got == exp, '{} (skip={}): {} instead of {}', what, skip, got, exp)
    elif view == 'tree':
        exp = {}
        items = [(n, a) for n, attrs in sorted(last[1], key=lambda x: x[0]) for a in attrs]
        rows = {}
        for n, a in items:
            why = 'why' if 'why' in a else 'only'
            rows[('attribute_name = ' + a['name'], '{} = {}'.format(why, a[why]), n)] = str(a.get('args', ''))
        exp = [k[:2] + ('class : {} ({})'.format(k[2], v), ) for k, v in rows.items()]
        tree = log.last.as_tree()
        soft = parse_tree(printed(tree.softprint))
        require(sorted(soft) == sorted(exp), '{}: soft print gives {} instead of {}', what, soft, exp)
        ordered = parse_tree(printed(tree.orderedprint))
        names = []
        for n, a in items:
            if a['name'] not in names:
                names.append(a['name'])
        names.sort(key=lambda x: not x.startswith('kind'))
        ranks = WHY[:6] + ONLY + [WHY[6]]
        exp.sort(key=lambda r: (names.index(r[0][17:]), ranks.index(r[1].split(' = ')[1]), r[2]))
        require(ordered == exp, '{}: ordered print gives {} instead of {}', what, ordered, exp)
        if items:
            # entries can not be sorted according to what none of them tells
            odd = sut.reporting.FactorizedReport(ordering=((('name', ), ()), (('zorglub', ), ())))
            try:
                odd.add(**dict({k: v for k, v in items[0][1].items()}, **{'class': items[0][0]}))
            except KeyError:
                pass
            else:
                require(False, '{}: sorted despite the lack of information', what)
        for depth in (0, 1, 2, 3):
            for group in (1, 2):
                text = printed(tree.dumper, maxdepth=depth, group=group)
                if (depth, group) == (1, 1):
                    require(text == printed(tree.dumper), '{}: default dump', what)
                for n, a in items:
                    # every piece of information appears
                    require(' = ' + a['name'] in text and n in text and str(a.get('why') or a['only']) in text, '{}: nothing about {} {} in {}',
                            what, n, a, text)
                got = re.findall(r'class : (.*)', text)
                require(got == [x[2][8:] for x in exp], '{}: {} instead of {}', what, got, exp)
                # entries are separated down to the given depth
                ends = sum(len({x[:lev + 1] for x in exp}) for lev in range(min(depth, 2)) if lev % group == 0)
                got = len(re.findall(r'(?m)^\s*([-+~])\1{30,}$', text))
                require(got == ends, '{}: {} separators instead of {} at depth {} by {}: {}', what, got, ends, depth, group, text)
    else:
        raise AssertionError(view)


def leaves(tree):
    """The printed leaves, as sorted lists of items."""
    if isinstance(tree, dict):
        return {k: leaves(v) for k, v in tree.items()}
    if tree is None or tree == 'None':
        return []
    quote = tree[0]
    require(quote in '\'"' and tree[-1] == quote, 'odd leaf {!r}', tree)
    return sorted(re.split(' //? ', tree[1:-1]))


def shape(tree):
    """Keys of nested dictionaries."""
    return {k: shape(v) if isinstance(v, dict) else None for k, v in tree.items()}


def check_collector(case, ctx):
    fp = sut.footprints
    fp.setup.report = case['report']
    fp.setup.lreport_len = case['len']
    for v in ('a', 'b'):
        sut.mkclass('Cls' + v.upper(), dict(attr=dict(kind=dict(values=[v]), other=dict())))
    sut.mkclass('Ok', dict(attr=dict(kind=dict(values=['ok']))))
    coll = sut.collectors.get(tag='thing')
    n = 0
    for kind in case['loads']:
        fp.load(tag='thing', kind=kind)
        if case['report'] > 1 or kind != 'ok':
            n += 1
            exp = {'fpvworld.ClsA': {'other', 'kind'}, 'fpvworld.ClsB': {'other', 'kind'}, 'fpvworld.Ok': {'kind'}}
            got = coll.report_last.as_dict()
            require(set(got) == set(exp), 'last report is {}', got)
            # (other values of the attribute are reported only when nothing is missing)
            require((not got['fpvworld.Ok']) == (kind == 'ok') and 'other' in got['fpvworld.ClsA'], 'last report is {}', got)
        bound = n if case['report'] == 3 else min(n, case['len'])
        require(len(coll.report_log) == bound, '{:d} entries instead of {:d}', len(coll.report_log), bound)
    ctx.nontrivial(n > case['len'])
    ctx.label('collector {:d}'.format(case['report']))
