"""C21: the module functions, the proxy, the static proxies and the collectors give the same answers."""

import contextlib
import functools
import io
import json
import os
import subprocess
import sys

from hypothesis import strategies as st

from .. import gens, sut
from ..core import require

ID = 'C21'
RULE = ('2-6 classes in 1-4 collectors, and a history of 3-12 requests (load, pickup, default, grep) made through all the equivalent entry points, mixed with '
        'the definition of new classes and collectors, static proxies (fresh objects, or objects that already have something), changes of the defaults (any case), '
        'of the callback and of the settings, copies of the settings; the answers are compared to each other, and the listings to the classes actually defined; or another process, with or without '
        'FOOTPRINT_DOCSTRINGS and FOOTPRINT_SHORTNAMES. '
        'Non-trivial: a request succeeds, and another one fails or a collector appears after a static proxy was set.')
BUDGET = dict(quick=5000, thorough=80000)

TAGS = ['thing', 'gizmo', 'Tool', 'widget', 'garbage', 'late_one']
KINDS = ['a', 'b', 'c']


@st.composite
def _class(draw, i):
    return dict(name='Cls{:d}'.format(i), kind=draw(gens.subset(KINDS, 1, 2)), tags=draw(gens.subset(TAGS[:5], 1, 2)),
                num=draw(st.sampled_from([None, 'opt', 'man', 'def'])), level=draw(st.sampled_from(['default', 'default', 'toolbox', 'none'])),
                text=draw(st.sampled_from([None, 'no', '[kind]_[ext]'])))


@st.composite
def _case(draw):
    if draw(st.integers(0, 99)) == 57:
        return dict(mode='process', docstrings=draw(st.sampled_from([None, '0', '1', '2'])), shortnames=draw(st.sampled_from([None, '0', '1'])))
    ops = []
    n = 0
    for _ in range(draw(st.integers(1, 3))):
        ops.append(['class', draw(_class(n))])
        n += 1
    for _ in range(draw(st.integers(3, 12))):
        w = draw(st.integers(0, 19))
        if w < 9:
            desc = {}
            target = draw(st.sampled_from([x[1] for x in ops if x[0] == 'class']))
            good = draw(st.integers(0, 2)) > 0
            if good or draw(st.integers(0, 9)):
                desc['kind'] = draw(st.sampled_from(target['kind'] if good else KINDS + ['zzz']))
            if good and target['num'] == 'man':
                desc['num'] = draw(st.sampled_from([1, '2']))
            elif draw(st.booleans()):
                desc['num'] = draw(st.sampled_from([1, '2', 'x']))
            if draw(st.integers(0, 3)) == 0:
                desc['text'] = draw(st.sampled_from(['t', '[kind]']))
            if draw(st.integers(0, 3)) == 0:
                desc['unused'] = 5
            ops.append(['ask', draw(st.sampled_from(target['tags'] if good else TAGS)), sorted(desc.items()), draw(st.booleans()), draw(st.booleans())])
        elif w < 12:
            ops.append(['class', draw(_class(n))])
            n += 1
        elif w < 14:
            ops.append(['proxy', draw(st.booleans()), draw(gens.subset(TAGS, 0, 2)), draw(st.booleans())])
        elif w < 16:
            ops.append(['defaults', [[k, draw(st.sampled_from(KINDS + [1, 'x']))] for k in draw(gens.subset(['kind', 'KIND', 'Num', 'text', 'ext', 'EXT'], 0, 2))],
                        draw(st.booleans())])
        elif w == 16:
            ops.append(['callback', draw(st.sampled_from([None, [], [['ext', 'cb']], [['ext', 'cb'], ['kind', 'a']]]))])
        elif w == 17:
            ops.append(['setting', draw(st.sampled_from(['report', 'extended', 'fastmode', 'lreport_len', 'report_style'])), draw(st.integers(0, 3))])
        elif w == 18:
            ops.append(['collector', draw(st.sampled_from(TAGS))])
        else:
            ops.append(['setup_copy', draw(st.integers(0, 3))])
    return dict(ops=ops)


def strategy(tier):
    return _case()


def define(c):
    attr = dict(kind=dict(values=list(c['kind'])))
    if c['num']:
        attr['num'] = dict(type=int)
        if c['num'] != 'man':
            attr['num'].update(optional=True, **(dict(default=4) if c['num'] == 'def' else {}))
    if c['text']:
        attr['text'] = dict(optional=True, default=c['text'])
    return sut.mkclass(c['name'], dict(info='something', attr=attr, priority=dict(level=getattr(sut.priorities.top, c['level'].upper()))),
                       collector=c['tags'])


class Holder:
    """A static proxy."""


def attempt(fn):
    try:
        return fn()
    except sut.FootprintException as exc:
        return type(exc)


def sig(obj):
    if obj is None or isinstance(obj, type):
        return obj
    return (type(obj), obj.footprint_as_shallow_dict())


PROCESS = '''
import json, sys
import footprints
from footprints import config
s = footprints.setup
class A(footprints.FootprintBase):
    _footprint = dict(info='Text', attr=dict(kind=dict(values=['a']), size=dict(type=int, optional=True, default=3, info='A size')))
    _collector = ('thing', )
    def footprint_twice(self):
        return 2 * self.size
o = footprints.proxy.thing(kind='a')
print(json.dumps(dict(setup={k: v for k, v in s.as_dict().items() if isinstance(v, (int, str, bool, tuple, type(None)))},
                      defaults=dict(s.defaults), proxies=len(s.proxies), extras=s.extras(), same=config.get() is s,
                      doc=A.__doc__, level=A.footprint_level(), short=hasattr(A, 'twice'), clone=hasattr(o, 'clone'), twice=o.footprint_twice(), attrs=o.footprint_as_dict(), collectors=sorted(footprints.collectors.keys()))))
'''


@functools.lru_cache(None)
def process(docstrings, shortnames):
    """What another process, where these variables are set, tells."""
    env = {k: v for k, v in os.environ.items() if not k.startswith('FOOTPRINT_')}
    env.update((k, v) for k, v in (('FOOTPRINT_DOCSTRINGS', docstrings), ('FOOTPRINT_SHORTNAMES', shortnames)) if v is not None)
    src = os.path.dirname(os.path.dirname(sut.footprints.__file__))
    env.update(PYTHONPATH=src, PYTHONDONTWRITEBYTECODE='1')
    r = subprocess.run([sys.executable, '-c', PROCESS], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=120)
    require(r.returncode == 0, 'with {} and {}: {}', docstrings, shortnames, r.stderr[-500:])
    return r.stdout


def check_process(case, ctx):
    got = json.loads(process(case['docstrings'], case['shortnames']).strip().split('\n')[-1])
    level, short = int(case['docstrings'] or 0), bool(int(case['shortnames'] or 0))
    exp = dict({k: list(v) if isinstance(v, tuple) else v for k, v in FRESH.items() if k != 'proxies'}, docstrings=level, shortnames=short)
    require({k: got['setup'].get(k) for k in exp} == exp, 'settings are {} instead of {}', got['setup'], exp)
    require(got['same'] and not got['defaults'] and not got['proxies'] and not got['extras'], 'settings are {}', got)
    require(('Automatic parameters' in (got['doc'] or '')) == (level == 2) and ('Footprint::' in (got['doc'] or '')) == (level == 1),
            'documentation is {!r} at level {:d}', got['doc'], level)
    require(got['short'] == got['clone'] == short and got['twice'] == 6, 'short names: {}', got)
    require(got['level'] == 'DEFAULT' and got['attrs'] == dict(kind='a', size=3) and {'garbage', 'thing'} <= set(got['collectors']), 'got {}', got)
    ctx.label('process')
    ctx.nontrivial(level or short)


def check(case, ctx):
    if case.get('mode') == 'process':
        return check_process(case, ctx)
    fp = sut.footprints
    coll = fp.collectors
    classes, holders = {}, []
    tags = {'garbage'}
    born = {}
    alive = []
    stats = set()
    copies = 0
    for step, op in enumerate(case['ops']):
        what = 'step {:d} {}'.format(step, op)
        if op[0] == 'class':
            classes[define(op[1])] = [x.lower() for x in op[1]['tags']]
            for x in op[1]['tags']:
                born.setdefault(x.lower(), now(fp))
            new = {x.lower() for x in op[1]['tags']} - tags
            tags |= new
            if new and holders:
                stats.add('late')
        elif op[0] == 'collector':
            c = coll.get(tag=op[1])
            born.setdefault(op[1].lower(), BARE)
            if op[1].lower() not in tags and holders:
                stats.add('late')
            tags.add(op[1].lower())
            require(c.tag == op[1].lower() and c is coll.get(tag=op[1] + 's') and c is coll.get(tag=op[1].upper()), '{}: got {}', what, c)
        elif op[0] == 'proxy':
            h = Holder()
            had = {}
            if op[3] or op[1]:
                for i, name in enumerate(op[2]):
                    if i % 3 < 2:
                        setattr(h, name.lower(), 'mine')
                        had[name.lower()] = 'mine'
                    if op[3] and (i + len(op[2])) % 2:
                        setattr(h, name.lower() + 's', 'mine too')
                        had[name.lower() + 's'] = 'mine too'
                had = {k: v for k, v in had.items() if k.rstrip('s') in tags and not op[1]}
            fp.setup.add_proxy(h, clear=op[1])
            holders.append((h, had))
        elif op[0] == 'defaults':
            if op[2]:
                fp.setup.defaults = dict(map(tuple, op[1]))
            else:
                fp.setup.defaults.update(dict(map(tuple, op[1])))
            for k, v in dict(map(tuple, op[1])).items():
                others = [b for a, b in op[1] if a.lower() == k.lower()]
                require(k in fp.setup.defaults and fp.setup.defaults[k.upper()] in others and fp.setup.defaults[k.lower()] in others, '{}: defaults are {}', what, fp.setup.defaults)
        elif op[0] == 'callback':
            content = None if op[1] is None else dict(map(tuple, op[1]))
            fp.setup.callback = None if op[1] is None else (lambda: dict(content))
            require(fp.setup.extras() == (content or {}), '{}: extras are {}', what, fp.setup.extras())
            if content is not None:
                # the callback is asked each time
                content['later'] = 1
                require(fp.setup.extras() == content, '{}: extras are {} instead of {}', what, fp.setup.extras(), content)
                del content['later']
                require(fp.setup.extras() == content, '{}: extras are {} instead of {}', what, fp.setup.extras(), content)
        elif op[0] == 'setting':
            setattr(fp.setup, op[1], {'extended': bool(op[2] % 2), 'fastmode': bool(op[2] % 2), 'lreport_len': op[2] + 1}.get(op[1], op[2]))
            text = io.StringIO()
            with contextlib.redirect_stdout(text):
                require(fp.setup() is fp.setup, '{}: another setup', what)
            lines = dict(x.split(':', 1) for x in text.getvalue().split('\n') if ' : ' in x)
            shown = {k.strip(): v.strip() for k, v in lines.items()}
            for k in ('report', 'extended', 'fastmode', 'lreport_len', 'report_style', 'fastkeys', 'fatal', 'shortnames'):
                require(shown.get(k) == str(getattr(fp.setup, k)), '{}: {} is shown as {}', what, k, shown.get(k))
        elif op[0] == 'setup_copy':
            copies += 1
            settings(fp, 'copy{:d}'.format(copies), op[1], what)
        elif op[0] == 'ask':
            ask(fp, born, op, tags, holders, alive, what, stats)
            tags |= {op[1].lower()}
        listings(fp, classes, tags, holders, what)
        for t, exp in born.items():
            c = coll.get(tag=t)
            require(t == 'garbage' or (c.report, c.lreport_len, c.report_style) == exp, '{}: settings of {} are {} instead of {}', what, t,
                    (c.report, c.lreport_len, c.report_style), exp)
            require(c.report == 3 or len(c.report_log) <= c.lreport_len, '{}: {:d} entries in the log of {} (limited to {:d})', what,
                    len(c.report_log), t, c.lreport_len)
    ctx.label(*stats)
    ctx.nontrivial('found' in stats and len(stats) > 1)


#: settings of a collector that is created on its own
BARE = (1, 100, 0)


def now(fp):
    return (fp.setup.report, fp.setup.lreport_len, fp.setup.report_style)


def ask(fp, born, op, tags, holders, alive, what, stats):
    tag, desc = op[1], dict(map(tuple, op[2]))
    if tag.lower() not in tags:
        require(getattr(fp.proxy, tag.lower()) is None and getattr(fp.proxy, tag.lower() + 's') is None and fp.proxy.getitem(tag) is None and
                fp.proxy.getitem(tag, 3) == 3, '{}: unknown collector', what)
    if tag.lower() not in tags:
        # a new collector takes the settings of the moment (or the general defaults)
        first = [lambda: fp.load(tag=tag, **desc), lambda: fp.pickup(dict(desc, tag=tag)), lambda: fp.default(tag=tag, **desc), lambda: fp.collectors.get(tag=tag)]
        way = (len(desc) + len(what)) % 4
        attempt(first[way])
        born[tag.lower()] = now(fp) if way < 3 else BARE
    col = fp.collectors.get(tag=tag)
    low = col.tag
    loads = [lambda: fp.load(tag=tag, **desc), lambda: col.load(**desc), lambda: getattr(fp.proxy, low)(**desc),
             lambda: getattr(fp.proxy, low + 's').load(**desc), lambda: fp.proxy.getitem(low).load(**desc), lambda: fp.proxy.getitem(low + 's').load(**desc),
             lambda: fp.pickup(dict(desc, tag=tag))[low], lambda: col.pickup(dict(desc))[low], lambda: fp.load(tag=tag + 's', **desc)]
    for h, had in holders:
        if low not in had:
            loads.append(lambda h=h: getattr(h, low)(**desc))
        if low + 's' not in had:
            loads.append(lambda h=h: getattr(h, low + 's').load(**desc))
    if low == 'garbage':
        loads.append(lambda: fp.load(**desc))
        loads.append(lambda: fp.pickup(dict(desc))[low])
    objs = [attempt(fn) for fn in loads]
    for i, o in enumerate(objs):
        require(sig(o) == sig(objs[0]), '{}: entry point {:d} gives {} instead of {}', what, i, sig(o), sig(objs[0]))
        require(o is None or isinstance(o, type) or all(o is not x for x in objs[:i]), '{}: the same object is given twice', what)
    stats.add('none' if objs[0] is None else 'raised' if isinstance(objs[0], type) else 'found')
    # what is left of the description
    picked = [attempt(lambda: fp.pickup(dict(desc, tag=tag))), attempt(lambda: col.pickup(dict(desc)))]
    keys = [x if isinstance(x, type) else sorted((k, v if k != low else type(v)) for k, v in x.items()) for x in picked]
    require(repr(keys[0]) == repr(keys[1]), '{}: pickup gives {} and {}', what, picked[0], picked[1])
    found = objs[0] if isinstance(objs[0], sut.FootprintBase) else None
    del objs, picked
    if found is None:
        return
    if op[4]:
        alive.append(found)
    # living objects
    got = [fp.grep(**{'kind': found.kind}), [o for c in fp.collectors.values() for o in c.grep(kind=found.kind)]]
    require(sorted(map(id, got[0])) == sorted(map(id, got[1])) and any(o is found for o in got[0]), '{}: grep gives {} and {}', what, got[0], got[1])
    require({id(o) for o in getattr(fp.proxy, low + 's').grep(kind=found.kind)} == {id(o) for o in col.grep(kind=found.kind)}, '{}: grep of the proxy', what)
    require(any(o is found for o in fp.proxy.objectsmap()[low + 's']) and any(o is found for o in col.instances()), '{}: the object is not listed', what)
    # default gives the same kind of things
    short = [lambda: fp.default(**desc)] if low == 'garbage' else []
    dflts = [attempt(fn) for fn in short] + [attempt(lambda: fp.default(tag=tag, **desc)), attempt(lambda: col.default(**desc)), attempt(lambda: getattr(fp.proxy, low + 's').default(**desc))]
    require(all(sig(o) == sig(dflts[0]) for o in dflts), '{}: default gives {}', what, [sig(o) for o in dflts])


#: documented values of new settings
FRESH = dict(extended=True, fastmode=False, fatal=True, shortnames=False, fastkeys=('kind', ), callback=None, proxies=set(), report=1,
             lreport_len=100, report_style=0)


def settings(fp, tag, value, what):
    """A copy of the settings has the same content, and is independent."""
    ref = fp.setup.as_dict()
    ref_defaults, ref_proxies = dict(fp.setup.defaults), set(fp.setup.proxies)
    with contextlib.redirect_stdout(io.StringIO()):
        require(fp.setup() is fp.setup, '{}: the setup is not itself', what)
        new = fp.setup(tag='fpv_' + tag, new=True, report=value)
        other = fp.setup(tag='fpv_other_' + tag, new=True, report=value, callback=None, defaults=None, proxies=None)
    require(other.callback is None and other.extras() == {} and not other.defaults and other.proxies == set() and other.report == value and
            fp.setup.as_dict() == ref, '{}: the settings given explicitly as None are {}', what, other.as_dict())
    require(new is not fp.setup and fp.config.get(tag='fpv_' + tag) is new and fp.config.get() is fp.setup and 'fpv_' + tag in fp.config.keys(), '{}: copy is {}', what, new)
    got = new.as_dict()
    for k in ref:
        if k not in ('tag', 'report'):
            require(got[k] == ref[k], '{}: copied {} is {} instead of {}', what, k, got[k], ref[k])
    require(new.report == value and fp.setup.report == ref['report'], '{}: report is {}', what, new.report)
    fresh = fp.config.get(tag='fpv_new_' + tag)
    got = fresh.as_dict()
    require({k: got[k] for k in FRESH} == FRESH and not fresh.defaults and not fresh.extras(), '{}: new settings are {}', what, got)
    new.defaults.update(NEWKEY=1)
    new.add_proxy(Holder())
    new.fastmode = not new.fastmode
    require('newkey' in new.defaults and dict(fp.setup.defaults) == ref_defaults and set(fp.setup.proxies) == ref_proxies and
            fp.setup.fastmode == ref['fastmode'], '{}: the copy is not independent', what)


def listings(fp, classes, tags, holders, what):
    byname = {c.tag: c for c in fp.collectors.values()}
    require(set(byname) == tags and set(fp.collectors.keys()) == tags, '{}: collectors are {} instead of {}', what, sorted(byname), sorted(tags))
    require(dict(fp.collectors.items()) == byname and {id(c) for c in fp.proxy} == {id(c) for c in byname.values()}, '{}: collectors are {}', what, fp.collectors.items())
    for t, c in byname.items():
        expected = {k for k, v in classes.items() if t in v}
        got = {x for x in c if x in classes}
        require(got == expected and all(x in c for x in expected), '{}: {} contains {} instead of {}', what, t, got, expected)
        require(fp.proxy.exists(t) and fp.proxy.exists(t + 's') and t in fp.proxy and t + 's' in fp.proxy, '{}: {} does not exist', what, t)
        require(getattr(fp.proxy, t + 's') is c and fp.proxy.getitem(t) is c and fp.proxy.getitem(t + 's', 5) is c, '{}: {} of the proxy', what, t)
        require(getattr(fp.proxy, t).__self__ is c, '{}: load of {}', what, t)
        for h, had in holders:
            for name in (t, t + 's'):
                val = getattr(h, name, 'nothing')
                if name in had:
                    require(val == had[name], '{}: {} was replaced by {}', what, name, val)
                elif name.endswith('s'):
                    require(val is c, '{}: static {} is {}', what, name, val)
                else:
                    require(getattr(val, '__self__', None) is c, '{}: static {} is {}', what, name, val)
    require({x for x in fp.collected_classes() if x in classes} == set(classes), '{}: collected classes are {}', what, fp.collected_classes())
    require(not fp.proxy.exists('nowhere') and 'nowheres' not in fp.proxy and fp.proxy.nowhere is None and fp.proxy.nowheres is None, '{}: nowhere', what)
    P = sut.proxies
    require(fp.proxy is P.get() and list(P.values()) == [fp.proxy] and list(P.keys()) == [fp.proxy.tag] and list(P.items()) == [(fp.proxy.tag, fp.proxy)],
            '{}: proxies are {} {} {}', what, list(P.keys()), list(P.values()), list(P.items()))
    cat = fp.proxy.catlist()
    require([(n, k) for n, k, _ in cat] == [(len(byname[t]), t + 's') for t in sorted(byname)] and all(c is byname[k[:-1]] for _, k, c in cat), '{}: catlist is {}', what, cat)
    omap = fp.proxy.objectsmap()
    require(set(omap) == {t + 's' for t in byname}, '{}: objectsmap is {}', what, omap)
    for k, v in omap.items():
        require({id(o) for o in v} == {id(o) for o in byname[k[:-1]].instances()}, '{}: objects of {} are {}', what, k, v)
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        fp.proxy.cat()
        fp.proxy()
        fp.proxy.objects()
    lines = out.getvalue().splitlines()
    first = [x for x in lines if any(x.split()[1:2] == [t + 's'] for t in byname)]
    require(len(first) == 3 * len(byname), '{}: printed {}', what, lines)
    require([x.split()[:2] for x in first[:len(byname)]] == [[str(n), k] for n, k, _ in cat], '{}: printed {}', what, lines)
