"""C14: what the reports say about the classes that were not selected."""

import contextlib
import io
import itertools
import re

from hypothesis import strategies as st

from .. import codec, gens, model, sut
from ..core import Violation, require
from ..oracle import Definition, outcome_of

ID = 'C14'
RULE = ('1-4 classes of a collector (attributes of any type with values, outcast, remap, aliases, defaults, only clauses; some fast keys, fast mode), '
        'and a history of 1-4 loads of generated descriptions at a given report level; after each of them the report is compared, class by class, '
        'to the reasons recomputed by the model. Non-trivial: at least two classes fail, or a class fails for several reasons.')
BUDGET = dict(quick=5000, thorough=80000)

NAMES = ['kind', 'alpha', 'beta', 'gamma']
ONLY = ['alpha', 'after_num', 'before_num', 'num', 'level', 'nowhere']


@st.composite
def _case(draw):
    classes, pools = [], {}
    for i in range(draw(st.integers(1, 4))):
        attrs = []
        for n in draw(gens.subset(NAMES, 1, 3)):
            a, pool = draw(gens.typed_attr(n, with_alias=False, kinds=['str', 'int', 'int16', 'float', 'bool', 'FPList', 'Geo', 'Even', 'Picky']))
            if any(k == 'None' for k, _ in a.get('remap', ())):
                del a['remap']
            if draw(st.integers(0, 3)) == 0:
                a['alias'] = ['al_' + n]
            attrs.append(a)
            pools.setdefault(n, []).extend(pool)
        if draw(st.booleans()):
            attrs.append(dict(name='num', type='int', optional=draw(st.booleans())))
        only = []
        for k in draw(gens.subset(ONLY, 0, 2)):
            pool = ['a', 'b', 'foo', 1] if k == 'alpha' else [1, 2, 3]
            only.append([k, draw(st.sampled_from(pool)) if draw(st.booleans()) else
                         gens.t('tuple', draw(gens.subset(pool, 1, 2)))])
        c = dict(name=draw(st.sampled_from(['Cls', 'cls', 'Other'])) + str(i), attrs=attrs, only=only,
                 module=draw(st.sampled_from(['fpvworld', 'pack.one', 'pack.two'])))
        if draw(st.integers(0, 3)) == 0:
            # (a class defined within something else)
            c['qualname'] = draw(st.sampled_from(['Outer.', 'make.<locals>.'])) + c['name']
        classes.append(c)
    if len(classes) > 1 and draw(st.integers(0, 5)) == 0:
        # a class that is defined again
        classes[-1].update(name=classes[0]['name'], module=classes[0]['module'])
    descs = []
    for _ in range(draw(st.integers(1, 4))):
        desc = []
        for n in sorted(pools):
            if draw(st.integers(0, 4)):
                desc.append([draw(st.sampled_from([n, n, n, 'al_' + n])), draw(st.sampled_from(pools[n] + [None]))])
        if draw(st.integers(0, 3)):
            desc.append(['num', draw(st.sampled_from([1, 2, '3', 'x']))])
        descs.append(desc)
    return dict(classes=classes, descs=descs, report=draw(st.integers(0, 3)), fast=draw(st.integers(0, 3)) == 0,
                fastkeys=draw(gens.subset(NAMES, 0, 2)), dflt=draw(st.sampled_from([[], [], [['level', 2]]])),
                style=draw(st.integers(0, 3)), way=draw(st.sampled_from(['load', 'load', 'find_best', 'find_all', 'find_any', 'style', 'quiet', 'noreport', 'noauto'])),
                select=draw(st.sampled_from(['', 'cls', 'CLS', 'other', 'pack', r'pack\.one', '1', 'zzz', r'pack\Wone', r'PACK\.\D', r'cls\d$', r'^pack\S+0', '[c]ls', 'zzz|cls0', '(?:zzz|CLS1)$'])))


def strategy(tier):
    return _case()


ONLY_NOTFOUND, ONLY_NOTMATCH = 'No value found', 'Do not match'


def failing_only(only, values, dflt):
    """Clauses that are not fulfilled: {attribute: [(reason, args)]}."""
    out = {}
    for key, spec in only:
        if model.only_ok([[key, spec]], values, dflt):
            continue
        name = key[6:] if key.startswith('after_') else key[7:] if key.startswith('before_') else key
        actual = model.visible(values[name]) if name in values else dflt.get(name)
        expected = codec.dec(spec)
        if not isinstance(expected, tuple):
            expected = (expected, )
        out.setdefault(name, []).append((ONLY_NOTFOUND, key) if actual is None else (ONLY_NOTMATCH, expected))
    return out


def check_class(d, exp, items, desc, dflt, quick, what):
    """*items* are what is reported for a given class. Return the number of reasons."""
    what = '{}: report for {}'.format(what, d.name)
    if exp.kind == 'ok' and exp.selected:
        require(not items, '{}: {} whereas it is selected', what, items)
        return 0
    require(items, '{}: nothing whereas it is rejected ({!r})', what, exp)
    reported = {}
    for item in items:
        require(('why' in item) != ('only' in item), '{}: odd item {}', what, item)
        reported.setdefault(item['name'], []).append(item)
    if exp.kind == 'ok':
        wrong = failing_only(d.cdef['only'], exp.values, dflt)
        for k, sub in reported.items():
            for item in sub:
                require((item.get('only'), item.get('args')) in wrong.get(k, []), '{}: {} whereas wrong clauses are {}', what, item, wrong)
        return len(items)
    mattrs = {m.name: m for m in d.mattrs}
    for k, sub in reported.items():
        require(k in mattrs, '{}: there is no attribute {}', what, k)
        raw = source(mattrs[k], desc, dflt)
        if isinstance(raw, str) and raw == 'None' and quick and [item.get('why') for item in sub] == [model.INVALID]:
            # (it may be reported before any attempt to convert it)
            continue
        require(k in exp.failing, '{}: {} reported whereas failing attributes are {}', what, sub, exp.failing)
        whys = [item.get('why') for item in sub]
        if exp.raw_none:
            allowed = [list(exp.failing[k])]
        else:
            allowed = [[x] for x in exp.failing[k]]
        require(whys in allowed, '{}: {} is reported as {} instead of {}', what, k, whys, exp.failing[k])
        for item in sub:
            a = item.get('args')
            if item['why'] == model.SUBCLASS:
                require(a == mattrs[k].type.__name__, '{}: args of {}', what, item)
            elif item['why'] == model.RECLASS:
                require(a == (mattrs[k].type.__name__, str(mattrs[k].remapped(raw))), '{}: args of {}', what, item)
            elif item['why'] in (model.OUTSIDE, model.OUTCAST):
                final = mattrs[k].remapped(raw)
                if not mattrs[k].isclass and not isinstance(final, mattrs[k].type):
                    final = mattrs[k].type(final, **mattrs[k].args)
                require(codec.same(a, final), '{}: args of {} instead of {!r}', what, item, final)
    if exp.raw_none or not quick:
        require(set(reported) == set(exp.failing), '{}: about {} whereas failing attributes are {}', what, sorted(reported), exp.failing)
    return len(items)


def check_twins(case, ctx, defs, dflt):
    """Some classes have got the same name: whatever the order, each of them has its own entry."""
    coll = sut.collectors.get(tag='thing')
    quick = case['fast'] or bool(case['fastkeys'])
    names = [c['module'] + '.' + c['name'] for c in case['classes']]
    for step, spec in enumerate(case['descs']):
        desc = codec.decmap(spec)
        exps = [d.expect(desc, defaults=dflt) for d in defs]
        if any(e.kind == 'error' or e.errors for e in exps):
            return
        what = 'step {:d}: {}'.format(step, desc)
        with contextlib.redirect_stdout(io.StringIO()):
            sut.footprints.load(tag='thing', **desc)
        if not case['report'] or (case['report'] < 2 and any(e.selected for e in exps)):
            continue
        logged = [(item.name, list(item)) for item in coll.report_last]
        require(sorted(n for n, _ in logged) == sorted(names), '{}: report about {} instead of {}', what, [n for n, _ in logged], names)
        for n in set(names):
            mine = [i for i, x in enumerate(names) if x == n]
            entries = [items for x, items in logged if x == n]
            problem = None
            for order in itertools.permutations(entries):
                try:
                    fails = [check_class(defs[i], exps[i], items, desc, dflt, quick, what) for i, items in zip(mine, order)]
                    break
                except Violation as exc:
                    problem = exc
            else:
                raise problem
            ctx.nontrivial(len(mine) > 1 and any(fails))
    ctx.label('twins')


def source(m, desc, dflt):
    for k in [m.name] + m.alias:
        if k in desc and not (m.optional and desc[k] is None):
            return desc[k]
    if m.name in dflt:
        return dflt[m.name]
    if isinstance(m.default, dict) and m.default['t'] == 'dyn':
        return codec.dec(m.default['v'])
    return codec.dec(m.default)


def outline(text):
    """The nested keys of a dictionary that is printed, with their depth."""
    out = []
    for line in text.splitlines():
        found = re.match(r'( *)(\S.*?) = dict\(', line)
        if found and len(found.group(1)) % 4 == 2:
            out.append(((len(found.group(1)) - 6) // 4, found.group(2)))
    return out


HIDDEN = dict(style='_report_style', quiet='_emptywarning', noreport='_report')


def summary(coll, style):
    """Print the last report in the given style."""
    if style == 0:
        coll.report_last.lightdump()
    elif style == 1:
        flat = coll.report_last.as_flat()
        for order in (['why', 'attribute'], ['only', 'attribute']):
            flat.reshuffle(order, skip=False)
            flat.fulldump()
    elif style == 2:
        coll.report_sorted().orderedprint()
    else:
        coll.report_sorted().dumper()


def check(case, ctx):
    fp = sut.footprints
    fp.setup.report = case['report']
    if case['way'] != 'style':
        fp.setup.report_style = case['style']
    fp.setup.fastmode = case['fast']
    fp.setup.fastkeys = tuple(case['fastkeys'])
    dflt = codec.decmap(case['dflt'])
    fp.setup.defaults = dict(dflt)
    defs = [Definition(c, module=c['module'], __qualname__=c.get('qualname', c['name'])) for c in case['classes']]
    if len({(c['module'], c['name']) for c in case['classes']}) < len(defs):
        return check_twins(case, ctx, defs, dflt)
    names = {c['module'] + '.' + c['name']: d for c, d in zip(case['classes'], defs)}
    coll = sut.collectors.get(tag='thing')
    count, last = 0, None
    for step, spec in enumerate(case['descs']):
        desc = codec.decmap(spec)
        exps = {n: d.expect(desc, defaults=dflt) for n, d in names.items()}
        if any(e.kind == 'error' or e.errors for e in exps.values()):
            return
        what = 'step {:d}: {}'.format(step, desc)
        out = io.StringIO()
        with contextlib.redirect_stdout(out), sut.messages() as msgs:
            if case['way'] in ('load', 'noauto'):
                coll.report_auto = case['way'] == 'load'
                status, res = outcome_of(lambda: fp.load(tag='thing', **desc))
            elif case['way'] in HIDDEN:
                status, res = outcome_of(lambda: fp.load(tag='thing', **desc, **{HIDDEN[case['way']]: case['style'] if case['way'] == 'style' else False}))
            else:
                status, res = outcome_of(lambda: getattr(coll, case['way'])(dict(desc)))
        if status == 'exc':
            raise res
        selected = any(e.selected for e in exps.values())
        if not case['way'].startswith('find_'):
            warned = [m for m in msgs if m[1].startswith('No thing found')]
            require(bool(warned) == (not selected and case['way'] != 'quiet'), '{}: warned by {} (selected: {})', what, warned, selected)
        if case['report'] and (case['report'] > 1 or not selected):
            count += 1
            last = (desc, exps, what)
        require(len(coll.report_log) == count, '{}: {:d} log entries instead of {:d}', what, len(coll.report_log), count)
        if last is None:
            require(not coll.report_last, '{}: there is a report', what)
            continue
        desc, exps, what = last
        logged = {item.name: list(item) for item in coll.report_last}
        partial = case['way'] == 'find_any' and any(e.selected for e in exps.values())
        require(coll.report_last.name == 'thing' and len(list(coll.report_last)) == len(logged) and
                (set(logged) < set(names) and any(exps[n].selected for n in logged) if partial and set(logged) != set(names) else set(logged) == set(names)),
                '{}: report about {} instead of {}', what, sorted(logged), sorted(names))
        quick = case['fast'] or bool(case['fastkeys'])
        nfail = 0
        for n in logged:
            d = names[n]
            k = check_class(d, exps[n], logged[n], desc, dflt, quick, what)
            nfail += bool(k)
            ctx.nontrivial(k > 1)
            for item in logged[n]:
                ctx.label(item.get('why') or item['only'])
        ctx.nontrivial(nfail > 1)
        # what the user asks for
        whynot = coll.report_whynot(case['select'])
        matching = re.compile(case['select'], re.IGNORECASE).search
        require(set(whynot) == {n for n in logged if logged[n] and matching(n)}, '{}: whynot({!r}) is about {}', what,
                case['select'], sorted(whynot))
        for n, info in whynot.items():
            require(set(info) == {item['name'] for item in logged[n]}, '{}: whynot is {} instead of {}', what, info, logged[n])
            for k, v in info.items():
                require(dict(v, name=k) in logged[n], '{}: whynot is {} instead of {}', what, info, logged[n])
        # the printed summary
        text = out.getvalue()
        if case['way'] not in ('load', 'style'):
            require(not text, '{}: {!r} was printed', what, text)
        elif last[2] == 'step {:d}: {}'.format(step, desc):
            if selected:
                require(not text, '{}: {!r} was printed', what, text)
            else:
                for n, items in logged.items():
                    require(n in text, '{}: nothing printed about {}: {}', what, n, text)
                    for item in items:
                        require(item['name'] in text and (item.get('why') or item['only']) in text,
                                '{}: nothing printed about {}: {}', what, item, text)
                # and this is the last thing to be printed
                view = io.StringIO()
                with contextlib.redirect_stdout(view):
                    summary(coll, case['style'])
                require(text.split()[-len(view.getvalue().split()):] == view.getvalue().split() and text.count('FlatReport') == view.getvalue().count('FlatReport'),
                        '{}: printed {} instead of {} (style {:d})', what, text, view.getvalue(), case['style'])
                ctx.label('printed {:d}'.format(case['style']))
    # the whole log, as it is printed
    text = {}
    for which, fct in dict(dump=coll.report_dump, stamp=lambda: coll.report_dump(stamp=True), last=coll.report_dumplast).items():
        if which == 'last' and last is None:
            continue
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            fct()
        text[which] = outline(out.getvalue())
    top = [k for depth, k in text['dump'] if depth == 1]
    require(top == ['thing_{:04d}'.format(i) for i in range(1, count + 1)], 'entries that are printed: {}', top)
    stamps = [k for depth, k in text['stamp'] if depth == 1]
    require(len(set(stamps)) == len(stamps) <= count and all(re.match(r'thing \d{4}-\d\d-\d\dT[\d:.]+$', k) for k in stamps), 'stamps that are printed: {}', stamps)
    if last is not None:
        exp = []
        for n, items in sorted(logged.items()):
            exp.append((1, n))
            for k, what in sorted({item['name']: 'why' if 'why' in item else 'only' for item in items}.items()):
                exp.append((2, k))
        require(text['last'] == exp, 'last report as it is printed: {} instead of {}', text['last'], exp)
        tail = text['dump'][max(i for i, x in enumerate(text['dump']) if x[0] == 1) + 1:]
        require([(depth - 1, k) for depth, k in tail] == exp, 'end of the log as it is printed: {} instead of {}', tail, exp)
    # on demand
    desc = codec.decmap(case['descs'][-1])
    for n, d in names.items():
        exp = d.expect(desc, defaults=dflt)
        resolved = d.cls.footprint_couldbe(desc, mkreport=True)[0]
        require(bool(resolved) == exp.selected, 'couldbe with a report: {} instead of {!r}', resolved, exp)
        void = sut.reporting.get(tag='void')
        require([item.name for item in void.last] == [n], 'couldbe report about {}', [item.name for item in void.last])
        check_class(d, exp, list(list(void.last)[0]), desc, dflt, case['fast'] or bool(case['fastkeys']), 'couldbe of {}'.format(desc))
        # in a log of our own
        size = len(void)
        mine = sut.reporting.get(tag='mine')
        mine.add(collector=coll)
        with contextlib.redirect_stdout(io.StringIO()):
            resolved = d.cls.footprint_couldbe(desc, report=mine, mkreport=len(n) % 2 == 0 or case['fast'])[0]
        require(bool(resolved) == exp.selected and len(void) == size and [item.name for item in mine.last] == [n], 'couldbe with its own report: {} {} {}',
                resolved, exp, [item.name for item in mine.last])
        check_class(d, exp, list(list(mine.last)[0]), desc, dflt, case['fast'] or bool(case['fastkeys']), 'couldbe of {} (own log)'.format(desc))
