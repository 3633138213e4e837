"""C19: globbing in descriptions, compared to the actual content of a directory."""

import os
import re
import shutil
import tempfile

from hypothesis import strategies as st

from footprints import FPStr

from .. import sut
from ..core import require

ID = 'C19'
RULE = ('a scratch directory (1-20 files and sub-directories, whose names are made of colliding pieces, or a family of names with the same structure) and a description with 1-2 strings made of literals, wildcards and '
        'named regular expressions (nested or escaped brackets, alternatives, groups...; relative or absolute paths, in sub-directories; possibly duplicated names, '
        'unbalanced brackets or invalid expressions), other strings that use the names, protected strings, lists; compared to the names of the '
        'directory filtered with an independent expression. Non-trivial: some names are kept and some others are not.')
BUDGET = dict(quick=4000, thorough=60000)

PIECES = ['a', 'b', 'abc', '1', '02', '0003', '_', '-', '.', ':', 'X', '{', '}', '+', '(', ')', 'trap', '^', '$', ' ', '~', 'run', ',', 'range(1,2)', '{glob:i:b}', '[glob:q]']
VALUES = ['a', 'b', 'abc', '1', '02', '12']
REGEX = [r'\w+', r'\d+', r'\d{2}', r'\d{4}', r'\d{2}(?::\d{2})?', r'[a-c]+', r'a|b|abc', r'(a|b)+', r'.+', r'.*', r'\w*?', r'[^_]+', r'x\{y\}', r'\{|\}', r'(?i)x|y',
         r'\w{1}\w*', r'(?:\d{2}){1}', r'[A-Z]', r'a?b?', r'\W', r'0*\d']
REGEX = [x for x in REGEX if '(?i)' not in x]
SPECIAL = re.compile(r',|glob:')
BAD = [r'[\d+', r'*', r'(a', r'a)', r'+x']
NAMES = ['i', 'n', 'date', 'n2', '_x']


@st.composite
def _pattern(draw, names, files, broken):
    """A list of ['lit', text], ['wild', '*' or '?'], ['glob', name, regex]."""
    sub = draw(st.sampled_from([None, None, None, 'lit', 'wild', 'glob']))
    out = []
    pool = list(names)

    def group():
        return ['glob', pool.pop(0), draw(st.sampled_from(REGEX))]

    if sub == 'lit':
        out.append(['lit', 'sub1/'])
    elif sub == 'wild':
        out += [['lit', 'sub'], ['wild', draw(st.sampled_from(['?', '*']))], ['lit', '/']]
    elif sub == 'glob':
        out += [['lit', 'sub'], group(), ['lit', '/']]
    ref = draw(st.sampled_from(files))
    # cut an actual name into pieces, and make some of them variable
    some = False
    for piece in ref:
        w = draw(st.integers(0, 9))
        if w < 4 and pool and piece not in '_-':
            out.append(group())
            some = True
        elif w == 4:
            out.append(['wild', draw(st.sampled_from(['*', '?']))])
        elif SPECIAL.search(piece):
            # (it would have a meaning in a pattern)
            out.append(['wild', '*'])
        elif w == 5:
            out.append(['lit', draw(st.sampled_from([x for x in PIECES if not SPECIAL.search(x)]))])
        elif w != 6:
            out.append(['lit', piece])
    if not some and pool:
        out.append(group())
    if out and out[-1][0] == 'lit' and out[-1][1].endswith('/'):
        out.append(['wild', '*'])
    if broken and any(x[0] == 'glob' for x in out):
        last = [i for i, x in enumerate(out) if x[0] == 'glob'][-1]
        if broken == 'regex':
            out[last] = ['glob', out[last][1], draw(st.sampled_from(BAD))]
        elif broken == 'twice':
            out.append(['glob', out[last][1], r'\w+'])
        else:
            out.append(draw(st.sampled_from([['glob', 'never', r'\d{2'], ['open', '{glob:never:']])))
    return out


@st.composite
def _case(draw):
    name = st.lists(st.sampled_from(PIECES), min_size=1, max_size=5)
    files = draw(st.lists(name, min_size=1, max_size=10, unique_by=''.join))
    for f in list(files):
        if len(f) > 1 and draw(st.integers(0, 2)) == 0:
            new = list(draw(st.permutations(f)))
            if ''.join(new) not in [''.join(x) for x in files]:
                files.append(new)
    subfiles = draw(st.lists(st.tuples(st.sampled_from(['sub1', 'sub2', 'subabc']), st.integers(0, len(files) - 1)), max_size=5))
    shuffled = list(draw(st.permutations(NAMES)))
    family = None
    if draw(st.integers(0, 3)) == 0:
        # a family of names with the same structure
        seps = [draw(st.sampled_from(x)) for x in (['', '', 'run', 'a', '.'], ['_', '-', '.', ':', 'X'], ['', '', '_', '.', 'X'])]
        pairs = draw(st.lists(st.tuples(st.sampled_from(VALUES), st.sampled_from(VALUES)), min_size=2, max_size=8, unique=True))
        files = [[seps[0], x, seps[1], y, seps[2]] for x, y in pairs] + files[:3]
        files = list({''.join(f): f for f in files}.values())
        family = [['lit', seps[0]], None, ['lit', seps[1]], None, ['lit', seps[2]]]
        for i in (1, 3):
            family[i] = draw(st.sampled_from([['glob', shuffled[i // 2], x] for x in (r'\w+', r'.*', r'[a-c]+|\d+', r'\w', r'\d+', r'[^_]+')] + [['wild', '*']]))
    broken = draw(st.sampled_from([None] * 9 + ['regex', 'twice', 'bracket']))
    pats = [['fname', family if family and any(x[0] == 'glob' for x in family) else
             draw(_pattern(shuffled[:draw(st.integers(1, 3))], files, broken))]]
    if draw(st.integers(0, 4)) == 0:
        pats.append(['other', draw(_pattern(shuffled[3:], files, None))])
    texts = []
    for k in draw(st.lists(st.sampled_from(['id', 'zz', 'aa', 'num']), max_size=4, unique=True)):
        kind = draw(st.sampled_from(['text', 'text', 'text', 'plain', 'fpstr', 'list', 'int']))
        if kind == 'text':
            texts.append([k, kind, [draw(st.sampled_from(['', 'pre', '[', ']', '[glob]', 'glob:i', '[glob:unknown]'])) + '[glob:' + n + ']'
                                    for n in draw(st.lists(st.sampled_from(NAMES), min_size=1, max_size=3))]])
        elif kind == 'fpstr':
            texts.append([k, kind, draw(st.sampled_from(['a,b', 'range(1,3)', '{glob:i:.*}', 'x']))])
        elif kind == 'list':
            texts.append([k, kind, draw(st.sampled_from([['p', 'q'], ['p'], ['p', 'q', 'r']]))])
        elif kind == 'int':
            texts.append([k, kind, 3])
        else:
            texts.append([k, kind, draw(st.sampled_from(['text', '', 'glob', '*']))])
    if draw(st.integers(0, 3)) == 0:
        # something that depends on the file
        texts.append(['tab', 'table', None])
    n = len(pats) + len(texts)
    return dict(files=files, subfiles=subfiles, pats=pats, texts=texts, absolute=draw(st.integers(0, 4)) == 0,
                dirs=draw(st.booleans()), order=list(draw(st.permutations(list(range(n))))))


def strategy(tier):
    return _case()


def text(pattern):
    return ''.join('{{glob:{}:{}}}'.format(x[1], x[2]) if x[0] == 'glob' else x[1] for x in pattern)


def balanced(regex):
    """True if the (unescaped) curly brackets are balanced."""
    depth, prev = 0, ''
    for c in regex:
        if prev != '\\':
            depth += (c == '{') - (c == '}')
        if depth < 0:
            return False
        prev = c
    return depth == 0


def invalid(pattern):
    names = [x[1] for x in pattern if x[0] == 'glob']
    if len(names) != len(set(names)) or any(x[0] == 'open' for x in pattern):
        return True
    for x in pattern:
        if x[0] == 'glob':
            if not balanced(x[2]):
                return True
            try:
                re.compile(x[2])
            except re.error:
                return True
    return False


def select(pattern, paths):
    """The relative paths that match (sorted) with the values of the names."""
    comps, cur = [], []
    for x in pattern:
        if x[0] == 'lit' and '/' in x[1]:
            a, b = x[1].split('/', 1)
            comps.append(cur + ([['lit', a]] if a else []))
            cur = [['lit', b]] if b else []
        else:
            cur.append(x)
    comps.append(cur)
    out = []
    for p in sorted(paths):
        parts = p.split('/')
        if len(parts) != len(comps):
            continue
        vals = {}
        for name, comp in zip(parts, comps):
            comp = [x for x in comp if x[1]]
            expr = ''.join('(?P<{}>{})'.format(x[1], x[2]) if x[0] == 'glob' else
                           re.escape(x[1]) if x[0] == 'lit' else {'*': '.*', '?': '.'}[x[1]] for x in comp)
            m = re.fullmatch(expr, name)
            # Hidden files have to be asked for explicitly
            if m is None or (name.startswith('.') and not (comp and comp[0][0] == 'lit' and comp[0][1].startswith('.'))):
                break
            vals.update({x[1]: m.group(x[1]) for x in comp if x[0] == 'glob'})
        else:
            out.append((p, vals))
    return out


def check(case, ctx):
    tmpd = os.path.realpath(tempfile.mkdtemp(prefix='fpvglob'))
    cwd = os.getcwd()
    try:
        paths = set()
        for i, f in enumerate(case['files']):
            f = ''.join(f)
            if f in ('.', '..'):
                continue
            if case['dirs'] and i == 1:
                os.mkdir(os.path.join(tmpd, f))
            else:
                open(os.path.join(tmpd, f), 'w').close()
            paths.add(f)
        for d, i in case['subfiles']:
            f = ''.join(case['files'][i % len(case['files'])])
            if f in ('.', '..') or d in [''.join(x) for x in case['files']]:
                continue
            os.makedirs(os.path.join(tmpd, d), exist_ok=True)
            paths.add(d)
            open(os.path.join(tmpd, d, f), 'w').close()
            paths.add(d + '/' + f)
        os.chdir(cwd if case['absolute'] else tmpd)
        _decide(case, ctx, tmpd + '/' if case['absolute'] else '', paths)
    finally:
        os.chdir(cwd)
        shutil.rmtree(tmpd)


def _decide(case, ctx, prefix, paths):
    items = [(k, prefix + text(p)) for k, p in case['pats']]
    broken = [k for k, p in case['pats'] if invalid(p)]
    for k, kind, v in case['texts']:
        if kind == 'table':
            items.append((k, dict(fname={} if 'fname' in broken else {prefix + f: told(f, paths) for f, _ in select(case['pats'][0][1], paths)})))
            continue
        items.append((k, ''.join(v) if kind == 'text' else FPStr(v) if kind == 'fpstr' else v))
    desc = dict(items[i] for i in case['order'])
    witness = dict(desc)
    try:
        got = sut.util.expand(desc)
    except ValueError as exc:
        got = exc
    # Nothing is looked for when there is nothing to combine with
    blank = any(kind == 'list' and not v for _, kind, v in case['texts'])
    if broken:
        first = [k for k in desc if k in ('fname', 'other')][0]
        empty = first not in broken and not select(dict(case['pats'])[first], paths)
        require(isinstance(got, ValueError) or empty or blank, '{} is accepted: {}', desc, got)
        ctx.label('refused')
        ctx.nontrivial(isinstance(got, ValueError))
        return
    require(not isinstance(got, ValueError), '{} is refused: {}', desc, got)
    require(desc == witness and list(desc) == list(witness), 'the description was altered: {}', desc)
    expected = reference(case, prefix, paths, list(desc))
    require([d.get('index_expansion') for d in got] == list(range(1, len(got) + 1)), 'indices: {}', got)
    got = [{k: v for k, v in d.items() if k != 'index_expansion'} for d in got]
    require(got == expected, '{} gives {} instead of {} (files: {})', desc, got, expected, sorted(paths))
    for d in got:
        require(all(type(d[k]) is type(desc[k]) or isinstance(desc[k], (list, dict)) for k in desc), 'types have changed: {} from {}', d, desc)
    kept = {d['fname'] for d in got}
    ctx.nontrivial(kept and len(kept) < len(paths))
    if len(case['pats']) > 1 and got:
        ctx.label('two')
    if any('/' in f for f in kept):
        ctx.label('subdir')
    if case['absolute'] and got:
        ctx.label('absolute')
    if any(kind == 'table' for _, kind, _ in case['texts']) and got:
        ctx.label('table')
    if any(kind == 'text' for _, kind, _ in case['texts']) and got:
        ctx.label('texts')
    if any(kind == 'fpstr' for _, kind, _ in case['texts']) and got:
        ctx.label('protected')


def told(f, paths):
    return 'for {:d}'.format(sorted(paths).index(f))


def reference(case, prefix, paths, order):
    pats = dict(case['pats'])
    texts = {k: (kind, v) for k, kind, v in case['texts']}
    combos = [(dict(), dict())]
    for k in order:
        new = []
        for d, vals in combos:
            if k in pats:
                new += [({**d, k: prefix + f}, {**vals, **v}) for f, v in select(pats[k], paths)]
            elif texts[k][0] == 'table':
                new.append((d, vals))
            elif texts[k][0] == 'list':
                new += [({**d, k: x}, vals) for x in texts[k][1]]
            else:
                new.append(({**d, k: texts[k][1]}, vals))
        combos = new
    out = []
    for d, vals in combos:
        for k, (kind, v) in texts.items():
            if kind == 'table':
                d[k] = told(d['fname'][len(prefix):], paths)
            if kind == 'text':
                s = ''.join(v)
                d[k] = re.sub(r'\[glob:(\w+)\]', lambda m: vals.get(m.group(1), m.group(0)), s)
        out.append(d)
    return out
