#!/opt/venv/bin/python
"""
Development tool: systematic mutants of the library, judged by its own tests then by (reduced runs of) the checks.

    mutate.py list                         number of mutants for each file
    mutate.py retry OUT.jsonl INDEX[:PID,PID] ...   full quick budget for some of the survivors
    mutate.py run OUT.jsonl [WORKERS] [FILE ...]   from a copy of /verif (results are appended; already known mutants are skipped)
"""
import ast
import json
import multiprocessing
import os
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SRC = '/repo/src/footprints'
FILES = ['__init__.py', 'collectors.py', 'util.py', 'priorities.py', 'access.py', 'config.py', 'stdtypes.py', 'reporting.py',
         'doc.py', 'proxies.py']
ORDER = {
    '__init__.py': 'C01 C03 C02 C08 C11 C05 C09 C04 C14 C12 C10 C06 C13 C21 C15 C07 C16 C22 C23 C20 C18',
    'collectors.py': 'C06 C07 C22 C12 C13 C21 C14 C15 C09 C03 C16 C02',
    'util.py': 'C18 C19 C03 C08 C09 C15 C23',
    'priorities.py': 'C17 C06 C22 C23 C08',
    'access.py': 'C10 C11 C01 C23 C09',
    'config.py': 'C21 C02 C15 C03 C05',
    'stdtypes.py': 'C20 C11 C18 C01 C08',
    'reporting.py': 'C16 C14 C15 C13',
    'doc.py': 'C23 C15',
    'proxies.py': 'C21 C12 C09',
}
ALL = ['C%02d' % i for i in range(1, 24)]
FRACTION = int(os.environ.get('MUT_FRACTION', '8'))

SWAP = {ast.Eq: ['!='], ast.NotEq: ['=='], ast.Lt: ['<=', '>='], ast.LtE: ['<'], ast.Gt: ['>=', '<='], ast.GtE: ['>'],
        ast.In: ['not in'], ast.NotIn: ['in'], ast.Is: ['is not'], ast.IsNot: ['is']}
UNWRAP = {'dict', 'set', 'list', 'tuple', 'sorted', 'bool', 'str', 'deepcopy', 'copy', 'mktuple', 'reversed', 'deque'}
STRIP = {'lower', 'upper', 'copy', 'rstrip', 'title', 'strip'}


class Finder(ast.NodeVisitor):
    def __init__(self, text):
        self.text = text
        self.lines = text.splitlines(keepends=True)
        self.start = [0]
        for l in self.lines:
            self.start.append(self.start[-1] + len(l.encode()))
        self.raw = text.encode()
        self.out = []

    def pos(self, node):
        return (self.start[node.lineno - 1] + node.col_offset, self.start[node.end_lineno - 1] + node.end_col_offset)

    def seg(self, node):
        a, b = self.pos(node)
        return self.raw[a:b].decode()

    def put(self, node, new, kind):
        a, b = self.pos(node)
        self.out.append((a, b, new, kind, node.lineno))

    def generic_visit(self, node):
        super().generic_visit(node)

    def visit_body(self, body):
        pass

    def visit_Call(self, node):
        f = node.func
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == 'logger':
            return
        name = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else None
        if name in UNWRAP and len(node.args) == 1 and not node.keywords:
            self.put(node, self.seg(node.args[0]), 'unwrap')
        if isinstance(f, ast.Attribute) and f.attr in STRIP and len(node.args) <= 1:
            self.put(node, self.seg(f.value), 'strip')
        for i, kw in enumerate(node.keywords):
            if kw.arg:
                args = [self.seg(a) for a in node.args] + [self.seg(k) if k is not kw else None for k in node.keywords]
                self.put(node, self.seg(f) + '(' + ', '.join(a for a in args if a) + ')', 'dropkw')
        if len(node.args) > 1:
            args = [self.seg(a) for a in node.args] + [self.seg(k) for k in node.keywords]
            self.put(node, self.seg(f) + '(' + ', '.join(args[:len(node.args) - 1] + args[len(node.args):]) + ')', 'droparg')
        self.generic_visit(node)

    def visit_Compare(self, node):
        if len(node.ops) == 1:
            for new in SWAP.get(type(node.ops[0]), ()):
                self.put(node, self.seg(node.left) + ' ' + new + ' ' + self.seg(node.comparators[0]), 'cmp')
        self.generic_visit(node)

    def visit_BoolOp(self, node):
        op = ' or ' if isinstance(node.op, ast.And) else ' and '
        parts = ['(' + self.seg(v) + ')' for v in node.values]
        self.put(node, '(' + op.join(parts) + ')', 'boolop')
        for i in range(len(parts)):
            rest = parts[:i] + parts[i + 1:]
            self.put(node, '(' + (' and ' if isinstance(node.op, ast.And) else ' or ').join(rest) + ')', 'dropcond')
        self.generic_visit(node)

    def visit_UnaryOp(self, node):
        if isinstance(node.op, ast.Not):
            self.put(node, '(' + self.seg(node.operand) + ')', 'not')
        elif isinstance(node.op, ast.USub):
            self.put(node, '(' + self.seg(node.operand) + ')', 'neg')
        self.generic_visit(node)

    def visit_BinOp(self, node):
        new = {ast.Add: '-', ast.Sub: '+', ast.Mult: '//', ast.FloorDiv: '*', ast.BitOr: '&', ast.BitAnd: '|'}.get(type(node.op))
        if new:
            self.put(node, self.seg(node.left) + ' ' + new + ' ' + self.seg(node.right), 'binop')
        self.generic_visit(node)

    def test(self, node):
        self.put(node.test, 'True', 'iftrue')
        self.put(node.test, 'False', 'iffalse')

    def visit_If(self, node):
        self.test(node)
        self.generic_visit(node)

    def visit_IfExp(self, node):
        self.test(node)
        self.generic_visit(node)

    def visit_Constant(self, node):
        v = node.value
        if isinstance(v, bool):
            self.put(node, repr(not v), 'bool')
        elif isinstance(v, int):
            self.put(node, str(v + 1), 'int')
            if v:
                self.put(node, str(v - 1), 'int')
        elif isinstance(v, str) and len(v) < 40 and '\n' not in v:
            self.put(node, repr(v + 'X') if not self.raw[self.pos(node)[0]:self.pos(node)[0] + 1] == b'f' else self.seg(node), 'str')

    def visit_JoinedStr(self, node):
        pass

    def stmts(self, body):
        for i, s in enumerate(body):
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                continue
            if isinstance(s, ast.Expr) and self.seg(s).startswith('logger'):
                continue
            if isinstance(s, (ast.Expr, ast.AugAssign, ast.Assign, ast.Delete)):
                self.put(s, 'pass', 'delstmt')
            elif isinstance(s, ast.Raise):
                self.put(s, 'pass', 'delraise')
            elif isinstance(s, ast.Break):
                self.put(s, 'pass', 'delbreak')
                self.put(s, 'continue', 'brk2cont')
            elif isinstance(s, ast.Continue):
                self.put(s, 'pass', 'delcont')
                self.put(s, 'break', 'cont2brk')
            elif isinstance(s, ast.Return) and s.value is not None:
                self.put(s.value, 'None', 'retnone')
            if isinstance(s, (ast.For, ast.While)):
                # only once
                last = s.body[-1]
                a, b = self.pos(last)
                self.out.append((b, b, '\n' + ' ' * last.col_offset + 'break', 'once', last.lineno))
                self.put(s.iter if isinstance(s, ast.For) else s.test, '()' if isinstance(s, ast.For) else 'False', 'never')

    def visit(self, node):
        if isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant):
            return
        for field in ('body', 'orelse', 'finalbody'):
            b = getattr(node, field, None)
            if isinstance(b, list) and not isinstance(node, (ast.Module, ast.ClassDef)):
                self.stmts(b)
        super().visit(node)

    def visit_arguments(self, node):
        for d in node.defaults + [x for x in node.kw_defaults if x]:
            self.visit(d)

    def visit_ExceptHandler(self, node):
        if isinstance(node.type, ast.Tuple):
            for e in node.type.elts:
                rest = [self.seg(x) for x in node.type.elts if x is not e]
                self.put(node.type, '(' + ', '.join(rest) + ',)', 'exc')
        self.generic_visit(node)

    def visit_Subscript(self, node):
        s = node.slice
        if isinstance(s, ast.Slice) and s.lower is None and s.upper is None and s.step is None:
            self.put(node, self.seg(node.value), 'unslice')
        self.generic_visit(node)


def mutants(fname):
    text = open(os.path.join(SRC, fname)).read()
    f = Finder(text)
    f.visit(ast.parse(text))
    seen, out = set(), []
    for a, b, new, kind, line in f.out:
        old = f.raw[a:b].decode()
        if (a, b, new) in seen or old == new:
            continue
        seen.add((a, b, new))
        mutated = (f.raw[:a] + new.encode() + f.raw[b:]).decode()
        try:
            compile(mutated, fname, 'exec')
        except SyntaxError:
            continue
        out.append(dict(file=fname, line=line, kind=kind, a=a, b=b, old=old, new=new, text=mutated))
    return out


def tests_pass(path, stable):
    env = dict(os.environ, PYTHONPATH=os.path.join(path, 'src'), PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', LANG='C.UTF-8', TZ='UTC')
    try:
        r = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout=60', '-rA'], cwd=path, env=env,
                           capture_output=True, text=True, timeout=120)
    except subprocess.TimeoutExpired:
        return False
    passed = {l.split(' ', 1)[1].split('::')[-1] for l in r.stdout.splitlines() if l.startswith('PASSED')}
    return stable <= passed


def one_check(path, pid, seed=1):
    out = path + '.' + pid + '.json'
    if os.path.exists(out):
        os.unlink(out)
    env = dict(os.environ, FPV_REPO=path, PYTHONHASHSEED='65', PYTHONDONTWRITEBYTECODE='1')
    t0 = time.time()
    try:
        r = subprocess.run(['/opt/venv/bin/python', os.path.join(VERIF, 'run.py'), pid, '--shard', '0', '--nshards', str(FRACTION), '--tier', 'quick',
                            '--seed', str(seed), '--out', out], env=env, capture_output=True, text=True, timeout=900, cwd='/tmp')
    except subprocess.TimeoutExpired:
        return 'timeout'
    if not os.path.exists(out):
        return 'error ' + r.stderr[-300:]
    d = json.load(open(out))
    if d['failures']:
        return 'violation ' + d['failures'][0][2][:200]
    if d['error']:
        return 'harness ' + d['error'][-300:]
    return None


def worker(args):
    idx, todo, outfile = args
    path = '/tmp/mut/w{:d}'.format(idx)
    shutil.rmtree(path, ignore_errors=True)
    subprocess.check_call(['git', 'clone', '-q', '/repo', path])
    stable = {x.split('::')[-1] for x in json.load(open('/opt/vp/BASELINE.json'))['stable']}
    for m in todo:
        full = os.path.join(path, 'src/footprints', m['file'])
        with open(full, 'w') as fh:
            fh.write(m['text'])
        res = dict((k, m[k]) for k in ('file', 'line', 'kind', 'a', 'b', 'old', 'new'))
        if not tests_pass(path, stable):
            res['status'] = 'tests'
        else:
            res['status'] = 'SURVIVED'
            first = ORDER[m['file']].split()
            for pid in first + [p for p in ALL if p not in first]:
                why = one_check(path, pid)
                if why:
                    res['status'] = pid
                    res['why'] = why
                    break
        subprocess.check_call(['git', '-C', path, 'checkout', '-q', '--', '.'])
        with open(outfile, 'a') as fh:
            fh.write(json.dumps(res) + '\n')


def retry(outfile, asks):
    """Full quick budget of some checks (INDEX:PID,PID or INDEX) for some of the survivors."""
    global FRACTION
    FRACTION = 1
    recs = [json.loads(l) for l in open(outfile)]
    todo = []
    for ask in asks:
        i, _, pids = ask.partition(':')
        todo.append((int(i), recs[int(i)], pids.split(',') if pids else ORDER[recs[int(i)]['file']].split()[:8]))
    with multiprocessing.Pool(6) as pool:
        for i, pid, why in pool.imap(retry_one, todo):
            print(i, pid, why, flush=True)


def retry_one(ask):
    i, m, pids = ask
    path = '/tmp/mut/r{:d}'.format(i)
    shutil.rmtree(path, ignore_errors=True)
    subprocess.check_call(['git', 'clone', '-q', '/repo', path])
    full = os.path.join(path, 'src/footprints', m['file'])
    raw = open(full, 'rb').read()
    assert raw[m['a']:m['b']].decode() == m['old']
    with open(full, 'wb') as fh:
        fh.write(raw[:m['a']] + m['new'].encode() + raw[m['b']:])
    try:
        for pid in pids:
            why = one_check(path, pid)
            if why:
                return i, pid, why
        return i, 'SURVIVED', m['file'] + ' %d' % m['line']
    finally:
        shutil.rmtree(path, ignore_errors=True)


def main():
    if sys.argv[1] == 'retry':
        return retry(sys.argv[2], sys.argv[3:])
    if sys.argv[1] == 'list':
        for f in FILES:
            print(f, len(mutants(f)))
        return
    out, n = sys.argv[2], int(sys.argv[3]) if len(sys.argv) > 3 else 8
    files = sys.argv[4:] or FILES
    known = set()
    if os.path.exists(out):
        known = {(d['file'], d['a'], d['b'], d['new']) for d in map(json.loads, open(out))}
    todo = [m for f in files for m in mutants(f) if (m['file'], m['a'], m['b'], m['new']) not in known]
    print(len(todo), 'mutants to do', flush=True)
    import random
    random.Random(0).shuffle(todo)
    procs = [multiprocessing.Process(target=worker, args=((i, todo[i::n], out), )) for i in range(n)]
    for p in procs:
        p.start()
    for p in procs:
        p.join()


if __name__ == '__main__':
    main()
