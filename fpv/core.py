"""
Runner shared by all the checks.

A *property module* (``fpv.props.cXX``) provides:

* ``ID``            the property id;
* ``RULE``          how cases are made, and what makes one non-trivial;
* ``strategy(tier)`` a Hypothesis strategy that draws pure JSON cases;
* ``check(case, ctx)`` builds real footprints objects from the case, compares
  what they do with the oracle, raises :class:`Violation` on a disagreement and
  calls ``ctx.nontrivial()`` / ``ctx.label(...)``;
* ``BUDGET``        dict(quick=N, thorough=M): generated cases, all shards together.

Every failing case is written as a JSON replay file which is decided without Hypothesis.
"""

import contextlib
import hashlib
import importlib
import io
import json
import logging
import os
import resource
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.path.join(VERIF, 'evidence')
REPLAYS = os.path.join(EVIDENCE, 'replays')
KNOWN = os.path.join(VERIF, 'known_findings.txt')

#: wall-clock seconds after which a case is *suspected* of not terminating
SUSPECT_S = 10.
#: number of traced lines that turns the suspicion into a verdict (deterministic)
LINE_BUDGET = 3000000
#: seconds granted to the shrinking process after the first failure
SHRINK_S = 20.
#: seconds after which a shard stops generating cases (never a verdict)
SOFT_S = dict(quick=240., thorough=3000.)
NSHARDS = dict(quick=6, thorough=8)


class Violation(Exception):
    """The property does not hold on the current case."""


class HarnessError(Exception):
    """Something is wrong with the machinery itself."""


class _Suspect(BaseException):
    """A case is taking a lot of time."""


class _Stop(BaseException):
    """Stop the generation right now."""


class _LinesExhausted(BaseException):
    """The case went through its whole deterministic budget."""


class Ctx:
    """What a case says about itself."""

    def __init__(self):
        self.labels = set()
        self.is_nontrivial = False

    def label(self, *names):
        self.labels.update(names)

    def nontrivial(self, flag=True):
        self.is_nontrivial = self.is_nontrivial or bool(flag)


def require(cond, msg, *args):
    """Raise a Violation unless *cond*."""
    if not cond:
        raise Violation(msg.format(*args) if args else msg)


def load_property(pid):
    return importlib.import_module('fpv.props.' + pid.lower())


# ------------------------------------------------------------------ one case

def _in_harness_only(exc):
    """True if an exception that denotes a programming error comes from the harness alone."""
    if not isinstance(exc, (NameError, ImportError, SyntaxError)):
        return False
    for frame, _ in traceback.walk_tb(exc.__traceback__):
        if os.sep + 'footprints' + os.sep in frame.f_code.co_filename:
            return False
    return True


def run_case(mod, case):
    """Return ``(ctx, message)``: message is None if the property holds on *case*."""
    from . import sut
    ctx = Ctx()
    sink = io.StringIO()
    try:
        with contextlib.redirect_stdout(sink):
            sut.reset()
            try:
                mod.check(case, ctx)
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
    except Violation as exc:
        return ctx, str(exc) or 'violation'
    except HarnessError:
        raise
    except Exception as exc:
        if isinstance(exc, MemoryError) and not exc.args:
            # the real one: the code under test gives a message to its own
            raise
        if _in_harness_only(exc):
            raise HarnessError(''.join(traceback.format_exception(exc))) from exc
        tb = traceback.extract_tb(exc.__traceback__)
        where = ' <- '.join('{}:{}'.format(os.path.basename(f.filename), f.lineno) for f in reversed(tb[-4:]))
        return ctx, 'unexpected {}: {} [{}]'.format(type(exc).__name__, str(exc)[:300], where)
    return ctx, None


def run_case_watched(mod, case):
    """Same as :func:`run_case`, with a watchdog whose verdict is deterministic."""
    def on_alarm(signum, frame):
        raise _Suspect()

    old = signal.signal(signal.SIGALRM, on_alarm)
    signal.setitimer(signal.ITIMER_REAL, SUSPECT_S)
    try:
        return run_case(mod, case) + (False, )
    except _Suspect:
        pass
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
    return run_case_counted(mod, case) + (True, )


def run_case_counted(mod, case):
    """Run a case under a budget of traced lines: exhausting it means no termination."""
    count = [0]

    def tracer(frame, event, arg):
        if event == 'line':
            count[0] += 1
            if count[0] > LINE_BUDGET:
                raise _LinesExhausted()
        return tracer

    sys.settrace(tracer)
    try:
        return run_case(mod, case)
    except _LinesExhausted:
        ctx = Ctx()
        ctx.nontrivial()
        return ctx, 'no termination: more than {:d} lines executed for a single case'.format(LINE_BUDGET)
    finally:
        sys.settrace(None)


def digest(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()[:16]


# ------------------------------------------------------------------ a shard

def run_shard(pid, tier, seed, shard, nshards, outfile):
    """Generate this shard's share of the cases and write its results as JSON."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, Verbosity, settings

    mod = load_property(pid)
    total = mod.BUDGET[tier]
    share = max(1, total // nshards)
    t0 = time.monotonic()
    st = dict(evaluations=0, labels={}, digests=set(), samples=[], failures=[], stop=None)
    first_fail = [None]

    def one(case):
        now = time.monotonic()
        if now - t0 > SOFT_S[tier]:
            st['stop'] = 'soft time limit'
            raise _Stop()
        if first_fail[0] is not None and now - first_fail[0] > SHRINK_S:
            st['stop'] = 'shrinking stopped'
            raise _Stop()
        ctx, msg, slow = run_case_watched(mod, case)
        st['evaluations'] += 1
        for lab in ctx.labels:
            st['labels'][lab] = st['labels'].get(lab, 0) + 1
        if ctx.is_nontrivial:
            dg = digest(case)
            if dg not in st['digests']:
                st['digests'].add(dg)
                n = len(st['digests'])
                if n in (3, 30, 200) and len(st['samples']) < 3:
                    st['samples'].append(case)
        if msg is not None:
            st['failures'].append((len(json.dumps(case)), json.dumps(case, sort_keys=True), msg))
            st['failures'] = sorted(st['failures'])[:20]
            if first_fail[0] is None:
                first_fail[0] = time.monotonic()
            if slow:
                st['stop'] = 'non terminating case'
                raise _Stop()
            raise Violation(msg)

    test = hypothesis.given(mod.strategy(tier))(one)
    test = hypothesis.seed(seed * 1000 + shard)(test)
    test = settings(max_examples=share, database=None, deadline=None, derandomize=False,
                    print_blob=False, verbosity=Verbosity.quiet, report_multiple_bugs=False,
                    suppress_health_check=list(HealthCheck),
                    phases=(Phase.explicit, Phase.generate, Phase.shrink))(test)
    error = None
    try:
        test()
    except _Stop:
        pass
    except Violation:
        pass
    except Exception as exc:
        if not st['failures']:
            error = ''.join(traceback.format_exception(exc))
    with open(outfile, 'w') as fh:
        json.dump(dict(evaluations=st['evaluations'], labels=st['labels'], digests=sorted(st['digests']),
                       samples=st['samples'], failures=st['failures'], stop=st['stop'], error=error,
                       wall=time.monotonic() - t0), fh)


# ------------------------------------------------------------------ known findings

def known_findings():
    """List of ``(property, digest, text)`` recorded (and not fixed) in the known-findings file."""
    out = []
    if os.path.exists(KNOWN):
        with open(KNOWN) as fh:
            for line in fh:
                line = line.strip()
                if line.startswith('known:'):
                    fields = dict(f.split('=', 1) for f in line.split()[1:3])
                    out.append((fields['property'], fields['match'], line.split(None, 3)[3]))
    return out


# ------------------------------------------------------------------ entry points

def child_env(seed, shard):
    env = dict(os.environ)
    env['PYTHONHASHSEED'] = str((seed * 64 + shard) % 4294967295)
    env['PYTHONDONTWRITEBYTECODE'] = '1'
    for k in ('FOOTPRINT_DOCSTRINGS', 'FOOTPRINT_SHORTNAMES'):
        env.pop(k, None)
    return env


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    sys.setrecursionlimit(3000)
    logging.disable(logging.CRITICAL)


def main_check(pid, tier, seed, nshards=None):
    """Run a whole check: all the shards, the evidence file and the verdict."""
    t0 = time.monotonic()
    mod = load_property(pid)
    nshards = nshards or NSHARDS[tier]
    os.makedirs(REPLAYS, exist_ok=True)
    results = []
    with tempfile.TemporaryDirectory(prefix='fpv-') as tmp:
        procs = []
        for i in range(nshards):
            out = os.path.join(tmp, 'shard{:d}.json'.format(i))
            log = open(os.path.join(tmp, 'shard{:d}.log'.format(i)), 'w+')
            procs.append((i, out, log, subprocess.Popen(
                [sys.executable, os.path.join(VERIF, 'run.py'), pid, '--shard', str(i), '--nshards', str(nshards),
                 '--tier', tier, '--seed', str(seed), '--out', out],
                env=child_env(seed, i), stdout=log, stderr=subprocess.STDOUT, cwd=tmp)))
        for i, out, log, proc in procs:
            rc = proc.wait()
            log.seek(0)
            text = log.read()
            log.close()
            if rc != 0 or not os.path.exists(out):
                print('shard {:d} ended with status {:d}\n{:s}'.format(i, rc, text[-4000:]))
                results.append(dict(evaluations=0, labels={}, digests=[], samples=[], failures=[], stop=None,
                                    error='shard {:d}: status {:d}'.format(i, rc), wall=0.))
                continue
            with open(out) as fh:
                results.append(json.load(fh))
    labels = {}
    digests = set()
    for r in results:
        digests.update(r['digests'])
        for k, v in r['labels'].items():
            labels[k] = labels.get(k, 0) + v
    failures = sorted((tuple(f) + (i, )) for i, r in enumerate(results) for f in r['failures'])
    known = [k for k in known_findings() if k[0] == pid]
    matched, new = set(), []
    for size, case, msg, shard in failures:
        hit = [k for k in known if k[1] in msg]
        if hit:
            matched.update(k[2] for k in hit)
        else:
            new.append((size, case, msg, shard))
    errors = [r['error'] for r in results if r['error']]
    samples = [s for r in results for s in r['samples'][:1]][:4]
    evidence = dict(
        property=pid, tier=tier, seed=seed, level='exploration',
        coverage=dict(evaluations=sum(r['evaluations'] for r in results),
                      distinct_nontrivial=len(digests), rule=mod.RULE, samples=samples,
                      classes=dict(sorted(labels.items())), shards=nshards,
                      stopped=[r['stop'] for r in results if r['stop']]),
        assumptions=getattr(mod, 'ASSUMPTIONS', []),
        wall_s=round(time.monotonic() - t0, 2), violations=1 if new else 0)
    os.makedirs(EVIDENCE, exist_ok=True)
    with open(os.path.join(EVIDENCE, pid + '.json'), 'w') as fh:
        json.dump(evidence, fh, indent=1, sort_keys=True)
        fh.write('\n')
    print('{:s} {:s} seed={:d}: {:d} cases, {:d} distinct non-trivial, {:.1f}s'.format(
        pid, tier, seed, evidence['coverage']['evaluations'], len(digests), evidence['wall_s']))
    for text in sorted(matched):
        print('KNOWN-FINDING: property={:s} {:s}'.format(pid, text))
    if new:
        size, case, msg, shard = new[0]
        path = os.path.join(REPLAYS, '{:s}-{:s}.json'.format(pid, digest(json.loads(case))))
        with open(path, 'w') as fh:
            json.dump(dict(property=pid, message=msg, hashseed=child_env(seed, shard)['PYTHONHASHSEED'],
                           case=json.loads(case)), fh, indent=1, sort_keys=True)
            fh.write('\n')
        print('  ' + msg[:1500])
        print('VIOLATION property={:s} replay={:s}'.format(pid, path))
        return 1
    if errors:
        for e in errors:
            print('HARNESS ERROR\n' + e[-4000:])
        return 2
    if not digests:
        print('HARNESS ERROR: no non-trivial case was generated')
        return 2
    return 0


def main_replay(pid, path):
    """Decide a single saved case, without Hypothesis."""
    with open(path) as fh:
        data = json.load(fh)
    if os.environ.get('PYTHONHASHSEED') != data.get('hashseed', '0'):
        env = dict(os.environ, PYTHONHASHSEED=data.get('hashseed', '0'), PYTHONDONTWRITEBYTECODE='1')
        return subprocess.call([sys.executable, os.path.join(VERIF, 'run.py'), pid, '--replay', path], env=env)
    limits()
    mod = load_property(pid)
    ctx, msg = run_case_watched(mod, data['case'])[:2]
    print(json.dumps(data['case'], indent=1))
    if msg is None:
        print('{:s}: the property holds on this case (labels: {})'.format(pid, sorted(ctx.labels)))
        return 0
    print('  ' + msg)
    print('VIOLATION property={:s} replay={:s}'.format(pid, path))
    return 1
