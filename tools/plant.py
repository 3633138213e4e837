#!/opt/venv/bin/python
"""
Development tool: confirm planted bugs and write them under /verif/seeded.

    plant.py DEFS.py [ID ...]          confirm and write
    plant.py --run CHECKS [ID ...]     run the property's own check (or CHECKS) against each planted bug

DEFS.py provides ``PLANTS``: a list of dict(id, property, edits=[(file, old, new)...], needs, breaks, demo).
Each edit must replace original lines of the repository (not those of later "fix:" commits).
"""
import json
import os
import re
import runpy
import shutil
import subprocess
import sys
import textwrap

HERE = os.path.dirname(os.path.abspath(__file__))
SEEDED = os.path.join(os.path.dirname(HERE), 'seeded')
BASE = '1be2429'
HEAD = '''#!/usr/bin/env python
"""{doc}"""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.getcwd(), 'src'))
'''
SH = '''#!/bin/bash
# Exits 0 when the behaviour is right, 1 otherwise (run with the repository as the current directory)
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''


def sh(*cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


def copy_of(path):
    shutil.rmtree(path, ignore_errors=True)
    subprocess.check_call(['git', 'clone', '-q', '/repo', path])
    for extra in ('src/footprints.egg-info', ):
        if os.path.exists('/repo/' + extra):
            shutil.copytree('/repo/' + extra, os.path.join(path, extra), dirs_exist_ok=True)


def original_lines(path, patch):
    """True if every line removed by the patch is an original one (and there is at least one)."""
    cur, n, bad = None, 0, []
    blame = {}
    for line in patch.splitlines():
        if line.startswith('--- a/'):
            cur = line[6:]
            out = sh('git', '-C', path, 'blame', '-s', BASE + '..HEAD', '--', cur).stdout.splitlines()
            blame = {i + 1: l.startswith('^') for i, l in enumerate(out)}
        elif line.startswith('@@'):
            pos = int(re.match(r'@@ -(\d+)', line).group(1))
        elif line.startswith('-') and not line.startswith('---'):
            n += 1
            if not blame[pos]:
                bad.append((cur, pos, line))
            pos += 1
        elif line.startswith(' '):
            pos += 1
    return n, bad


def tests_ok(path):
    import xml.etree.ElementTree as ET
    base = json.load(open('/opt/vp/BASELINE.json'))
    env = dict(os.environ, PYTHONPATH=os.path.join(path, 'src'), PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
               LANG='C.UTF-8', TZ='UTC')
    xml = path + '.junit.xml'
    sh('/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout=300', '-o',
       'junit_family=xunit2', '--junitxml=' + xml, cwd=path, env=env)
    passed = set()
    for case in ET.parse(xml).iter('testcase'):
        if not len([k for k in case if k.tag in ('failure', 'error', 'skipped')]):
            passed.add(case.get('classname') + '::' + case.get('name'))
    os.unlink(xml)
    missing = set(base['stable']) - passed
    return not missing, sorted(missing)


def plant(p, work='/tmp/seedrepo'):
    copy_of(work)
    for f, old, new in p['edits']:
        full = os.path.join(work, 'src/footprints', f)
        s = open(full).read()
        if s.count(old) != 1:
            return 'edit found {:d} times in {:s}: {!r}'.format(s.count(old), f, old)
        with open(full, 'w') as fh:
            fh.write(s.replace(old, new))
    patch = sh('git', '-C', work, 'diff').stdout
    n, bad = original_lines(work, patch)
    if bad or not n:
        return 'not original: {}'.format(bad or 'nothing removed')
    ok, why = tests_ok(work)
    if not ok:
        return 'killed by the tests: {}'.format(why)
    dest = os.path.join(SEEDED, p['id'])
    os.makedirs(dest, exist_ok=True)
    with open(os.path.join(dest, 'patch.diff'), 'w') as fh:
        fh.write(patch)
    with open(os.path.join(dest, 'demo.sh'), 'w') as fh:
        fh.write(SH)
    os.chmod(os.path.join(dest, 'demo.sh'), 0o755)
    with open(os.path.join(dest, 'demo.py'), 'w') as fh:
        fh.write(HEAD.format(doc=p['breaks'].replace('"""', "'''")) + '\n' + textwrap.dedent(p['demo']).strip() + '\n')
    with open(os.path.join(dest, 'meta.json'), 'w') as fh:
        json.dump(dict(property=p['property'], needs=p['needs'], what_it_breaks=p['breaks']), fh, indent=1)
        fh.write('\n')
    for where, want in (('/repo', True), (work, False)):
        r = sh('bash', os.path.join(dest, 'demo.sh'), cwd=where, timeout=300)
        if (r.returncode == 0) != want:
            shutil.rmtree(dest)
            return 'demo in {:s}: {:d}\n{:s}'.format(where, r.returncode, (r.stdout + r.stderr)[-1500:])
    return None


def run(ids, checks=None, seeds=(1, ), work='/tmp/seedrun'):
    for i in ids:
        meta = json.load(open(os.path.join(SEEDED, i, 'meta.json')))
        copy_of(work)
        subprocess.check_call(['git', '-C', work, 'apply', os.path.join(SEEDED, i, 'patch.diff')])
        for pid in (checks or [meta['property']]):
            for seed in seeds:
                r = sh('/opt/venv/bin/python', os.path.join(os.path.dirname(HERE), 'run.py'), pid, '--tier', 'quick',
                       '--seed', str(seed), env=dict(os.environ, FPV_REPO=work))
                lines = r.stdout.strip().splitlines()
                print('{:32s} {:s} seed={:d} {:s} {:s}'.format(
                    i, pid, seed, {0: 'MISSED', 1: 'caught'}.get(r.returncode, 'rc=%d' % r.returncode),
                    lines[-2].strip()[:150] if r.returncode == 1 else lines[-1][:200] if lines else ''), flush=True)


def main():
    args = sys.argv[1:]
    if args[0] == '--run':
        checks = [c for c in args[1].split(',') if c.startswith('C')]
        seeds = [int(c) for c in args[1].split(',') if c.isdigit()] or [1]
        run(args[2:] or sorted(os.listdir(SEEDED)), checks, seeds)
        return
    plants = runpy.run_path(args[0])['PLANTS']
    for p in plants:
        if args[1:] and p['id'] not in args[1:]:
            continue
        err = plant(p)
        print('{:32s} {:s}'.format(p['id'], 'planted' if err is None else 'REFUSED ' + err), flush=True)


if __name__ == '__main__':
    main()
