#!/opt/venv/bin/python
"""
Usage: run.py <PROPERTY> [--tier quick|thorough] [--seed N] [--replay FILE]
"""
import argparse
import os
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('FPV_REPO', '/repo')
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(REPO, 'src'))
# Hypothesis (pure python, same interpreter version) lives in the tooling venv: last resort only
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')


def main():
    p = argparse.ArgumentParser()
    p.add_argument('property')
    p.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    p.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
    p.add_argument('--replay')
    p.add_argument('--shard', type=int)
    p.add_argument('--nshards', type=int)
    p.add_argument('--out')
    a = p.parse_args()
    pid = a.property.upper()
    if pid == 'SELFTEST':
        # nothing to build: just make sure that everything can be imported
        import hypothesis
        from fpv import sut
        print('footprints from', os.path.dirname(sut.footprints.__file__), '- hypothesis', hypothesis.__version__)
        return 0
    from fpv import core
    if a.replay:
        return core.main_replay(pid, os.path.abspath(a.replay))
    if a.shard is not None:
        core.limits()
        core.run_shard(pid, a.tier, a.seed, a.shard, a.nshards, a.out)
        return 0
    return core.main_check(pid, a.tier, a.seed, a.nshards)


if __name__ == '__main__':
    sys.exit(main())
