#!/usr/bin/env python3
"""run.py <PROPERTY> [--tier quick|thorough] [--repo DIR] [--jobs N] [--no-evidence]"""
import argparse
import os
import sys

PY = '/opt/venv/bin/python'
if os.path.exists(PY) and os.path.realpath(sys.executable) != os.path.realpath(PY) and not os.environ.get('SA_NOEXEC') \
        and sys.prefix != '/opt/venv':
    os.environ['SA_NOEXEC'] = '1'
    os.execv(PY, [PY] + sys.argv)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
from sa.check import main  # noqa

if __name__ == '__main__':
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--repo', default=None)
    ap.add_argument('--jobs', type=int, default=None)
    ap.add_argument('--no-evidence', action='store_true')
    a = ap.parse_args()
    sys.exit(main(a.pid, a.tier, a.repo, not a.no_evidence, a.jobs))
