#!/usr/bin/env python3
"""Plant bugs: seed.py SPEC.py [ID ...]; SPEC.py defines SEEDS = [dict(id, property, needs, breaks, edits=[(file, old, new)], demo)].
Confirms each one in a scratch copy of /repo (builds, stable tests pass, demo passes without and fails with the change), writes
/verif/seeded/<id>/ and prints what the property's check says."""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1')
BASE = {t if isinstance(t, str) else t['id'] for t in (lambda j: j.get('stable_pass') or j.get('passing') or j.get('tests') or [])(
    json.load(open('/opt/vp/BASELINE.json')))} if os.path.exists('/opt/vp/BASELINE.json') else set()


def sh(cmd, cwd, timeout=900):
    return subprocess.run(cmd, cwd=cwd, env=ENV, capture_output=True, text=True, timeout=timeout)


def main():
    ns = runpy.run_path(sys.argv[1])
    only = set(sys.argv[2:])
    for s in ns['SEEDS']:
        if only and s['id'] not in only:
            continue
        d = tempfile.mkdtemp(prefix='seed-', dir='/tmp')
        try:
            r = d + '/repo'
            subprocess.run(['cp', '-a', '/repo', r], check=True)
            demo = d + '/demo'
            os.mkdir(demo)
            with open(demo + '/demo.py', 'w') as fh:
                fh.write('import os\nimport sys\nsys.path.insert(0, os.getcwd())\n' + s['demo'].strip() + '\n')
            with open(demo + '/demo.sh', 'w') as fh:
                fh.write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nPY=/opt/venv/bin/python; [ -x $PY ] || PY=python3\n'
                         'exec $PY "$(dirname "$0")/demo.py"\n')
            a = sh(['bash', demo + '/demo.sh'], r)
            if a.returncode:
                print('%s: BAD demo fails on the clean tree\n%s' % (s['id'], (a.stdout + a.stderr)[-1500:]))
                continue
            pyx = False
            for f, old, new in s['edits']:
                p = os.path.join(r, f)
                t = open(p).read()
                assert t.count(old) == 1, '%s: %d matches in %s for %r' % (s['id'], t.count(old), f, old)
                open(p, 'w').write(t.replace(old, new))
                pyx |= f.endswith('.pyx')
            diff = sh(['git', 'diff'], r).stdout
            if pyx:
                for f, _, _ in s['edits']:
                    if f.endswith('.pyx'):
                        b = os.path.splitext(os.path.join(r, f))[0]
                        for x in os.listdir(os.path.dirname(b)):
                            if x.startswith(os.path.basename(b) + '.') and x.endswith(('.so', '.c')):
                                os.unlink(os.path.join(os.path.dirname(b), x))
                b = sh([PY, 'setup.py', 'build_ext', '--inplace'], r)
                if b.returncode:
                    print('%s: BAD build\n%s' % (s['id'], b.stderr[-1500:]))
                    continue
            b = sh(['bash', demo + '/demo.sh'], r)
            if not b.returncode:
                print('%s: BAD demo passes with the change' % s['id'])
                continue
            x = sh([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--no-cov', '-n', '8', '--timeout=300', 'tests'], r)
            tail = x.stdout.strip().splitlines()
            failed = [l for l in tail if l.startswith(('FAILED', 'ERROR'))]
            if failed:
                print('%s: BAD tests\n  %s' % (s['id'], '\n  '.join(failed[:5])))
                continue
            out = os.path.join(V, 'seeded', s['id'])
            shutil.rmtree(out, ignore_errors=True)
            os.makedirs(out)
            with open(out + '/patch.diff', 'w') as fh:
                fh.write(diff)
            shutil.copy(demo + '/demo.py', out)
            shutil.copy(demo + '/demo.sh', out)
            with open(out + '/meta.json', 'w') as fh:
                json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, fh, indent=1)
                fh.write('\n')
            c = subprocess.run(['python3', os.path.join(V, 'run.py'), s['property'], '--repo', r, '--no-evidence'], capture_output=True, text=True)
            print('%s: kept (%s; demo: %s); check %s rc=%d %s' % (
                s['id'], tail[-1] if tail else '?', (b.stderr.strip().splitlines() or ['?'])[-1][:100], s['property'], c.returncode,
                'CAUGHT' if c.returncode == 1 else 'MISSED'))
            for l in c.stdout.splitlines()[:4]:
                print('    ' + l[:260])
        finally:
            shutil.rmtree(d)
            sys.stdout.flush()


main()
