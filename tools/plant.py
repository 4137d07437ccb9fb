"""plant.py SPECFILE [id ...]: makes seeded/<id>/ from specs and verifies them.

A spec is a dict: id, property, edits [(file, old, new)], needs, breaks, demo (python source; exit status
nonzero on failure), also (other checks to run).  Works in /repo with the change applied, and undoes it.
"""
import json, os, re, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = '/repo'
PRE = '''import sys, os, tempfile, shutil
sys.path.insert(0, os.getcwd())
sys.dont_write_bytecode = True
import warnings; warnings.simplefilter('ignore')
import numpy as np
import sympl
from sympl import *  # noqa
''' if False else '''import os, shutil, sys, tempfile, warnings
sys.path.insert(0, os.getcwd())
sys.dont_write_bytecode = True
warnings.simplefilter('ignore')
import numpy as np
import sympl
from sympl import DataArray, TendencyComponent, ImplicitTendencyComponent, DiagnosticComponent, Stepper
from datetime import timedelta
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def demo(d):
    p = sh('cd %s && timeout 280 bash %s/demo.sh' % (R, d))
    return p.returncode, p.stdout[-400:]


def clean():
    sh('git -C %s checkout -- .' % R)


def base_lines_only(patch):
    """Every hunk removes at least one line, and all removed lines are of the first commit."""
    f = None
    base = sh('git -C %s rev-list --max-parents=0 HEAD' % R).stdout.strip()
    for line in patch.splitlines():
        if line.startswith('--- a/'):
            f = line[6:]
            blame = [b.lstrip('^')[:30] for b in sh('git -C %s blame -s -l HEAD -- %s' % (R, f)).stdout.splitlines()]
        m = re.match(r'@@ -(\d+)', line)
        if m:
            n = int(m.group(1))
        elif f and line.startswith('-') and not line.startswith('---'):
            if not base.startswith(blame[n - 1]):
                return 'line %d of %s is not original: %s' % (n, f, line)
            n += 1
        elif f and line.startswith(' '):
            n += 1
    if not re.search(r'^-(?!--)', patch, re.M):
        return 'removes nothing'
    return None


def main():
    specs = {}
    exec(open(sys.argv[1]).read(), specs)
    only = sys.argv[2:]
    assert not sh('git -C %s status --short' % R).stdout, 'dirty /repo'
    for s in specs['SPECS']:
        if only and s['id'] not in only:
            continue
        d = os.path.join(V, 'seeded', s['id'])
        os.makedirs(d, exist_ok=True)
        try:
            for f, old, new in s['edits']:
                t = open(os.path.join(R, f)).read()
                assert t.count(old) == 1, (s['id'], f, t.count(old))
                open(os.path.join(R, f), 'w').write(t.replace(old, new))
            patch = sh('git -C %s diff' % R).stdout
            open(d + '/patch.diff', 'w').write(patch)
            open(d + '/demo.py', 'w').write(PRE + s['demo'])
            open(d + '/demo.sh', 'w').write('#!/bin/bash\nexec env MPLBACKEND=Agg /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
            bad = base_lines_only(patch)
            rc, out = demo(d)
            sh('bash /opt/vp/build.sh')
            sh('bash /opt/vp/test.sh /tmp/plant/o.json')
            o = json.load(open('/tmp/plant/o.json'))
            base = json.load(open('/opt/vp/BASELINE.json'))['stable']
            lost = [x for x in base if x not in set(o['passed'])]
            caught = []
            if not bad and rc and not lost:
                for c in [s['property']] + s.get('also', []):
                    p = sh('%s/bin/check %s quick' % (V, c))
                    if p.returncode == 1 and 'VIOLATION property=%s' % c in p.stdout:
                        caught.append(c)
                    elif p.returncode:
                        print('   check', c, 'status', p.returncode, p.stdout[-300:])
        finally:
            clean()
        rc0, out0 = demo(d)
        ok = not bad and rc and not lost and rc0 == 0
        print(s['id'], 'OK' if ok else 'REJECTED', 'caught by', caught if ok else '',
              '' if ok else (bad, 'demo', rc, rc0, out0 if rc0 else '', 'lost', lost[:3]), flush=True)
        if ok:
            json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks'], 'caught_by': caught},
                      open(d + '/meta.json', 'w'), indent=1)
        else:
            if rc:
                print(out)
            sh('rm -rf -- %s' % d)


main()
