#!/usr/bin/env python3
"""Runs the checks on behaviour-preserving refactorings (seedsrc/quiet.py) in scratch copies; every check has to exit 0."""
import os, sys, subprocess, shutil, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'seedsrc'))
import quiet
bad = 0
for name, props, edits in quiet.R:
    if sys.argv[1:] and name not in sys.argv[1:]: continue
    w = tempfile.mkdtemp(prefix='quiet_', dir='/tmp')
    try:
        subprocess.run('cp -a /repo/src /repo/data %s/' % w, shell=True, check=True)
        for f, old, new in edits:
            p = os.path.join(w, f); t = open(p).read()
            assert t.count(old) == 1, (name, f, t.count(old), old[:80])
            open(p, 'w').write(t.replace(old, new))
        for pr in props:
            s = time.time()
            r = subprocess.run(['timeout', '900', 'python3-vt', os.path.join(V, 'vcg/check.py'), pr, '--tier', 'quick'], env=dict(os.environ, VERIF_REPO=w, VERIF_EVIDENCE=w), cwd=V, capture_output=True, text=True)
            ok = r.returncode == 0
            bad += not ok
            print(name, pr, 'quiet' if ok else 'NOT QUIET rc=%d' % r.returncode, '%ds' % (time.time() - s), flush=True)
            if not ok: print('\n'.join((r.stdout + r.stderr).strip().split('\n')[-6:])[:1500], flush=True)
    finally: shutil.rmtree(w)
sys.exit(bad > 0)
