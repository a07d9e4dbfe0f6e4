#!/usr/bin/env python3
"""Plant and confirm a bug:  mkseed.py SPEC.py...   (development tool)
SPEC defines ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (python source, exit 0 good / nonzero bad).
Confirms in a scratch copy: patch applies, builds, stable tests pass, demo 0 without and nonzero with the patch."""
import os, sys, json, shutil, subprocess, tempfile
VER = os.environ.get('SEED_ROOT', '/verif')


def run(cmd, cwd, timeout=900, env=None):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', TZ='UTC')
    e.update(env or {})
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode('utf8', 'replace')


def one(spec, tests=True):
    g = {}
    exec(compile(open(spec).read(), spec, 'exec'), g)
    d = os.path.join(VER, 'seeded', g['ID'])
    tmp = tempfile.mkdtemp(prefix='seed-', dir='/tmp')
    try:
        wt = os.path.join(tmp, 'repo')
        subprocess.check_call(['git', 'clone', '-q', os.environ.get('SEED_REPO', '/repo'), wt])
        if os.path.isdir('/repo/tests/samples') and not os.path.isdir(wt + '/tests/samples'):
            shutil.copytree('/repo/tests/samples', wt + '/tests/samples')
        os.makedirs(d, exist_ok=True)
        open(d + '/demo.py', 'w').write(g['DEMO'])
        open(d + '/demo.sh', 'w').write('#!/bin/sh\n# run with the repository as working directory\nhere="$(cd "$(dirname "$0")" && pwd)"\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD/src" exec timeout 250 python3 -B "$here/demo.py"\n')
        os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': g['PROPERTY'], 'needs': g['NEEDS'], 'what_it_breaks': g['BREAKS']}, open(d + '/meta.json', 'w'), indent=1)
        rc, out = run(['bash', d + '/demo.sh'], wt)
        if rc != 0:
            return 'demo fails on clean tree: ' + out[-600:]
        for fn, old, new in g['EDITS']:
            p = os.path.join(wt, 'src/aaf2', fn)
            s = open(p).read()
            if s.count(old) != 1:
                return 'edit matches %d times: %r' % (s.count(old), old[:80])
            base = open('/tmp/base/src/aaf2/' + fn).read() if os.path.isdir('/tmp/base') else None
            for line in old.splitlines():
                if base is not None and line not in new.splitlines() and line not in base.splitlines():
                    return 'not an original line: %r' % line
            open(p, 'w').write(s.replace(old, new))
        rc, diff = run(['git', 'diff'], wt)
        open(d + '/patch.diff', 'w').write(diff)
        rc, out = run(['bash', d + '/demo.sh'], wt)
        if rc == 0:
            return 'demo passes with the bug'
        demo_out = out[-200:]
        if tests:
            rc, out = run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '--timeout=120', 'tests'], wt,
                          env={'PYTHONPATH': wt + '/src:' + wt + '/tests'})
            if rc != 0:
                return 'tests fail: ' + out[-800:]
        return 'ok  (%s)' % demo_out.strip().splitlines()[-1:] 
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


for s in sys.argv[1:]:
    if s.startswith('-'):
        continue
    print(s, one(s, tests='--notests' not in sys.argv), flush=True)
