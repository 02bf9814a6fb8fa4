#!/usr/bin/env python3
"""Development aid: run checks against a patched copy of /repo, in a scratch directory (never used by a registered check).
usage: trymut.py [-t] PATCH [ID...]     PATCH: a diff file, or 'sed:FILE:::OLD:::NEW'; -t also builds and runs the stable tests"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

args = sys.argv[1:]
tests = '-t' in args
args = [a for a in args if a != '-t']
patch, ids = args[0], args[1:]
if not ids:
    ids = [c['property'] if 'property' in c else c['id'] for c in json.load(open('/verif/MANIFEST.json'))['checks']]
d = tempfile.mkdtemp(prefix='m', dir='/tmp/mut')
try:
    subprocess.check_call(['rsync', '-a', '--exclude', '.git', '--exclude', 'target', '/repo', d] if shutil.which('rsync') else
                          ['bash', '-c', 'mkdir %s/repo && cd /repo && tar cf - --exclude=./.git --exclude=./target . | tar xf - -C %s/repo' % (d, d)])
    if patch.startswith('sed:'):
        f, old, new = patch[4:].split(':::')
        p = os.path.join(d, 'repo', f)
        s = open(p).read()
        if old not in s:
            sys.exit('pattern not found')
        open(p, 'w').write(s.replace(old, new, 1))
    elif patch != 'none':
        r = subprocess.run(['git', 'apply', '--unsafe-paths', '--directory', d + '/repo', os.path.abspath(patch)], cwd='/', capture_output=True, text=True)
        if r.returncode:
            r = subprocess.run(['patch', '-p1', '-i', os.path.abspath(patch)], cwd=d + '/repo', capture_output=True, text=True)
            if r.returncode:
                sys.exit('patch does not apply: ' + r.stdout + r.stderr)
    subprocess.check_call(['bash', '-c', 'mkdir %s/verif && cd /verif && tar cf - --exclude=./.git --exclude=./seeded --exclude=./evidence . | tar xf - -C %s/verif; mkdir -p %s/verif/evidence' % (d, d, d)])
    for f in ('engine/dump.py', 'probe/Cargo.toml'):
        p = os.path.join(d, 'verif', f)
        s = open(p).read().replace("'/repo'", "'%s/repo'" % d).replace('"/repo"', '"%s/repo"' % d)
        open(p, 'w').write(s)
    for i in ids:
        r = subprocess.run(['python3', d + '/verif/check.py', i, 'quick'], capture_output=True, text=True)
        lines = [l[:260] for l in r.stdout.splitlines() if not l.startswith('KNOWN')]
        print(i, 'exit', r.returncode, '|', '; '.join(lines[:3])[:700], r.stderr[-int(os.environ.get("N","300")):])
finally:
    print(d) if os.environ.get('KEEP') else shutil.rmtree(d)
