#!/usr/bin/env python3
"""Development aid: turn a planted change into /verif/seeded/<id> after confirming it (never used by a registered check).
usage: seed.py SPEC.py     SPEC defines id, prop, needs, breaks, edits=[(file, old, new)...], demo (Rust main), features='"builder"'"""
import json, os, subprocess, sys
S = '/tmp/seed/fuel-tx'
spec = {'features': '"builder", "internals", "random", "serde"'}
exec(open(sys.argv[1]).read(), spec)
env = dict(os.environ, RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true', CARGO_INCREMENTAL='1',
           CARGO_PROFILE_DEV_DEBUG='line-tables-only', RUSTC_WRAPPER='', INSTA_UPDATE='no', CARGO_TARGET_DIR=S + '/target', CARGO_TERM_COLOR='never')


def sh(c, **k):
    return subprocess.run(c, shell=True, cwd=S, env=env, capture_output=True, text=True, **k)


sh('git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD && git clean -fdq')
for f, old, new in spec['edits']:
    s = open(os.path.join(S, f)).read()
    if s.count(old) < 1:
        sys.exit('pattern not found in %s: %s' % (f, old))
    if s.count(old) > 1:
        sys.exit('pattern not unique in %s: %s' % (f, old))
    open(os.path.join(S, f), 'w').write(s.replace(old, new, 1))
diff = sh('git diff').stdout
r = sh('cargo test --workspace --all-features --no-fail-fast --offline -- --test-threads 8')
open('/tmp/seed/test.log', 'w').write(r.stdout + r.stderr)
r2 = subprocess.run(['python3', '/opt/vp/results.py', '/tmp/seed/out.json', 'cargo:/tmp/seed/test.log'], capture_output=True, text=True)
base = json.load(open('/opt/vp/BASELINE.json'))
out = json.load(open('/tmp/seed/out.json'))


def passed(o):
    for k in ('stable', 'passed', 'pass', 'stable', 'tests'):
        if isinstance(o, dict) and k in o:
            v = o[k]
            return set(v if isinstance(v, list) else [a for a, b in v.items() if b in ('pass', 'passed', True)])
    return set(o)


sfx = lambda x: x.rsplit('.rs', 1)[-1]
miss = set(map(sfx, passed(base))) - set(map(sfx, passed(out)))
print('tests:', len(passed(out)), 'passed; missing from baseline:', sorted(miss)[:5])
for feat in ('', 'alloc', 'serde'):
    r = sh('cargo check --lib --no-default-features --features "%s" --offline' % feat)
    if r.returncode:
        print('check fails with', feat, r.stderr[-500:])
        miss.add('build')
D = '/verif/seeded/' + spec['id']
T = '/tmp/seed/d-' + spec['id']
os.makedirs(T, exist_ok=True)
open(T + '/demo.rs', 'w').write(spec['demo'])
open(T + '/demo.sh', 'w').write(open('/verif/tools/demo_template.sh').read().replace('FEATURES', spec['features']))
os.chmod(T + '/demo.sh', 0o755)
rb = sh('bash %s/demo.sh' % T)
sh('git checkout -q -f HEAD')
rc = sh('bash %s/demo.sh' % T)
print('demo patched:', rb.returncode, (rb.stdout + rb.stderr)[-300:].strip())
print('demo clean:', rc.returncode, (rc.stdout + rc.stderr)[-600:].strip() if rc.returncode else '')
ok = not miss and rc.returncode == 0 and rb.returncode not in (0, 98, 99)
if ok:
    os.makedirs(D, exist_ok=True)
    for f in ('demo.rs', 'demo.sh'):
        open(D + '/' + f, 'w').write(open(T + '/' + f).read())
    os.chmod(D + '/demo.sh', 0o755)
    open(D + '/patch.diff', 'w').write(diff)
    json.dump({'property': spec['prop'], 'needs': spec['needs'], 'what_it_breaks': spec['breaks']}, open(D + '/meta.json', 'w'), indent=1)
    print('KEPT', D)
else:
    print('NOT KEPT')
import shutil
shutil.rmtree(T)
