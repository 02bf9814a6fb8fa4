#!/usr/bin/env python3
"""Development aid: random mutation campaign (never used by a registered check).
usage: mutate.py SEED COUNT WORKERS OUT.jsonl [FILE_SUBSTRING]     mutants that build and pass the stable tests are run against every registered check"""
import json, os, random, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
seed, count, W, out = int(sys.argv[1]), int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
only = sys.argv[5] if len(sys.argv) > 5 else ''
rnd = random.Random(seed)
SWAPS = [('gas_price', 'gas_limit'), ('sender', 'recipient'), ('owner', 'recipient'), ('amount', 'nonce'), ('val', 'gas'), ('ra', 'rb'), ('rc', 'rd'),
         ('predicate_data', 'predicate'), ('script_data', 'script'), ('inputs', 'outputs'), ('balance_root', 'state_root'), ('max_inputs', 'max_outputs'),
         ('is_some', 'is_none'), ('any', 'all'), ('pc', 'is'), ('to', 'id'), ('checked_add', 'checked_sub'), ('min', 'max'), ('true', 'false'),
         ('CoinSigned', 'CoinPredicate'), ('MessageSigned', 'MessagePredicate'), ('Coin', 'Change'), ('Change', 'Variable'), ('witness_index', 'input_index'),
         ('salt', 'root'), ('storage_slots', 'witnesses'), ('contract_id', 'tx_id'), ('asset_id', 'contract_id'), ('reason', 'result'), ('max_predicate_length', 'max_predicate_data_length'),
         ('max_script_length', 'max_script_data_length'), ('block_height', 'tx_index'), ('is_coin', 'is_message'), ('digest', 'data'), ('bytes', 'limit')]
OPS = [('<', '<='), ('<=', '<'), ('>', '>='), ('>=', '>'), ('==', '!='), ('!=', '=='), ('&&', '||'), ('||', '&&'), ('+', '-'), ('-', '+'), ('*', '+'), ('+=', '-=')]


def sources():
    r = []
    for d, _, fs in os.walk('/repo/src'):
        for f in fs:
            p = os.path.join(d, f)
            if f.endswith('.rs') and only in p:
                r.append(p)
    return sorted(r)


def sites():
    res = []
    for p in sources():
        s = open(p).read()
        m = re.search(r'mod tests? \{|#\[test\]', s)
        end = m.start() if m else len(s)
        pos = 0
        for line in s[:end].splitlines(True):
            st = line.strip()
            a, pos = pos, pos + len(line)
            if not st or st.startswith(('//', '#', 'use ', 'pub use', 'mod ', 'pub mod', 'impl', 'where', 'pub fn', 'fn ', 'pub(crate) fn', 'pub struct', 'pub enum', 'pub trait')):
                continue
            for o, n in OPS:
                for q in re.finditer(r'(?<= )' + re.escape(o) + r'(?= )', line):
                    res.append((p, a + q.start(), o, n))
            for x, y in SWAPS:
                for u, v in ((x, y), (y, x)):
                    for q in re.finditer(r'\b%s\b' % u, line):
                        res.append((p, a + q.start(), u, v))
            for q in re.finditer(r'\b\d+\b(?!:)', line):
                k = int(q.group())
                res.append((p, a + q.start(), q.group(), str(k + 1)))
                if k:
                    res.append((p, a + q.start(), q.group(), str(k - 1)))
            if st.endswith(';') and not st.startswith(('let', 'return', 'const', 'type', 'pub', '}', ')', '.', 'break', 'continue')):
                res.append((p, a, line, ''))
                res.append((p, a, line, ''))
            if st.startswith('| ') and st.endswith(('}', '..} =>', ')', '} => {')):
                res.append((p, a, line, ''))
            for q in re.finditer(r'\.iter\(\)', line):
                res.append((p, a + q.start(), '.iter()', '.iter().skip(1)'))
                res.append((p, a + q.start(), '.iter()', '.iter().take(1)'))
                res.append((p, a + q.start(), '.iter()', '.iter().rev()'))
            for q in re.finditer(r'\((\w+), (\w+)\)', line):
                if q.group(1) != q.group(2):
                    res.append((p, a + q.start(), q.group(), '(%s, %s)' % (q.group(2), q.group(1))))
            for q in re.finditer(r'\?;', line):
                res.append((p, a + q.start(), '?;', '.ok();'))
            q = re.match(r'\s*if (.*) \{$', line)
            if q and 'let ' not in line:
                res.append((p, a, line, line.replace('if ' + q.group(1), 'if false && (%s)' % q.group(1))))
                res.append((p, a, line, line.replace('if ' + q.group(1), 'if !(%s)' % q.group(1))))
    return res


def setup(w):
    d = '/tmp/mut/w%d' % w
    if not os.path.isdir(d):
        os.makedirs(d)
        subprocess.check_call('cp -a /repo %s/repo; mkdir %s/verif; cd /verif && tar cf - --exclude=./.git --exclude=./seeded --exclude=./evidence . | tar xf - -C %s/verif; mkdir -p %s/verif/evidence' % (d, d, d, d), shell=True)
    else:
        subprocess.check_call('cd %s/repo && git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD; cd /verif && tar cf - --exclude=./.git --exclude=./.cache --exclude=./seeded --exclude=./evidence . | tar xf - -C %s/verif' % (d, d), shell=True)
    if not os.path.islink(d + '/fuel-tx'):
        os.symlink(d + '/repo', d + '/fuel-tx')
    for f in ('engine/dump.py', 'probe/Cargo.toml'):
        p = '%s/verif/%s' % (d, f)
        s = open(p).read().replace("'/repo'", "'%s/repo'" % d).replace('"/repo"', '"%s/repo"' % d)
        open(p, 'w').write(s)
    return d


ids = [c['property'] if 'property' in c else c['id'] for c in json.load(open('/verif/MANIFEST.json'))['checks']]
base = json.load(open('/opt/vp/BASELINE.json'))
sfx = lambda x: x.rsplit('.rs', 1)[-1]


def passed(o):
    for k in ('stable', 'passed', 'pass', 'tests'):
        if isinstance(o, dict) and k in o:
            v = o[k]
            return set(v if isinstance(v, list) else [a for a, b in v.items() if b in ('pass', 'passed', True)])
    return set(o)


def one(w, job):
    p, off, old, new = job
    d = '/tmp/mut/w%d' % w
    f = p.replace('/repo', d + '/repo', 1)
    src = open(p).read()
    assert src[off:off + len(old)] == old
    open(f, 'w').write(src[:off] + new + src[off + len(old):])
    R = d + '/repo'
    env = dict(os.environ, RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true', CARGO_INCREMENTAL='1', RUSTC_WRAPPER='', INSTA_UPDATE='no',
               CARGO_PROFILE_DEV_DEBUG='line-tables-only', CARGO_TARGET_DIR=R + '/target', CARGO_TERM_COLOR='never', CARGO_BUILD_JOBS='3')
    env.pop('VERIF_DEBUG', None)

    def sh(c, t=400):
        try:
            return subprocess.run(c, shell=True, cwd=R, env=env, capture_output=True, text=True, timeout=t)
        except subprocess.TimeoutExpired:
            return None
    try:
        diff = sh('git diff -U0').stdout
        r = sh('cargo check --manifest-path ../fuel-tx/Cargo.toml --offline --all-features')
        if r is None or r.returncode:
            return None
        for feat in ('', 'alloc', 'serde'):
            r = sh('cargo check --manifest-path ../fuel-tx/Cargo.toml --lib --no-default-features --features "%s" --offline' % feat)
            if r is None or r.returncode:
                return None
        r = sh('cargo test --manifest-path ../fuel-tx/Cargo.toml --workspace --all-features --no-fail-fast --offline -- --test-threads 4')
        if r is None:
            return {'diff': diff, 'state': 'killed'}
        open(d + '/test.log', 'w').write(r.stdout + r.stderr)
        subprocess.run(['python3', '/opt/vp/results.py', d + '/out.json', 'cargo:' + d + '/test.log'], capture_output=True)
        o = json.load(open(d + '/out.json'))
        if set(map(sfx, passed(base))) - set(map(sfx, passed(o))):
            return {'diff': diff, 'state': 'killed'}
        r = subprocess.run("cd %s/verif && printf '%%s\\n' %s | xargs -P 3 -I{} sh -c 'timeout 850 python3 check.py {} > out-{}.txt 2>&1; echo $? > rc-{}.txt'" % (d, ' '.join(ids)),
                           shell=True, env=env, capture_output=True, text=True)
        res = {}
        for i in ids:
            rc = open('%s/verif/rc-%s.txt' % (d, i)).read().strip()
            t = open('%s/verif/out-%s.txt' % (d, i)).read()
            und = re.search(r'(\d+) undecided', t)
            if rc != '0' or und and und.group(1) != '0':
                res[i] = [int(rc), int(und.group(1)) if und else -1]
        return {'diff': diff, 'state': 'survived', 'checks': res, 'caught': [i for i in res if res[i][0] == 1], 'broken': [i for i in res if res[i][0] not in (0, 1)]}
    finally:
        open(f, 'w').write(src)


all_ = sites()
rnd.shuffle(all_)
done = set()
if os.path.exists(out):
    done = set(json.loads(l)['job'] for l in open(out))
all_ = [j for j in all_ if '%s:%d:%s' % (j[0], j[1], j[3]) not in done][:count]
print(len(all_), 'jobs', flush=True)
with ThreadPoolExecutor(W) as ex:
    list(ex.map(setup, range(W)))
import queue, threading
q = queue.Queue()
for j in all_:
    q.put(j)
lock = threading.Lock()


def work(w):
    while True:
        try:
            j = q.get_nowait()
        except queue.Empty:
            return
        try:
            r = one(w, j)
        except Exception as e:
            r = {'state': 'error', 'e': repr(e)}
        with lock:
            with open(out, 'a') as fh:
                fh.write(json.dumps(dict(r or {'state': 'nobuild'}, job='%s:%d:%s' % (j[0], j[1], j[3]))) + '\n')


ts = [threading.Thread(target=work, args=(w,)) for w in range(W)]
[t.start() for t in ts]
[t.join() for t in ts]
