"""Builds the MIR dump of /repo's current working tree (through the probe crate), cached by content hash."""
import fcntl
import hashlib
import os
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
CACHE = os.path.join(VERIF, '.cache')
DESCEND = ';'.join(['crate:fuel_types', 'crate:fuel_crypto', 'core::option::Option', 'core::result::Result', 'core::convert', 'core::cmp', 'core::default',
                    'core::clone', 'core::bool', 'core::borrow', 'core::mem', '<T as core::convert', '<&T as core::convert', '<&mut T as core::convert', '<&mut T as core::borrow', '<&T as core::borrow', '<core::option', '<core::result',
                    'core::ops::control_flow', '<core::ops::control_flow'])


class BuildError(Exception):
    pass


def files(root, skip=()):
    out = []
    for d, ds, fs in os.walk(root):
        ds[:] = sorted(x for x in ds if x not in ('target', '.git', '.cache', '__pycache__') and os.path.join(d, x) not in skip)
        for f in sorted(fs):
            out.append(os.path.join(d, f))
    return out


def digest(paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode() + b'\0')
        try:
            with open(p, 'rb') as f:
                h.update(hashlib.sha256(f.read()).digest())
        except OSError:
            h.update(b'?')
    return h.hexdigest()[:24]


def sh(cmd, cwd, env, log):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    with open(log, 'w') as f:
        f.write(p.stdout)
    if p.returncode != 0:
        raise BuildError('%s failed (%d); tail of %s:\n%s' % (' '.join(cmd), p.returncode, log, p.stdout[-3000:]))
    return p.stdout


def repo_files():
    return [p for p in files(REPO) if p.endswith('.rs') or p.endswith('.toml') or p.endswith('.lock')]


def build_driver():
    os.makedirs(CACHE, exist_ok=True)
    drv = os.path.join(VERIF, 'driver')
    key = digest(files(drv))
    stamp = os.path.join(CACHE, 'driver.stamp')
    binp = os.path.join(CACHE, 'driver-target', 'debug', 'mirdump')
    if os.path.exists(binp) and os.path.exists(stamp) and open(stamp).read() == key:
        return binp, key
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(CACHE, 'driver-target'), CARGO_NET_OFFLINE='true')
    for k in ('RUSTFLAGS', 'RUSTC_WRAPPER', 'RUSTC_WORKSPACE_WRAPPER'):
        env.pop(k, None)
    sh(['cargo', '+nightly', 'build', '--offline'], drv, env, os.path.join(CACHE, 'driver.log'))
    with open(stamp, 'w') as f:
        f.write(key)
    return binp, key


def dump(config):
    """path of the JSON dump of the given configuration (full / plain / nostd)"""
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        binp, dk = build_driver()
        probe = os.path.join(VERIF, 'probe')
        key = hashlib.sha256((dk + digest(repo_files()) + digest(files(probe)) + DESCEND + config).encode()).hexdigest()[:24]
        out = os.path.join(CACHE, 'dump-%s-%s.json' % (config, key))
        if os.path.exists(out):
            return out
        sysroot = subprocess.run(['rustc', '+nightly', '--print', 'sysroot'], stdout=subprocess.PIPE, text=True).stdout.strip()
        tgt = os.path.join(CACHE, 'probe-target')
        tmp = out + '.tmp'
        env = dict(os.environ, CARGO_TARGET_DIR=tgt, CARGO_NET_OFFLINE='true', RUSTC_WORKSPACE_WRAPPER=binp, LD_LIBRARY_PATH=sysroot + '/lib',
                   RUSTFLAGS='-Zalways-encode-mir -Zmir-opt-level=0 -Awarnings', MIRDUMP_OUT=tmp, MIRDUMP_DESCEND=DESCEND)
        env.pop('RUSTC_WRAPPER', None)
        # the dump must be produced even when cargo considers the probe fresh
        if os.path.isdir(tgt):
            subprocess.run(['cargo', '+nightly', 'clean', '--offline', '-p', 'fuel-tx-probe', '-p', 'fuel-tx'], cwd=probe, env=env, stdout=subprocess.DEVNULL,
                           stderr=subprocess.DEVNULL)
        sh(['cargo', '+nightly', 'check', '--offline', '--no-default-features', '--features', config], probe, env, os.path.join(CACHE, 'probe-%s.log' % config))
        if not os.path.exists(tmp):
            raise BuildError('driver produced no dump for ' + config)
        for f in os.listdir(CACHE):
            if f.startswith('dump-%s-' % config) and f.endswith('.json'):
                os.unlink(os.path.join(CACHE, f))
        os.rename(tmp, out)
        return out


if __name__ == '__main__':
    for c in sys.argv[1:] or ['full']:
        print(dump(c))
