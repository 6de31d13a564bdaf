"""Builds the driver and dumps the MIR of probe binaries together with /repo's current source."""
import fcntl
import hashlib
import json
import os
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, '.build')
HOME = os.environ.get('HOME', '/root')
RUSTUP = os.environ.get('RUSTUP_HOME', '/root/.rustup')
NIGHTLY = os.path.join(RUSTUP, 'toolchains', 'nightly-x86_64-unknown-linux-gnu')
DRIVER = os.path.join(BUILD, 'driver', 'debug', 'srv-driver')


class BuildError(Exception):
    def __init__(self, what, log):
        Exception.__init__(self, what)
        self.what, self.log = what, log


def base_env():
    env = {k: v for k, v in os.environ.items() if not k.startswith('CARGO') and not k.startswith('RUST')}
    for k in ('CARGO_HOME', 'RUSTUP_HOME'):
        if k in os.environ:
            env[k] = os.environ[k]
    env['PATH'] = '/root/.cargo/bin:' + env.get('PATH', '')
    env['HOME'] = HOME
    env['CARGO_NET_OFFLINE'] = 'true'
    env['CARGO_TERM_COLOR'] = 'never'
    env['RUST_BACKTRACE'] = '0'
    return env


def lock(name):
    os.makedirs(BUILD, exist_ok=True)
    f = open(os.path.join(BUILD, name + '.lock'), 'w')
    fcntl.flock(f, fcntl.LOCK_EX)
    return f


def tree_hash(*paths):
    h = hashlib.sha256()
    for p in paths:
        if os.path.isdir(p):
            for d, ds, fs in os.walk(p):
                ds.sort()
                ds[:] = [x for x in ds if x not in ('target', '.git')]
                for f in sorted(fs):
                    q = os.path.join(d, f)
                    h.update(q.encode())
                    h.update(open(q, 'rb').read())
        else:
            h.update(p.encode())
            h.update(open(p, 'rb').read())
    return h.hexdigest()


def run(cmd, env, cwd, timeout=600):
    p = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode(errors='replace')


def driver():
    src = os.path.join(VERIF, 'driver')
    stamp = os.path.join(BUILD, 'driver.stamp')
    with lock('driver'):
        h = tree_hash(os.path.join(src, 'src'), os.path.join(src, 'Cargo.toml'))
        if os.path.exists(DRIVER) and os.path.exists(stamp) and open(stamp).read() == h:
            return
        env = base_env()
        rc, out = run(['cargo', '+nightly', 'build', '--offline', '--target-dir', os.path.join(BUILD, 'driver')], env, src)
        if rc:
            raise BuildError('driver does not build', out)
        open(stamp, 'w').write(h)


def index(path):
    """Roots, reach() labels and prove() rules of a dump, beside it"""
    d = json.load(open(path))
    allocs = {a['id']: a for a in d['allocs']}
    names = {f['id']: f['name'] for f in d['fns']}

    def text(o):
        if o[0] != 'k' or not isinstance(o[2], dict) or not o[2]['p']:
            return None
        n = int.from_bytes(bytes.fromhex(o[2]['b'])[8:16], 'little')
        ini = allocs[o[2]['p'][0][1]].get('init')
        return bytes.fromhex(ini['b'])[:n].decode() if ini else None
    reach, rules = set(), set()
    for f in d['fns']:
        for stmts, term in f.get('blocks', ()):
            if term[0] == 'call' and isinstance(term[1], int):
                n = names[term[1]]
                if n == 'probe::reach':
                    reach.add(text(term[2][0]))
                elif n in ('probe::prove', 'probe::fail', 'probe::bytes_eq', 'probe::snap_eq'):
                    rules.add(text(term[2][0]))
    with open(path[:-5] + '.idx', 'w') as f:
        json.dump({'roots': [r.split('::', 1)[1] for r in sorted(d['roots'], key=lambda r: d['roots'][r])],
                   'reach': sorted(reach - {None}), 'rules': sorted(rules - {None})}, f)


def idx(path):
    p = path[:-5] + '.idx'
    if not os.path.exists(p):
        index(path)
    return json.load(open(p))


def dump_dir(mode):
    return os.path.join(BUILD, 'mir-' + mode)


def dump(bins, mode):
    """Dump MIR of probe binaries. Returns {bin: path of dump or None}, log"""
    driver()
    pdir = os.path.join(VERIF, 'probe')
    target = os.path.join(BUILD, 'probe')
    out = dump_dir(mode)
    env = base_env()
    env['LD_LIBRARY_PATH'] = os.path.join(NIGHTLY, 'lib')
    env['RUSTUP_TOOLCHAIN'] = '1.70.0'
    env['RUSTC'] = DRIVER
    env['SRV_RUSTC'] = os.path.join(NIGHTLY, 'bin', 'rustc')
    env['SRV_DUMP_CRATES'] = ','.join(bins)
    env['SRV_INVENTORY_CRATES'] = 'ser_raw,derive,derived,canary'
    env['SRV_DUMP_DIR'] = out
    env['RUSTFLAGS'] = '-Zallow-features= -Zalways-encode-mir -Zmir-opt-level=0 -Awarnings'
    env['CARGO_TARGET_DIR'] = target
    with lock('probe-' + mode):
        os.makedirs(out, exist_ok=True)
        # Never trust cargo's freshness for anything made from /repo or for probes
        h = tree_hash('/repo/ser_raw', '/repo/ser_raw_derive', '/repo/ser_raw_derive_serializer', os.path.join(pdir, 'src'),
                      os.path.join(pdir, 'Cargo.toml'), os.path.join(VERIF, 'driver', 'src'))
        stamp = os.path.join(out, 'stamp')
        if not os.path.exists(stamp) or open(stamp).read() != h:
            for f in os.listdir(out):
                os.unlink(os.path.join(out, f))
            fp = os.path.join(target, 'debug' if mode == 'debug' else 'release', '.fingerprint')
            if os.path.isdir(fp):
                for d in os.listdir(fp):
                    if d.startswith('ser_raw') or d.startswith('probe'):
                        shutil.rmtree(os.path.join(fp, d))
            open(stamp, 'w').write(h)
        logs = ''
        res = {}
        todo = [b for b in bins if not os.path.exists(os.path.join(out, b + '.json'))]
        if todo:
            fp = os.path.join(target, 'debug' if mode == 'debug' else 'release', '.fingerprint')
            if os.path.isdir(fp):
                for d in os.listdir(fp):
                    if d.startswith('probe'):
                        shutil.rmtree(os.path.join(fp, d))
            cmd = ['cargo', 'check', '--offline']
            if mode == 'release':
                cmd.append('--release')
            rc, log = run(cmd + [x for b in todo for x in ('--bin', b)], env, pdir)
            logs += log
            if rc and len(todo) > 1:
                # Isolate
                for b in todo:
                    if not os.path.exists(os.path.join(out, b + '.json')):
                        rc, log = run(cmd + ['--bin', b], env, pdir)
                        logs += log
        for b in bins:
            p = os.path.join(out, b + '.json')
            res[b] = p if os.path.exists(p) else None
        return res, logs


if __name__ == '__main__':
    import time
    t = time.time()
    driver()
    print('driver %.1fs' % (time.time() - t))
    bins = sys.argv[1:]
    for m in ('debug', 'release'):
        r, log = dump(bins, m)
        print(m, r, '%.1fs' % (time.time() - t))
        if None in r.values():
            print(log)
