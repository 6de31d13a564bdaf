"""Structural rules: decided from the resolved program (inventories written by the driver), or by
whether the compiler accepts witness programs. Nothing is executed.

Each rule returns (number of obligations, violations, information for evidence).
"""
import hashlib
import json
import os
import re
import shutil
import subprocess
from concurrent.futures import ThreadPoolExecutor

import build

MODES = ('debug', 'release')

# ---------------------------------------------------------------------------------------------
# C16: effects
# ---------------------------------------------------------------------------------------------

# Parts of the library which hold or reach state outside of their arguments. Everything in crate
# `std` itself (as opposed to `core` and `alloc`) is denied if not listed in STD_PURE.
STD_PURE = re.compile(r'^std::(f32|f64|num|collections|path|ffi|ascii|error|alloc::\{impl|macros|keyword_docs|prelude'
                      r'|panic::(AssertUnwindSafe|\{impl)|panicking::(panic_count::is_zero_slow_path|begin_panic|rust_panic)'
                      r'|io::error::ErrorKind|sync::(mpsc::)?\{impl)')
CORE_DENIED = re.compile(r'^core::(core_arch::|arch::)|::_rdtsc|::__rdtscp')
LIBS = ('core', 'alloc')


def denied(what, local):
    """Why a function may not be referred to, or None"""
    path = what.split(' on ')[0]
    crate = path.split('::')[0].split('[')[0]
    if crate in local:
        return None
    if crate == 'num_bigint':
        return 'uses random number generator' if 'rand' in path.lower() else None
    if crate in LIBS:
        return 'reads state of processor' if CORE_DENIED.search(path) else None
    if crate == 'std':
        if 'RandomState' in what or 'random' in path or re.match(r'std::collections::hash::(map|set)::.*::(new|with_capacity)$', path):
            return 'reads random seed of thread'
        return None if STD_PURE.match(path) else 'reaches state of process or system'
    return 'is code of a crate which is not known to be free of effects'


def load_inv(name, mode):
    p = os.path.join(build.dump_dir(mode), name + '.inv')
    return json.load(open(p)) if os.path.exists(p) else None


def where(r):
    """Function, without the line number"""
    return r['in']


def effects_of(inv, local, derived_only):
    vs, n = [], 0
    crate = inv['crate']

    def bad(rule, site, msg):
        vs.append({'rule': 'C16: ' + rule, 'site': site, 'msg': msg})
    if not derived_only:
        for s in inv['statics']:
            n += 1
            if s['mut']:
                bad('static mut', s['name'], s['at'])
            elif s['tls']:
                bad('thread-local state', s['name'], s['at'])
            elif s['foreign']:
                bad('foreign static', s['name'], s['at'])
            elif not s['freeze']:
                bad('static with interior mutability', s['name'], s['at'])
        for f in inv['foreign']:
            n += 1
            bad('foreign item', f['name'], f['at'])
        for a in inv['autos']:
            n += len(a['fields'])
            if not a['fields']:
                bad('cannot tell what %s is implemented for' % a['trait'], a['for'], a['at'])
            for f in a['fields']:
                if not f['ok']:
                    bad('`%s` is implemented for a type with a field which is not' % a['trait'], '%s.%s' % (a['for'], f['name']),
                        'field of type %s, implementation at %s' % (f['ty'], a['at']))
    mutable = {s['name']: s for s in inv['statics'] if s['mut'] or s['tls'] or s['foreign'] or not s['freeze']}
    for r in inv['refs']:
        if derived_only and not r['derived']:
            continue
        n += 1
        if r['kind'] == 'fn':
            why = denied(r['what'], local)
            if why:
                bad('calls a function which ' + why, where(r), '%s at %s' % (r['what'], r['at']))
        elif r['kind'] == 'static':
            if r['what'] in mutable:
                bad('refers to shared mutable state', where(r), '%s at %s' % (r['what'], r['at']))
            elif r['what'].split('::')[0] not in local + LIBS:
                bad('refers to a static of another crate', where(r), '%s at %s' % (r['what'], r['at']))
        else:
            bad(r['kind'], where(r), '%s at %s' % (r['what'], r['at']))
    return n, vs, crate


CANARY = {
    # What must be noticed in the canary: (rule, function or item)
    ('static mut', 'COUNT'), ('static with interior mutability', 'CELL'), ('thread-local state', 'LOCAL'), ('foreign item', 'getpid'),
    ('calls a function which reaches state of process or system', 'env'),
    ('calls a function which reaches state of process or system', 'file'),
    ('calls a function which reaches state of process or system', 'print'),
    ('calls a function which reaches state of process or system', 'clock'),
    ('calls a function which reaches state of process or system', 'generic'),
    ('calls a function which reads random seed of thread', 'map'),
    ('calls a function which reads state of processor', 'cycles'),
    ('refers to shared mutable state', 'count'), ('refers to shared mutable state', 'cell'),
    ('foreign call', 'pid'), ('inline assembly', 'assembly'),
    ('`Sync` is implemented for a type with a field which is not', 'Unsound.cell'),
    ('`Send` is implemented for a type with a field which is not', 'Unsound.rc'),
    ('`Sync` is implemented for a type with a field which is not', 'Open<T>.item'),
    ('`Send` is implemented for a type with a field which is not', 'Nested.inner'),
}


def canary(mode):
    inv = load_inv('canary', mode)
    if inv is None:
        raise build.BuildError('canary was not analysed', '')
    _, vs, _ = effects_of(inv, ['canary', 'ser_raw', 'probe'], False)
    seen = {(v['rule'][5:], part) for v in vs for part in v['site'].split('::')}
    return [{'rule': 'C16: check is not able to see: ' + r, 'site': 'canary::' + w, 'msg': None} for r, w in sorted(CANARY - seen)], len(CANARY)


def effects():
    n, vs, info = 0, [], {'rule': 'no body of ser_raw, nor code made by its derive macros, refers to a mutable, interior-mutable, '
                          'thread-local or foreign static, a foreign function, inline assembly, or a library function which reaches '
                          'state of process, system, thread or processor; every field covered by a manual Send or Sync is Send or Sync'}
    for mode in MODES:
        dumps, log = build.dump(['derive', 'derived', 'canary', 'sync'], mode)
        if dumps['canary'] is None:
            raise build.BuildError('canary does not build', log)
        for name in ('derive', 'derived', 'sync'):
            if dumps[name] is None:
                vs.append({'rule': 'C16: probe `%s` no longer compiles' % name, 'site': 'probe/src/bin/%s.rs' % name,
                           'msg': ' / '.join([l for l in log.splitlines() if l.startswith('error')][:5])})
        v, k = canary(mode)
        vs += v
        n += k
        for name in ('ser_raw', 'derive', 'derived'):
            inv = load_inv(name, mode)
            if inv is None:
                vs.append({'rule': 'C16: crate was not analysed', 'site': name, 'msg': None})
                continue
            k, v, _ = effects_of(inv, ['ser_raw', 'probe', name], name != 'ser_raw')
            n += k
            vs += [dict(x, mode=mode) for x in v]
            info['%s/%s' % (name, mode)] = {'bodies': inv['bodies'], 'references': len(inv['refs']), 'statics': len(inv['statics']),
                                            'send_sync_impls': [a['trait'] + ' for ' + a['for'] for a in inv['autos']]}
            if name == 'ser_raw' and (inv['bodies'] < 100 or len(inv['refs']) < 400):
                vs.append({'rule': 'C16: implausibly little of the crate was analysed', 'site': name, 'msg': str(info)[:300]})
    return n, vs, info


# ---------------------------------------------------------------------------------------------
# C14: programs which must not compile, and their twins which must
# ---------------------------------------------------------------------------------------------

PINNED = os.path.join(build.RUSTUP, 'toolchains', 'nightly-2023-01-28-x86_64-unknown-linux-gnu', 'bin', 'rustc')


def library():
    """Build ser_raw as the repository is built. Returns arguments for rustc"""
    target = os.path.join(build.BUILD, 'pinned')
    env = build.base_env()
    env.update({'RUSTUP_TOOLCHAIN': '1.70.0', 'RUSTC': PINNED, 'CARGO_TARGET_DIR': target, 'RUSTFLAGS': '-Awarnings', 'CARGO_INCREMENTAL': '0'})
    with build.lock('pinned'):
        h = build.tree_hash('/repo/ser_raw', '/repo/ser_raw_derive', '/repo/ser_raw_derive_serializer')
        stamp = os.path.join(target, 'stamp')
        fp = os.path.join(target, 'debug', '.fingerprint')
        if not os.path.exists(stamp) or open(stamp).read() != h:
            if os.path.isdir(fp):
                for d in os.listdir(fp):
                    if d.startswith('ser_raw'):
                        shutil.rmtree(os.path.join(fp, d))
        rc, log = build.run(['cargo', 'build', '--offline', '--locked', '--manifest-path', '/repo/ser_raw/Cargo.toml', '--lib',
                             '--features', 'num_bigint'], env, build.VERIF)
        if rc:
            return None, log
        open(stamp, 'w').write(h)
        out = os.path.join(target, 'debug')
        return ['--extern', 'ser_raw=' + os.path.join(out, 'libser_raw.rlib'), '-L', 'dependency=' + os.path.join(out, 'deps')], log


HEAD = '''#![allow(warnings)]
use ser_raw::{storage::*, *};
#[repr(align(1))] pub struct A1(pub u8);
#[repr(align(2))] pub struct A2(pub u8);
#[repr(align(4))] pub struct A4(pub u8);
#[repr(align(8))] pub struct A8(pub u8);
#[repr(align(16))] pub struct A16(pub u8);
#[repr(align(32))] pub struct A32(pub u8);
#[repr(align(64))] pub struct A64(pub u8);
#[repr(align(128))] pub struct A128(pub u8);
%s
pub fn program() {
	%s
}
'''
SER = ''.join('impl<S: Serializer> Serialize<S> for A%d { fn serialize_data(&self, _: &mut S) {} }\n' % a for a in (1, 2, 4, 8, 16, 32, 64, 128))

# Another implementation of Storage, which relies on provided methods
CUSTOM = '''
pub struct Custom<const SA: usize, const MVA: usize, const VA: usize, const MAX: usize>(usize);
impl<const SA: usize, const MVA: usize, const VA: usize, const MAX: usize> Storage for Custom<SA, MVA, VA, MAX> {
	const STORAGE_ALIGNMENT: usize = SA;
	const MAX_VALUE_ALIGNMENT: usize = MVA;
	const VALUE_ALIGNMENT: usize = VA;
	const MAX_CAPACITY: usize = MAX;
	fn new() -> Self { Custom(0) }
	unsafe fn with_capacity_unchecked(capacity: usize) -> Self { Custom(0) }
	fn capacity(&self) -> usize { 0 }
	fn pos(&self) -> usize { self.0 }
	unsafe fn set_pos(&mut self, new_pos: usize) { self.0 = new_pos }
	unsafe fn push_slice_unchecked<T>(&mut self, slice: &[T], size: usize) { self.0 += size }
	fn reserve(&mut self, additional: usize) {}
	fn shrink_to_fit(&mut self) {}
}
'''

IMAX = 2 ** 63 - 1
# (SA, MVA, VA, MAX) which are inconsistent, and in what
INVALID = [
    ('storage alignment is 0', (0, 1, 1, 1024)),
    ('storage alignment is not a power of 2', (24, 8, 8, 1200)),
    ('storage alignment is not a power of 2', (3, 1, 1, 1024)),
    ('storage alignment exceeds isize::MAX', (2 ** 63, 8, 8, 1024)),
    ('maximum value alignment is 0', (16, 0, 1, 1024)),
    ('maximum value alignment is not a power of 2', (16, 12, 4, 1200)),
    ('maximum value alignment exceeds storage alignment', (16, 32, 8, 1024)),
    ('maximum value alignment exceeds storage alignment', (1, 2, 1, 1024)),
    ('value alignment is 0', (16, 16, 0, 1024)),
    ('value alignment is not a power of 2', (16, 16, 3, 1024)),
    ('value alignment is not a power of 2', (64, 32, 24, 1024)),
    ('value alignment exceeds maximum value alignment', (16, 8, 16, 1024)),
    ('value alignment exceeds maximum value alignment', (16, 16, 32, 1024)),
    ('maximum capacity is 0', (16, 16, 8, 0)),
    ('maximum capacity is too large', (16, 16, 8, IMAX + 1)),
    ('maximum capacity is too large', (16, 8, 8, IMAX + 1 - 8)),
    ('maximum capacity is too large', (1, 1, 1, IMAX + 1)),
    ('maximum capacity is too large', (4096, 16, 8, IMAX + 1 - 2048)),
    ('maximum capacity is too large', (16, 16, 8, 2 ** 64 - 16)),
    ('maximum capacity is not a multiple of maximum value alignment', (16, 16, 8, 1000)),
    ('maximum capacity is not a multiple of maximum value alignment', (16, 16, 8, 8)),
    ('maximum capacity is not a multiple of maximum value alignment', (64, 32, 8, 1024 + 16)),
]
VALID = [
    (16, 16, 8, 1024), (1, 1, 1, 1), (1, 1, 1, IMAX), (16, 16, 16, 16), (16, 16, 1, IMAX + 1 - 16), (16, 8, 8, IMAX + 1 - 16),
    (64, 32, 4, 32), (4096, 1, 1, 7), (2 ** 62, 1, 1, 1000), (16, 16, 8, 1008), (8, 4, 2, 4), (2 ** 62, 2 ** 62, 2 ** 62, 2 ** 62),
    (4096, 64, 32, IMAX + 1 - 4096),
]
ARGS = '{%d}, {%d}, {%d}, {%d}'
SERIALIZERS = ('CompleteSerializer', 'PtrOffsetSerializer', 'PureCopySerializer')
# Ways to create a storage. @ stands for parameters
CREATE = [('AlignedVec::new', 'let s = AlignedVec::<@>::new();'),
          ('AlignedVec::with_capacity', 'let s = AlignedVec::<@>::with_capacity(std::env::args().count());'),
          ('AlignedVec::with_capacity_unchecked', 'let s = unsafe { AlignedVec::<@>::with_capacity_unchecked(std::env::args().count()) };'),
          ('Storage::with_capacity of another Storage', 'let s = Custom::<@>::with_capacity(std::env::args().count());')]
for s_ in SERIALIZERS:
    CREATE.append((s_ + '::new', 'let s = %s::<@, AlignedVec<@>>::new();' % s_))
    CREATE.append((s_ + '::with_capacity', 'let s = %s::<@, AlignedVec<@>>::with_capacity(std::env::args().count());' % s_))

# Ways to put a value of type T in a storage with given MAX_VALUE_ALIGNMENT
PUT = [('push', 's.push(&x);'), ('push_slice', 's.push_slice(std::slice::from_ref(&x));'), ('push_empty', 's.push_empty::<T>();'),
       ('push_empty_slice', 's.push_empty_slice::<T>(3);'), ('align_for', 's.align_for::<T>();'),
       ('push of array', 's.push(&[T(1), T(2)]);'), ('push of tuple', 's.push(&(1u8, x));')]
PUT_SER = [('serialize_value', 's.serialize_value(&x);'),
           ('serialize_value of tuple', 's.serialize_value(&(1u8, x));'),
           ('serialize_value of Box', 's.serialize_value(&Box::new(x));'),
           ('serialize_value of Vec', 's.serialize_value(&vec![x]);'),
           ('serialize_value of Vec of Vec', 's.serialize_value(&vec![vec![x]]);'),
           ('serialize_value of Option of Box', 's.serialize_value(&Some(Box::new(x)));'),
           ('serialize', 's.serialize(&x);'),
           ('push_raw', 's.push_raw(&x);'), ('push_raw_slice', 's.push_raw_slice(std::slice::from_ref(&x));'),
           ('push', 's.push(&x, addr(&s));'), ('push_slice', 's.push_slice(std::slice::from_ref(&x), addr(&s));'),
           ('push_and_process', 's.push_and_process(&x, addr(&s), |_| {});'),
           ('push_and_process_slice', 's.push_and_process_slice(std::slice::from_ref(&x), addr(&s), |_| {});'),
           ('push_empty', 's.push_empty::<T>();'), ('push_empty_slice', 's.push_empty_slice::<T>(3);')]
ADDR = '\nuse ser_raw::pos::Addr;\nfn addr<S: Serializer>(_: &S) -> S::Addr { S::Addr::from_ref(&0u8) }\n'


def programs():
    """(name, must it compile, why not, items, body)"""
    out = []
    for entry, code in CREATE:
        items = CUSTOM if 'Custom' in code else ''
        for why, c in INVALID:
            out.append(('%s with %s' % (entry, c), False, why, items, code.replace('@', ARGS % c)))
        for c in VALID:
            out.append(('%s with %s' % (entry, c), True, None, items, code.replace('@', ARGS % c)))
    configs = [((16, 8, 8, 1024), 8), ((64, 32, 4, 1120), 32), ((16, 16, 16, 1008), 16), ((1, 1, 1, 100), 1), ((4096, 64, 32, 64000), 64)]
    for c, mva in configs:
        for over in (False, True):
            t = 'A%d' % (mva * 2 if over else mva)
            why = 'alignment of type exceeds MAX_VALUE_ALIGNMENT' if over else None
            items = SER + 'use %s as T;' % t
            for name, code in PUT:
                out.append(('AlignedVec::%s with %s of type with alignment %s' % (name, c, t[1:]), not over, why, items,
                            'let mut s = AlignedVec::<%s>::new(); let x = T(1); %s' % (ARGS % c, code)))
                out.append(('Custom::%s with %s of type with alignment %s' % (name, c, t[1:]), not over, why, items + CUSTOM,
                            'let mut s = Custom::<%s>::new(); let x = T(1); %s' % (ARGS % c, code)))
            for ser in SERIALIZERS:
                if c[1] < 8:
                    continue  # Containers need 8 themselves
                for name, code in PUT_SER:
                    out.append(('%s::%s with %s of type with alignment %s' % (ser, name, c, t[1:]), not over, why, items + ADDR,
                                'let mut s = %s::<%s, AlignedVec<%s>>::new(); let x = T(1); %s' % (ser, ARGS % c, ARGS % c, code)))
    # Limits themselves
    for k in range(0, 62):
        out.append(('aligned_max_capacity(2^%d)' % k, True, None, '',
                    'const _: () = assert!(util::aligned_max_capacity(1 << %d) == %d);' % (k, IMAX + 1 - 2 ** k)))
    for k in range(0, 31):
        out.append(('aligned_max_u32_capacity(2^%d)' % k, True, None, '',
                    'const _: () = assert!(util::aligned_max_u32_capacity(1 << %d) == 1 << 32);' % k))
    # Zero-sized types are never placed, so alignment doesn't matter as long as it's legal
    return out


def merge(progs):
    """Programs which must compile are put together by entry point: one failure names the group"""
    groups_, single = {}, []
    for p in progs:
        if p[1]:
            groups_.setdefault((p[0].split(' with ')[0].split('(')[0], p[3]), []).append(p)
        else:
            single.append(p)
    for (k, items), ps in groups_.items():
        single.append(('%s with %d configurations' % (k, len(ps)), True, None, items, '\n\t'.join('{ %s }' % p[4] for p in ps), ps))
    return single


def compiles(p, args, opt, d):
    name = 'w' + hashlib.sha256((p[0] + p[3]).encode()).hexdigest()[:16] + opt
    src = os.path.join(d, name + '.rs')
    with open(src, 'w') as f:
        f.write(HEAD % (p[3], p[4]))
    env = build.base_env()
    r = subprocess.run([PINNED, '--edition=2021', '--crate-type=lib', '--crate-name', name, '--emit=obj', '-Copt-level=' + opt,
                        '-Ccodegen-units=1', '-o', os.path.join(d, name + '.o'), src] + args, env=env, cwd=d,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120)
    for x in (src, os.path.join(d, name + '.o')):
        if os.path.exists(x):
            os.unlink(x)
    return r.returncode == 0, r.stdout.decode(errors='replace')


def witnesses():
    args, log = library()
    if args is None:
        return 0, [{'rule': 'C14: crate does not build', 'site': 'ser_raw', 'msg': ' / '.join(l for l in log.splitlines() if l.startswith('error'))[:500]}], {}
    d = os.path.join(build.BUILD, 'witness.%d' % os.getpid())
    os.makedirs(d, exist_ok=True)
    vs, n = [], 0
    progs = programs()
    try:
        jobs = [(p, o) for p in merge(progs) for o in ('0', '3')]
        with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
            res = list(ex.map(lambda j: compiles(j[0], args, j[1], d), jobs))
        # Which ones of a group don't compile
        more = []
        for (p, o), (ok, out) in zip(jobs, res):
            if p[1] and not ok and len(p) > 5 and len(p[5]) > 1:
                more += [(q, o) for q in p[5]]
        with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
            jobs2 = list(zip(more, ex.map(lambda j: compiles(j[0], args, j[1], d), more)))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    refused, others = {}, 0
    for (p, o), (ok, out) in list(zip(jobs, res)) + jobs2:
        n += len(p[5]) if len(p) > 5 else 1
        err = [l for l in out.splitlines() if l.startswith('error')]
        if ok and not p[1]:
            vs.append({'rule': 'C14: program compiles though ' + p[2], 'site': p[0], 'msg': 'at opt-level %s: %s' % (o, p[4]), 'mode': 'opt-level ' + o})
        elif not ok and p[1] and not (len(p) > 5 and len(p[5]) > 1):
            vs.append({'rule': 'C14: consistent program does not compile', 'site': p[0], 'msg': ' / '.join(err)[:400] + ' in ' + p[4], 'mode': 'opt-level ' + o})
        elif not ok and not p[1]:
            # That it's refused for its configuration is shown by its twin, which differs in nothing else
            refused[p[2]] = refused.get(p[2], 0) + 1
            if not any('E0080' in l for l in err):
                others += 1
    info = {'rule': 'every program with an inconsistent configuration or over-aligned type is refused by the compiler (pinned toolchain, at '
                    'opt-level 0 and 3); its twins, which differ in the configuration or type only, are accepted',
            'programs': len(progs), 'refused_other_than_by_constant_evaluation': others, 'refused': refused, 'accepted': sum(1 for p in progs if p[1]), 'compilations': len(jobs) + len(jobs2)}
    return n, vs, info
