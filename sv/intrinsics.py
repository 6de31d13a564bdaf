"""Intrinsics, allocator and specification hooks"""
import engine
from engine import *
from engine import INTR, HOOKS, SKIP
from lin import *


def intr(*names):
    def d(f):
        for n in names:
            INTR[n] = f
        return f
    return d


def hook(*names):
    def d(f):
        for n in names:
            HOOKS[n] = f
        return f
    return d


def ty(E, fn, i=0):
    ts = [x for x in fn.targs if isinstance(x, int)]
    return E.p.types[ts[i]]


# ------------------------------------------------------------------ layout queries

@intr('size_of')
def _(E, st, fr, fn, a, t):
    return ty(E, fn)['size']


@intr('min_align_of', 'pref_align_of', 'align_of')
def _(E, st, fr, fn, a, t):
    return ty(E, fn)['align']


@intr('size_of_val')
def _(E, st, fr, fn, a, t):
    T = ty(E, fn)
    if T['layout']['sized']:
        return T['size']
    if T['k'] == 'slice':
        return mulc(a[0][8][1], E.p.types[T['elem']]['size'])
    if T['k'] == 'str':
        return a[0][8][1]
    raise Unsupported('size_of_val')


@intr('min_align_of_val', 'align_of_val')
def _(E, st, fr, fn, a, t):
    return ty(E, fn)['layout']['align']


@intr('needs_drop')
def _(E, st, fr, fn, a, t):
    return fresh('needs_drop', 0, 1)


@intr('cold_path', 'assert_inhabited', 'assert_zero_valid', 'assert_mem_uninitialized_valid', 'forget',
      'prefetch_read_data')
def _(E, st, fr, fn, a, t):
    return {}


@intr('likely', 'unlikely', 'black_box')
def _(E, st, fr, fn, a, t):
    return a[0]


@intr('is_val_statically_known')
def _(E, st, fr, fn, a, t):
    return 0


@intr('assume')
def _(E, st, fr, fn, a, t):
    E.prove(st, 'ub', 'assume of false condition', a[0])
    return {}


@intr('abort')
def _(E, st, fr, fn, a, t):
    E.report(st, 'ub', 'abort reached', 'abort')
    raise PathEnd()


@intr('unreachable')
def _(E, st, fr, fn, a, t):
    E.report(st, 'ub', 'unreachable code reached', 'unreachable_unchecked')
    raise PathEnd()


@intr('caller_location')
def _(E, st, fr, fn, a, t):
    return fresh('location', 1, ADDR_MAX)


@intr('ub_checks', 'contract_checks')
def _(E, st, fr, fn, a, t):
    return 0


@intr('type_id')
def _(E, st, fr, fn, a, t):
    raise Unsupported('type_id')


# ------------------------------------------------------------------ arithmetic

@intr('ctpop')
def _(E, st, fr, fn, a, t):
    if isinstance(a[0], int):
        return bin(a[0]).count('1')
    v, _ = atom('ctpop', (a[0],), 0, 64)
    return v


@intr('ctlz', 'ctlz_nonzero')
def _(E, st, fr, fn, a, t):
    T = ty(E, fn)
    bits = tbits(T)
    x = st.cons.norm(a[0]) if isinstance(a[0], Lin) else a[0]
    if isinstance(x, int):
        return bits - (x & ((1 << bits) - 1)).bit_length()
    if E.decide(st, B('eq', x)):
        return bits
    v, _ = atom('ctlz', (x, bits), 0, bits - 1)
    return v


@intr('cttz', 'cttz_nonzero')
def _(E, st, fr, fn, a, t):
    T = ty(E, fn)
    bits = tbits(T)
    x = st.cons.norm(a[0]) if isinstance(a[0], Lin) else a[0]
    if isinstance(x, int):
        return bits if x == 0 else (x & -x).bit_length() - 1
    v, _ = atom('cttz', (x, bits), 0, bits)
    return v


@intr('wrapping_add')
def _(E, st, fr, fn, a, t):
    return E.wrap(st, add(E.to_num(st, a[0]), E.to_num(st, a[1])), ty(E, fn))


@intr('wrapping_sub')
def _(E, st, fr, fn, a, t):
    return E.wrap(st, sub(E.to_num(st, a[0]), E.to_num(st, a[1])), ty(E, fn))


@intr('wrapping_mul')
def _(E, st, fr, fn, a, t):
    return E.wrap(st, E.mul(st, E.to_num(st, a[0]), E.to_num(st, a[1])), ty(E, fn))


def _ovf(op):
    def f(E, st, fr, fn, a, t):
        T = ty(E, fn)
        v, o = E.checked(st, op, E.to_num(st, a[0]), E.to_num(st, a[1]), T)
        return {0: (T['size'], v), T['size']: (1, o)}
    return f


INTR['add_with_overflow'] = _ovf('Add')
INTR['sub_with_overflow'] = _ovf('Sub')
INTR['mul_with_overflow'] = _ovf('Mul')


def _unch(op):
    def f(E, st, fr, fn, a, t):
        return E.binop(st, fr, op, a[0], a[1], ty(E, fn), None)
    return f


for _n, _o in [('unchecked_add', 'AddUnchecked'), ('unchecked_sub', 'SubUnchecked'),
               ('unchecked_mul', 'MulUnchecked'), ('unchecked_div', 'Div'), ('unchecked_rem', 'Rem'),
               ('unchecked_shl', 'ShlUnchecked'), ('unchecked_shr', 'ShrUnchecked')]:
    INTR[_n] = _unch(_o)


@intr('disjoint_bitor')
def _(E, st, fr, fn, a, t):
    return E.binop(st, fr, 'BitOr', a[0], a[1], ty(E, fn), None)


@intr('exact_div')
def _(E, st, fr, fn, a, t):
    x, y = E.to_num(st, a[0]), E.to_num(st, a[1])
    if not isinstance(y, int):
        raise Unsupported('exact_div')
    q = fdiv(st.cons.norm(x), y)
    E.prove(st, 'ub', 'inexact exact_div', E.b_eq(sub(x, mulc(q, y))))
    return q


def _sat(op):
    def f(E, st, fr, fn, a, t):
        T = ty(E, fn)
        lo, hi = trange(T)
        x, y = E.to_num(st, a[0]), E.to_num(st, a[1])
        r = add(x, y) if op == '+' else sub(x, y)
        if not E.decide(st, E.b_ge(sub(r, lo))):
            return lo
        if not E.decide(st, E.b_ge(sub(hi, r))):
            return hi
        return r
    return f


INTR['saturating_add'] = _sat('+')
INTR['saturating_sub'] = _sat('-')


@intr('rotate_left', 'rotate_right', 'bswap', 'bitreverse')
def _(E, st, fr, fn, a, t):
    T = ty(E, fn)
    v, _ = atom(fn.intr, tuple(a), 0, (1 << tbits(T)) - 1)
    return E.canon(st, v, 'i' if T['k'] == 'int' else 'u', T['size'])


@intr('integer_max', 'integer_min')
def _(E, st, fr, fn, a, t):
    ge = E.compare(st, 'Ge', a[0], a[1], ty(E, fn))
    return a[0] if E.decide(st, ge) == (fn.intr == 'integer_max') else a[1]


@intr('three_way_compare')
def _(E, st, fr, fn, a, t):
    return E.compare(st, 'Cmp', a[0], a[1], ty(E, fn))


@intr('select_unpredictable')
def _(E, st, fr, fn, a, t):
    return a[1] if E.decide(st, a[0]) else a[2]


# ------------------------------------------------------------------ pointers & memory

@intr('offset')
def _(E, st, fr, fn, a, t):
    P = ty(E, fn)
    et = E.p.types[P['elem']]
    return E.ptr_offset(st, a[0], mulc(E.to_num(st, a[1]), et['size']), True)


@intr('arith_offset')
def _(E, st, fr, fn, a, t):
    return E.ptr_offset(st, a[0], mulc(E.to_num(st, a[1]), ty(E, fn)['size']), False)


@intr('ptr_offset_from', 'ptr_offset_from_unsigned')
def _(E, st, fr, fn, a, t):
    s = ty(E, fn)['size']
    x, y = E.to_num(st, a[0]), E.to_num(st, a[1])
    d = st.cons.norm(sub(x, y))
    r1, _o = E.resolve(st, x)
    r2, _o = E.resolve(st, y)
    E.count('ub')
    if d != 0 and (r1 is None or r2 is None or r1.id != r2.id):
        E.report(st, 'ub', 'offset_from of pointers to different allocations', '%s - %s' % (show(x), show(y)))
        raise PathEnd()
    if fn.intr.endswith('unsigned'):
        E.prove(st, 'ub', 'offset_from_unsigned of lesser pointer', E.b_ge(d))
    q = fdiv(d, s)
    E.prove(st, 'ub', 'inexact offset_from', E.b_eq(sub(d, mulc(q, s))))
    return q


@intr('ptr_mask')
def _(E, st, fr, fn, a, t):
    return E.bitop(st, 'BitAnd', E.to_num(st, a[0]), E.to_num(st, a[1]), {'k': 'uint', 'bits': 64})


@intr('ptr_metadata')
def _(E, st, fr, fn, a, t):
    return a[0][8][1] if isinstance(a[0], dict) else {}


@intr('ptr_guaranteed_cmp')
def _(E, st, fr, fn, a, t):
    return 2


@intr('copy_nonoverlapping')
def _(E, st, fr, fn, a, t):
    T = ty(E, fn)
    E.do_copy(st, a[0], a[1], mulc(E.to_num(st, a[2]), T['size']), T['align'], True)
    return {}


@intr('copy', 'volatile_copy_memory')
def _(E, st, fr, fn, a, t):
    T = ty(E, fn)
    E.do_copy(st, a[0], a[1], mulc(E.to_num(st, a[2]), T['size']), T['align'], False)
    return {}


@intr('write_bytes', 'volatile_set_memory')
def _(E, st, fr, fn, a, t):
    T = ty(E, fn)
    n = st.cons.norm(mulc(E.to_num(st, a[2]), T['size']))
    E.check_align(st, a[0], T['align'], 'write')
    if n == 0 or E.is_zero(st, n):
        return {}
    if not isinstance(n, int):
        if not E.decide(st, B('ge', add(n, -1))):
            return {}
    r, off = E.access(st, a[0], n, 'fill')
    v = E.to_num(st, a[1])
    if isinstance(n, int) and n <= 64:
        E.store(st, r, off, {i: (1, v) for i in range(n)}, n)
        return {}
    src = Region()
    src.id, src.base, src.atom, src.align, src.size = 0, 0, None, 1, n
    src.kind, src.live, src.ro, src.init, src.name = 'fill', True, True, ('fill', v), 'fill'
    src.cells, src.log, src.owner, src.site = None, None, None, None
    if v == 0:
        src.init = 'zero'
        E.store_scalar(st, r, off, n, Chunk(src, 0), E.writer(st, r))
        return {}
    E.store_scalar(st, r, off, n, Chunk(_fill_region(E, v), 0), E.writer(st, r))
    return {}


def _fill_region(E, v):
    r = Region()
    E.next_region[0] += 1
    r.id = E.next_region[0]
    r.base, r.atom, r.align, r.size = 0, None, 1, 0
    r.kind, r.live, r.ro, r.init, r.name = 'fill', True, True, 'input', 'fill(%s)' % show(v)
    r.cells, r.log, r.owner, r.site = None, None, None, None
    return r


@intr('transmute', 'transmute_unchecked')
def _(E, st, fr, fn, a, t):
    return E.transmute(st, a[0], ty(E, fn, 0), ty(E, fn, 1))


def _read_ptr(E, st, p, T, align=True):
    if T['size'] == 0:
        return {}
    if align:
        E.check_align(st, p, T['align'], 'read')
    r, off = E.access(st, p, T['size'], 'read')
    return E.load(st, r, off, T)


def _write_ptr(E, st, p, T, v, align=True):
    if T['size'] == 0:
        return
    if align:
        E.check_align(st, p, T['align'], 'write')
    r, off = E.access(st, p, T['size'], 'write')
    if T['sc'] is None and not isinstance(v, dict):
        v = {} if v is UNDEF else {0: (T['size'], v)}
    E.store(st, r, off, v, T['size'])


@intr('read_via_copy', 'volatile_load')
def _(E, st, fr, fn, a, t):
    return _read_ptr(E, st, a[0], ty(E, fn))


@intr('unaligned_volatile_load')
def _(E, st, fr, fn, a, t):
    return _read_ptr(E, st, a[0], ty(E, fn), False)


@intr('write_via_move', 'volatile_store')
def _(E, st, fr, fn, a, t):
    _write_ptr(E, st, a[0], ty(E, fn), a[1])
    return {}


@intr('unaligned_volatile_store')
def _(E, st, fr, fn, a, t):
    _write_ptr(E, st, a[0], ty(E, fn), a[1], False)
    return {}


@intr('typed_swap_nonoverlapping')
def _(E, st, fr, fn, a, t):
    T = ty(E, fn)
    x = _read_ptr(E, st, a[0], T)
    y = _read_ptr(E, st, a[1], T)
    _write_ptr(E, st, a[0], T, y)
    _write_ptr(E, st, a[1], T, x)
    return {}


@intr('discriminant_value')
def _(E, st, fr, fn, a, t):
    T = ty(E, fn)
    return E.discriminant(st, fr, (1, None, a[0], T, None), E.op_type(fr, ['p', t[3]]))


@intr('compare_bytes')
def _(E, st, fr, fn, a, t):
    return fresh('cmp', -1, 1)


@intr('raw_eq')
def _(E, st, fr, fn, a, t):
    return fresh('raw_eq', 0, 1)


@intr('aggregate_raw_ptr')
def _(E, st, fr, fn, a, t):
    p, m = a
    if m == {}:
        return p
    if isinstance(p, dict):
        p = p[0][1]
    return {0: (8, p), 8: (8, m)}


@intr('const_eval_select')
def _(E, st, fr, fn, a, t):
    # Runtime version is last
    T = E.p.types[[x for x in fn.targs if isinstance(x, int)][2]]
    f = E.p.fns[T['fndef']]
    tt = E.op_type(fr, t[2][0])
    args = []
    lay = tt['layout']
    for i, ft in enumerate(tt['fields']):
        o = lay['fields'][i] if isinstance(lay['fields'], list) else 0
        args.append(E.sub_value(st, a[0], o, E.p.types[ft], tt['id']))
    if f.intr is not None and f.intr in INTR:
        return INTR[f.intr](E, st, fr, f, args, t)
    E.enter(st, fr, f, args, t[3], t[4], t[5])
    return SKIP


@intr('drop_in_place')
def _(E, st, fr, fn, a, t):
    raise Unsupported('drop_in_place intrinsic')


# ------------------------------------------------------------------ allocator

def oom(E, st):
    """Allocation may fail"""
    return 0


def _alloc(E, st, fr, fn, a, t, zeroed=False):
    size, align = a[0], a[1]
    size = st.cons.norm(E.to_num(st, size))
    if isinstance(align, dict):
        align = align[0][1]
    align = E.to_num(st, align)
    if not isinstance(align, int):
        raise Unsupported('allocation with unknown alignment')
    fail = fresh('oom', 0, 1) if 'oom' not in st.flags else st.flags.pop('oom')
    if not isinstance(fail, int):
        # Remember atom across re-execution of this statement
        st.flags['oom'] = fail
        f = E.decide(st, B('ge', add(fail, -1)))
        st.flags.pop('oom')
    else:
        f = fail
    E.prove(st, 'alloc', 'zero-size allocation', E.b_ge(add(size, -1)), 'allocation of %s bytes' % show(size))
    if align <= 0 or align & (align - 1):
        E.report(st, 'alloc', 'invalid alignment of allocation', 'align %d' % align)
        raise PathEnd()
    E.prove(st, 'alloc', 'too big allocation', E.b_ge(sub((1 << 63) - align, size)), 'allocation of %s bytes' % show(size))
    if f:
        return 0
    r = E.new_region(st, size, align, 'heap', 'heap', 'zero' if zeroed else 'undef')
    r.site = E.site(st)
    return r.base


@hook('__rust_alloc')
def _(E, st, fr, fn, a, t):
    return _alloc(E, st, fr, fn, a, t)


@hook('__rust_alloc_zeroed')
def _(E, st, fr, fn, a, t):
    return _alloc(E, st, fr, fn, a, t, True)


@hook('__rust_no_alloc_shim_is_unstable_v2', '__rust_no_alloc_shim_is_unstable')
def _(E, st, fr, fn, a, t):
    return {}


def check_layout(E, st, ptr, size, align, what):
    r, off = E.resolve(st, ptr)
    E.count('ro')
    if r is not None and r.ro:
        E.report(st, 'ro', what + ' of input', '%s of %s, which is (part of) an input and must not be consumed' % (what, r.name))
        raise PathEnd()
    E.count('alloc')
    if r is None or off != 0 or r.kind != 'heap':
        E.report(st, 'alloc', what + ' of pointer which was not allocated', show(ptr))
        raise PathEnd()
    if not r.live:
        E.report(st, 'alloc', what + ' of freed memory', 'allocation made at %s' % (r.site,))
        raise PathEnd()
    E.count('alloc')
    if align != r.align:
        E.report(st, 'alloc', what + ' with wrong alignment', 'allocated with alignment %s, freed with %s' % (r.align, show(align)))
        raise PathEnd()
    E.prove(st, 'alloc', what + ' with wrong size', E.b_eq(sub(size, r.size)),
            'allocated with size %s, freed with %s' % (show(st.cons.norm(r.size)), show(st.cons.norm(size))))
    return r


@hook('__rust_dealloc')
def _(E, st, fr, fn, a, t):
    ptr, size, align = a
    if isinstance(align, dict):
        align = align[0][1]
    r = check_layout(E, st, E.to_num(st, ptr), E.to_num(st, size), align, 'deallocation')
    r = E.wreg(st, r.id)
    r.live = False
    return {}


@hook('__rust_realloc')
def _(E, st, fr, fn, a, t):
    ptr, size, align, new = a
    if isinstance(align, dict):
        align = align[0][1]
    ptr, size, new = E.to_num(st, ptr), E.to_num(st, size), st.cons.norm(E.to_num(st, new))
    r = check_layout(E, st, ptr, size, align, 'reallocation')
    E.prove(st, 'alloc', 'zero-size allocation', E.b_ge(add(new, -1)), 'reallocation to %s bytes' % show(new))
    E.prove(st, 'alloc', 'too big allocation', E.b_ge(sub((1 << 63) - align, new)), 'reallocation to %s bytes' % show(new))
    fail = st.flags.get('oom')
    if fail is None:
        fail = st.flags['oom'] = fresh('oom', 0, 1)
    f = E.decide(st, B('ge', add(fail, -1)))
    # Bytes kept: min(old, new)
    if not f:
        grow = E.decide(st, E.b_ge(sub(new, size)))
        keep = size if grow else new
    st.flags.pop('oom')
    if f:
        return 0
    r2 = E.new_region(st, new, align, 'heap', 'heap', 'undef')
    r2.site = E.site(st)
    E.copy(st, st.regions[r.id], 0, r2, 0, keep)
    old = E.wreg(st, r.id)
    old.live = False
    return r2.base


# ------------------------------------------------------------------ specification hooks

def cstr(E, st, v):
    p, n = v[0][1], v[8][1]
    r, off = E.resolve(st, p)
    return bytes(r.init[0][off:off + n]).decode()


@hook('sv_any')
def _(E, st, fr, fn, a, t):
    return fresh('any', 0, M64)


@hook('sv_any_named')
def _(E, st, fr, fn, a, t):
    return fresh(cstr(E, st, a[0]), 0, M64)


@hook('sv_assume')
def _(E, st, fr, fn, a, t):
    b = a[0]
    E.assume(st, b)
    if not isinstance(b, int) and not st.cons.feasible():
        raise PathEnd()
    return {}


@hook('sv_prove')
def _(E, st, fr, fn, a, t):
    s = cstr(E, st, a[0])
    tag, _, msg = s.partition(':')
    E.prove(st, tag.strip(), msg.strip() or 'specification', a[1], '')
    return {}


@hook('sv_fail')
def _(E, st, fr, fn, a, t):
    s = cstr(E, st, a[0])
    tag, _, msg = s.partition(':')
    E.count(tag.strip())
    E.report(st, tag.strip(), msg.strip(), '')
    raise PathEnd()


@hook('sv_reach')
def _(E, st, fr, fn, a, t):
    s = cstr(E, st, a[0])
    E.stats.setdefault('reach', {})
    E.stats['reach'][s] = E.stats['reach'].get(s, 0) + 1
    return {}


@hook('sv_split')
def _(E, st, fr, fn, a, t):
    return 1 if E.decide(st, a[0]) else 0


@hook('sv_mem')
def _(E, st, fr, fn, a, t):
    size, align = st.cons.norm(E.to_num(st, a[0])), E.to_num(st, a[1])
    if not isinstance(align, int):
        raise Unsupported('sv_mem alignment')
    if not isinstance(size, int):
        st.cons.add(size)
        st.cons.add(sub(ADDR_MAX, size))
    r = E.new_region(st, size, align, 'input', 'input', 'input')
    return r.base


@hook('sv_heap')
def _(E, st, fr, fn, a, t):
    """As `sv_mem` but owned by program (it may free it)"""
    size, align = st.cons.norm(E.to_num(st, a[0])), E.to_num(st, a[1])
    if not isinstance(size, int):
        st.cons.add(size)
        st.cons.add(sub(ADDR_MAX, size))
    r = E.new_region(st, size, align, 'heap', 'input', 'input')
    r.site = E.site(st)
    return r.base


@hook('sv_havoc_mem')
def _(E, st, fr, fn, a, t):
    """Content of allocation becomes arbitrary"""
    r, off = E.resolve(st, a[0])
    if r is None or not r.live:
        raise Unsupported('havoc of no region')
    if r.init == 'input':
        raise Unsupported('havoc of same region twice')
    r = E.wreg(st, r.id)
    r.init = 'input'
    r.log = None
    r.cells = {} if isinstance(r.size, int) and r.size <= 4096 else None
    return {}


@hook('sv_freeze')
def _(E, st, fr, fn, a, t):
    r, off = E.resolve(st, a[0])
    if r is None:
        raise Unsupported('freeze of no region')
    r = E.wreg(st, r.id)
    r.ro = True
    return {}


@hook('sv_thaw')
def _(E, st, fr, fn, a, t):
    r, off = E.resolve(st, a[0])
    if r is not None:
        r = E.wreg(st, r.id)
        r.ro = False
    return {}


@hook('sv_is_live')
def _(E, st, fr, fn, a, t):
    r, off = E.resolve(st, a[0])
    return 1 if r is not None and r.live else 0


@hook('sv_panic_ok')
def _(E, st, fr, fn, a, t):
    st.panic_ok.append(a[0])
    return {}


@hook('sv_panic_reset')
def _(E, st, fr, fn, a, t):
    st.panic_ok = []
    return {}


@hook('sv_leak_ok')
def _(E, st, fr, fn, a, t):
    st.flags['leak_ok'] = True
    return {}


@hook('sv_ghost_get')
def _(E, st, fr, fn, a, t):
    i = a[0]
    if not isinstance(i, int):
        raise Unsupported('ghost index')
    return st.ghost.get(i, 0)


@hook('sv_ghost_set')
def _(E, st, fr, fn, a, t):
    i = a[0]
    if not isinstance(i, int):
        raise Unsupported('ghost index')
    st.ghost[i] = E.to_num(st, a[1])
    return {}


@hook('sv_panic')
def _(E, st, fr, fn, a, t):
    """Injected panic: always allowed"""
    if st.unwinding is None:
        st.unwinding = 'injected'
        E.unwind_to(st, t[5])
        return SKIP
    raise PathEnd()


@hook('sv_try')
def _(E, st, fr, fn, a, t):
    """sv_try(f, data) -> bool: calls f(data), true if it panicked"""
    if not isinstance(a[0], FnVal):
        raise Unsupported('sv_try')
    outer = st.unwinding

    def back(E, st, f, unwinding):
        if unwinding:
            st.unwinding = outer
        caller = st.frames[-1]
        E.put(st, caller, E.place(st, caller, t[3]), 1 if unwinding else 0)
        E.jump(st, caller, t[4])
    E.enter(st, fr, E.p.fns[a[0].fn], [a[1]], None, None, 'cont')
    st.frames[-1].hook = back
    return SKIP


@hook('sv_snap')
def _(E, st, fr, fn, a, t):
    """Remember contents of region of pointer. Returns handle"""
    r, off = E.resolve(st, a[0])
    if r is None:
        st.snaps.append(None)
        return len(st.snaps) - 1
    if r.cells is not None:
        s = r.clone(None)
    else:
        s = r
    r.owner = None
    st.snaps.append((s, off))
    return len(st.snaps) - 1


def segs(E, st, r, off, n):
    """Content of [off, off + n) as list of (len, desc), desc: ('v', value) | ('i', region id, off) | ('u',)"""
    c = st.cons
    off, n = c.norm(off), c.norm(n)
    if n == 0 or (not isinstance(n, int) and E.is_zero(st, n)):
        return []
    if r.cells is not None:
        if isinstance(off, int) and isinstance(n, int):
            out = []
            pos, end = off, off + n
            for k in sorted(k for k in r.cells if k < end and k + r.cells[k][0] > off):
                s, v = r.cells[k]
                if k > pos:
                    out.append((k - pos, init_desc(E, r, pos)))
                a, b = max(k, off), min(k + s, end)
                if isinstance(v, Chunk):
                    out += segs(E, st, v.src, add(v.off, a - k), b - a)
                else:
                    out.append((b - a, ('v', E.sub_piece(st, v, s, a - k, b - a)) if v is not UNDEF else ('u',)))
                pos = b
            if pos < end:
                out.append((end - pos, init_desc(E, r, pos)))
            return out
        r2 = r.clone(None)
        E._to_log(r2)
        r = r2
    return segs_log(E, st, r, r.log, off, n)


def init_desc(E, r, off):
    if r.init == 'undef':
        return ('u',)
    if r.init == 'zero':
        return ('z',)
    return ('i', r.id, off)


def concretise(E, st, e, hi):
    """Value of an expression within 0..=hi, splitting the state if it's not known"""
    e = st.cons.norm(e)
    if isinstance(e, int):
        return e
    if not isinstance(hi, int) or hi > 64:
        raise Unsupported('symbolic slice of scalar')
    for k in range(hi + 1):
        if E.decide(st, E.b_eq(sub(e, k))):
            return k
    raise PathEnd()


def segs_log(E, st, r, e, off, n):
    c = st.cons
    off, n = c.norm(off), c.norm(n)
    while e is not None:
        if n == 0 or (not isinstance(n, int) and E.is_zero(st, n)):
            return []
        parent, eo, es, v, w = e
        if E.is_zero(st, es):
            e = parent
            continue
        d = c.norm(sub(off, eo))  # start of range relative to entry
        # disjoint?
        if E.decide(st, E.b_ge(sub(d, es))) or E.decide(st, E.b_ge(sub(neg(d), n))):
            e = parent
            continue
        out = []
        if E.decide(st, E.b_ge(d)):
            start = d  # offset in entry
            pre = 0
        else:
            start = 0
            pre = neg(d)
            out += segs_log(E, st, r, parent, off, pre)
        # length within the entry
        rest = sub(n, pre)
        avail = sub(es, start)
        if E.decide(st, E.b_ge(sub(avail, rest))):
            take = rest
            tail = 0
        else:
            take = avail
            tail = sub(rest, avail)
        start, take = c.norm(start), c.norm(take)
        if v is UNDEF:
            out.append((take, ('u',)))
        elif isinstance(v, Chunk):
            out += segs(E, st, v.src, add(v.off, start), take)
        elif isinstance(start, int) and isinstance(take, int):
            out.append((take, ('v', E.sub_piece(st, v, es, start, take))))
        else:
            start = concretise(E, st, start, es)
            take = concretise(E, st, take, es)
            out.append((take, ('v', E.sub_piece(st, v, es, start, take))))
            if not isinstance(tail, int):
                tail = c.norm(sub(rest, take))
        if tail != 0:
            out += segs_log(E, st, r, parent, add(add(off, pre), take), tail)
        return out
    return [(n, init_desc(E, r, off))]


def eq_segs(E, st, A, Bs):
    """Compare contents. Returns None if equal, else description. `A` is what is checked, `B` is the
    reference: where the reference is uninitialised anything goes"""
    c = st.cons
    A, Bs = list(A), list(Bs)
    while A and Bs:
        la, da = A[0]
        lb, db = Bs[0]
        d = c.norm(sub(la, lb))
        if E.is_zero(st, d):
            n = la
            ra = rb = None
        elif E.decide(st, E.b_ge(d)):
            n = lb
            ra, rb = (sub(la, lb), adv(E, st, da, la, lb)), None
        else:
            n = la
            ra, rb = None, (sub(lb, la), adv(E, st, db, lb, la))
        x, y = (trim(E, st, da, la, n), trim(E, st, db, lb, n))
        A.pop(0)
        Bs.pop(0)
        if ra:
            A.insert(0, ra)
        if rb:
            Bs.insert(0, rb)
        if E.is_zero(st, n):
            continue
        if y[0] == 'u':
            continue
        m = same(E, st, x, y, n)
        if m is not None:
            return m
    if A or Bs:
        return 'lengths differ'
    return None


def adv(E, st, d, total, n):
    if d[0] in ('u', 'z'):
        return d
    if d[0] == 'i':
        return ('i', d[1], add(d[2], n))
    if isinstance(total, int) and isinstance(n, int):
        return ('v', E.sub_piece(st, d[1], total, n, total - n))
    raise Unsupported('adv')


def trim(E, st, d, total, n):
    if d[0] == 'v' and E.st is not None:
        t, m = st.cons.norm(total), st.cons.norm(n)
        if t == m:
            return d
        if isinstance(t, int) and isinstance(m, int):
            return ('v', E.sub_piece(st, d[1], t, 0, m))
        raise Unsupported('trim')
    return d


def desc(d):
    if d[0] == 'u':
        return 'uninitialised bytes'
    if d[0] == 'z':
        return 'zeros'
    if d[0] == 'i':
        return 'original bytes of region %s from %s' % (d[1], show(d[2]))
    return 'value %s' % (d[1] if isinstance(d[1], (B, FnVal)) else show(d[1]))


def same(E, st, x, y, n):
    c = st.cons
    if x[0] == 'u':
        return '%s bytes are %s, should be %s' % (show(c.norm(n)), desc(x), desc(y))
    if x[0] == 'i' and y[0] == 'i':
        if x[1] == y[1] and E.is_zero(st, sub(x[2], y[2])):
            return None
        return '%s, should be %s' % (desc(x), desc(y))
    if x[0] == 'z' and y[0] == 'z':
        return None
    if x[0] == 'v' and y[0] == 'v':
        a, b = x[1], y[1]
        if isinstance(a, FnVal) or isinstance(b, FnVal):
            return None if a == b else 'function pointers differ'
        if a is UNDEF:
            return 'uninitialised'
        if isinstance(a, B) and a == b:
            return None
        a, b = E.to_num(st, a), E.to_num(st, b)
        nn = c.norm(n)
        if E.is_zero(st, sub(a, b)):
            return None
        if isinstance(a, int) and isinstance(b, int) and isinstance(nn, int):
            if (a - b) % (1 << (8 * nn)) == 0:
                return None
        return 'value %s, should be %s' % (show(c.norm(a)), show(c.norm(b)))
    # one is a value, other is original content
    nn = c.norm(n)
    if isinstance(nn, int) and nn <= 16:
        def val(d):
            if d[0] == 'v':
                return E.to_num(st, d[1])
            if d[0] == 'z':
                return 0
            for r in st.regions.values():
                if r.id == d[1]:
                    base = r.clone(None)
                    base.cells = None
                    base.log = None
                    return E.read_init(st, base, d[2], nn)
            raise Unsupported('init region gone')
        a, b = val(x), val(y)
        if E.is_zero(st, sub(a, b)) or (isinstance(a, (int, Lin)) and isinstance(b, (int, Lin)) and E.is_zero(st, sub(E.wrap_u(st, a, 8 * nn), E.wrap_u(st, b, 8 * nn)))):
            return None
    return '%s, should be %s' % (desc(x), desc(y))


def last_writer(E, st, r, off, n):
    e = r.log
    k = 0
    while e is not None and k < 200:
        parent, eo, es, v, w = e
        d = sub(off, eo)
        if not (st.cons.ge(sub(d, es)) or st.cons.ge(sub(neg(d), n))):
            return w
        e = parent
        k += 1
    return None


@hook('sv_bytes_eq')
def _(E, st, fr, fn, a, t):
    """sv_bytes_eq(tag, dst, src, len)"""
    s = cstr(E, st, a[0])
    tag, _, msg = s.partition(':')
    tag = tag.strip()
    E.count(tag)
    n = st.cons.norm(E.to_num(st, a[3]))
    if n == 0 or E.is_zero(st, n):
        return {}
    if not isinstance(n, int) and not E.decide(st, B('ge', add(n, -1))):
        return {}
    r1, o1 = E.access(st, a[1], n, 'spec read')
    r2, o2 = E.access(st, a[2], n, 'spec read')
    m = eq_segs(E, st, segs(E, st, r1, o1, n), segs(E, st, r2, o2, n))
    if m is not None:
        E.report(st, tag, msg.strip() or 'bytes differ', m, last_writer(E, st, r1, o1, n))
    return {}


@hook('sv_snap_eq')
def _(E, st, fr, fn, a, t):
    """sv_snap_eq(tag, ptr, handle, off, len): content at `ptr` equals snapshot's from `off`"""
    s = cstr(E, st, a[0])
    tag, _, msg = s.partition(':')
    tag = tag.strip()
    E.count(tag)
    n = st.cons.norm(E.to_num(st, a[4]))
    if n == 0 or E.is_zero(st, n):
        return {}
    if not isinstance(n, int) and not E.decide(st, B('ge', add(n, -1))):
        return {}
    sn = st.snaps[a[2]]
    if sn is None:
        raise Unsupported('empty snapshot')
    src, base = sn
    r1, o1 = E.access(st, a[1], n, 'spec read')
    m = eq_segs(E, st, segs(E, st, r1, o1, n), segs(E, st, src, add(base, a[3]), n))
    if m is not None:
        E.report(st, tag, msg.strip() or 'bytes changed', m, last_writer(E, st, r1, o1, n))
    return {}
