"""Abstract interpreter for the dumped, monomorphised MIR of a probe crate.

Domain: every scalar is an affine expression over value-numbered atoms (see `lin.py`), memory
is a map of regions (one abstract region per allocation) holding cells or a log of symbolic
writes, and the numeric part is a conjunction of affine inequalities. Control-flow is
trace-partitioned: a branch whose condition isn't decided by the abstract state splits the
state in two. Nothing is executed: all inputs, addresses and buffer contents are abstract.
"""
import json
import sys
from lin import *
import lin

sys.setrecursionlimit(20000)

M64 = (1 << 64) - 1
ADDR_MAX = (1 << 63) - 1


class Undef:
    __slots__ = ()

    def __repr__(self):
        return 'UNDEF'


UNDEF = Undef()


class B:
    """Undecided boolean: `e >= 0`, `e == 0` or `e != 0`"""
    __slots__ = ('op', 'e')

    def __init__(self, op, e):
        self.op, self.e = op, e

    def __repr__(self):
        return '(%s %s 0)' % (show(self.e), {'ge': '>=', 'eq': '==', 'ne': '!='}[self.op])

    def __eq__(self, o):
        return isinstance(o, B) and self.op == o.op and self.e == o.e

    def __hash__(self):
        return hash((self.op, self.e))


class FnVal:
    __slots__ = ('fn',)

    def __init__(self, fn):
        self.fn = fn

    def __repr__(self):
        return 'fn#%d' % self.fn

    def __eq__(self, o):
        return isinstance(o, FnVal) and o.fn == self.fn

    def __hash__(self):
        return hash(('fn', self.fn))


class Chunk:
    """`size` bytes copied from `off` within snapshot `src`"""
    __slots__ = ('src', 'off')

    def __init__(self, src, off):
        self.src, self.off = src, off

    def __repr__(self):
        return 'chunk(%s+%s)' % (self.src.name, show(self.off))


def bnot(b):
    if isinstance(b, int):
        return 1 - b
    if b.op == 'ge':
        return B('ge', add(neg(b.e), -1))
    return B('ne' if b.op == 'eq' else 'eq', b.e)


class Fork(Exception):
    def __init__(self, alts):
        self.alts = alts


class Unsupported(Exception):
    pass


class PathEnd(Exception):
    """Path ends without further obligations"""


class Region:
    __slots__ = ('id', 'base', 'atom', 'align', 'size', 'kind', 'live', 'ro', 'cells', 'log', 'init',
                 'name', 'owner', 'site')

    def clone(self, owner):
        r = Region.__new__(Region)
        r.id, r.base, r.atom, r.align, r.size = self.id, self.base, self.atom, self.align, self.size
        r.kind, r.live, r.ro, r.init, r.name = self.kind, self.live, self.ro, self.init, self.name
        r.site = self.site
        r.cells = None if self.cells is None else dict(self.cells)
        r.log = self.log
        r.owner = owner
        return r


class Frame:
    __slots__ = ('fn', 'bb', 'ip', 'locals', 'regs', 'dest', 'ret', 'unw', 'line', 'hook', 'loops')

    def clone(self):
        f = Frame.__new__(Frame)
        f.fn, f.bb, f.ip, f.dest, f.ret, f.unw, f.line = self.fn, self.bb, self.ip, self.dest, self.ret, self.unw, self.line
        f.locals = list(self.locals)
        f.regs = dict(self.regs)
        f.hook = self.hook
        f.loops = self.loops
        return f


class Token:
    __slots__ = ()


class State:
    __slots__ = ('frames', 'regions', 'cons', 'ghost', 'trace', 'unwinding', 'panic_ok', 'owner', 'snaps',
                 'steps', 'flags', 'asites', 'pend', 'log')

    def clone(self):
        s = State.__new__(State)
        s.frames = [f.clone() for f in self.frames]
        s.regions = dict(self.regions)
        s.cons = self.cons.clone()
        s.ghost = dict(self.ghost)
        s.trace = self.trace
        s.unwinding = self.unwinding
        s.panic_ok = list(self.panic_ok)
        s.snaps = list(self.snaps)
        s.steps = self.steps
        s.flags = dict(self.flags)
        s.asites = self.asites
        s.pend = self.pend
        s.log = self.log
        s.owner = Token()
        self.owner = Token()
        return s


class Fn:
    pass


class Prog:
    def __init__(self, path):
        with open(path) as f:
            d = json.load(f)
        self.files = d['files']
        self.roots = d['roots']
        self.inventory = d['inventory']
        self.statics = d['statics']
        self.types = {t['id']: t for t in d['types']}
        self.allocs = {a['id']: a for a in d['allocs']}
        self.fns = {}
        for f in d['fns']:
            self.fns[f['id']] = self.prep(f)
        for t in self.types.values():
            lay = t['layout']
            t['size'] = lay['size'] if lay else None
            t['align'] = lay['align'] if lay else None
            t['sc'] = None
            if lay and lay['repr'] and 's' in lay['repr']:
                s = lay['repr']['s']
                t['sc'] = (s[0], s[1], s[2], None if s[3] is None else (int(s[3][0]), int(s[3][1])))
        self.root_atoms = {}

    def prep(self, f):
        fn = Fn()
        fn.id = f['id']
        fn.name = f['name']
        fn.kind = f['kind']
        fn.intr = f.get('intr')
        fn.targs = f.get('targs', [])
        fn.foreign = f.get('foreign', False)
        fn.cut = f.get('cut', False)
        fn.nobody = f.get('nobody', False)
        fn.has_body = 'blocks' in f
        fn.loopinfo = None
        fn.file = ''
        fn.line = 0
        fn.repo = False
        if fn.has_body:
            fn.nargs = f['nargs']
            fn.locals = f['locals']
            fn.blocks = f['blocks']
            fn.spread = f.get('spread')
            fn.file = self.files[f['span'][0]]
            fn.line = f['span'][1]
            fn.repo = '/repo/' in fn.file or fn.file.startswith('/repo') or 'ser_raw' in fn.file
            mem = [False] * len(fn.locals)

            def scan_place(p, taken):
                l, proj = p
                derefd = False
                for e in proj:
                    if e[0] == '*':
                        derefd = True
                        break
                    if e[0] in ('i', 's'):
                        mem[l] = True
                if taken and not derefd:
                    mem[l] = True

            def scan_op(o):
                if o[0] in ('p', 'm'):
                    scan_place(o[1], False)

            for stmts, term in fn.blocks:
                for s in stmts:
                    if s[0] == '=':
                        scan_place(s[1], False)
                        rv = s[2]
                        if rv[0] in ('ref', 'addr'):
                            scan_place(rv[1], True)
                        elif rv[0] in ('disc', 'len'):
                            scan_place(rv[1], False)
                        elif rv[0] in ('use', 'rep'):
                            scan_op(rv[1])
                        elif rv[0] in ('bin', 'cbin'):
                            scan_op(rv[2])
                            scan_op(rv[3])
                        elif rv[0] in ('un', 'cast'):
                            scan_op(rv[2])
                        elif rv[0] == 'agg':
                            for o in rv[3]:
                                scan_op(o)
                    elif s[0] == 'sd':
                        scan_place(s[1], False)
                if term[0] == 'drop' and term[2] is not None:
                    scan_place(term[1], True)
                elif term[0] == 'call':
                    for o in term[2]:
                        scan_op(o)
                    scan_place(term[3], False)
            fn.mem = mem
            fn.short = fn.name
            if fn.spread:
                fn.mem = mem
        return fn


class Violation:
    __slots__ = ('tag', 'rule', 'msg', 'site', 'stack', 'trace', 'probe', 'mode', 'writer', 'after')

    def key(self):
        return (self.tag, self.rule, self.site)


class Engine:
    def __init__(self, prog, mode='debug', max_states=40000, max_steps=30000000):
        self.p = prog
        self.mode = mode
        self.overflow_checks = 1 if mode == 'debug' else 0
        self.violations = {}
        self.inconclusive = []
        self.stats = {'paths': 0, 'stmts': 0, 'forks': 0, 'obl': {}, 'panics': 0, 'loops': 0, 'aborts': 0}
        self.fns_seen = set()
        self.calls_seen = set()
        self.max_states = max_states
        self.max_steps = max_steps
        self.static_regions = {}
        self.atom_region = {}
        self.next_region = [0]
        self.decided = {}
        self.proved = {}
        self.notes = set()
        self.work = []

    # ---------------------------------------------------------------- top level

    def run(self, name):
        self.bad_loops = set()
        self.bad_invs = set()
        saved = dict(self.violations), list(self.inconclusive)
        while True:
            self.stats = {'paths': 0, 'stmts': 0, 'forks': 0, 'obl': {}, 'panics': 0, 'loops': 0, 'aborts': 0}
            self.inexact = {}
            try:
                self.run_once(name)
                # What's reported after a loop whose tests aren't linear may be due to invariants
                # not found. Unrolled, it has to turn up again
                doubtful = set()
                for k, v in self.violations.items():
                    if k not in saved[0]:
                        doubtful.update(self.inexact[i] for i in v.after if i in self.inexact)
                if not doubtful - self.bad_loops:
                    return
                self.notes.add('loops unrolled to confirm violation')
                self.bad_loops |= doubtful
            except loops.Restart:
                pass
            self.violations, self.inconclusive = dict(saved[0]), list(saved[1])

    def run_once(self, name):
        root = None
        for k, v in self.p.roots.items():
            if k == name or k.endswith('::' + name):
                root = v
        if root is None:
            raise Unsupported('no probe ' + name)
        lin.reset()
        self.probe = name
        self.atom_region = {}
        self.static_regions = {}
        st = State()
        st.frames = []
        st.regions = {}
        st.cons = Cons()
        st.ghost = {}
        st.trace = None
        st.unwinding = None
        st.panic_ok = []
        st.snaps = []
        st.steps = 0
        st.flags = {}
        st.asites = None
        st.pend = None
        st.log = None
        st.owner = Token()
        self.push_frame(st, self.p.fns[root], [], None, None, 'cont')
        self.work = [st]
        nstates = 1
        while self.work:
            st = self.work.pop()
            self.st = st
            try:
                while True:
                    self.step(st)
            except Fork as f:
                self.stats['forks'] += 1
                live = []
                for alt in f.alts:
                    s2 = st.clone()
                    ok = True
                    for op, e in alt:
                        if op == 'ge':
                            s2.cons.add(e)
                        elif op == 'eq':
                            s2.cons.add_eq(e)
                        elif op == 'ne':
                            s2.cons.add_ne(e)
                        if s2.cons.dead:
                            ok = False
                            break
                    if ok and not s2.cons.feasible():
                        ok = False
                    if ok and lin.NP2 and not s2.cons.refine(quick=True):
                        ok = False
                    if ok:
                        fr = s2.frames[-1] if s2.frames else None
                        if fr is not None:
                            s2.trace = (self.site(s2), alt, s2.trace)
                        live.append(s2)
                nstates += len(live)
                self.work.extend(reversed(live))
                if nstates > self.max_states:
                    self.inconclusive.append('too many states in %s' % name)
                    return
            except PathEnd as e:
                self.stats['paths'] += 1
            except Unsupported as e:
                self.inconclusive.append('%s: unsupported: %s at %s' % (name, e, self.where(st)))
                self.stats['paths'] += 1
            if self.stats['stmts'] > self.max_steps:
                self.inconclusive.append('too many steps in %s' % name)
                return

    # ---------------------------------------------------------------- reporting

    def site(self, st):
        """Innermost frame within repo"""
        for fr in reversed(st.frames):
            if fr.fn.repo and '/verif/' not in fr.fn.file:
                return (fr.fn.name, fr.line)
        fr = st.frames[-1]
        return (fr.fn.name, fr.line)

    def where(self, st):
        out = []
        for fr in reversed(st.frames):
            out.append('%s (%s:%s)' % (fr.fn.name, fr.fn.file.split('/repo/')[-1][-60:], fr.line))
            if len(out) >= 14:
                break
        return ' < '.join(out)

    def stack(self, st):
        out = []
        for fr in reversed(st.frames):
            if fr.fn.repo:
                out.append('%s (%s:%s)' % (fr.fn.name, fr.fn.file.split('/repo/')[-1], fr.line))
        return out

    def report(self, st, tag, rule, msg, writer=None, goals=()):
        """Record a violation, unless integers make the path, or the negation of every one of
        `goals`, impossible"""
        if st.cons.dead or not st.cons.feasible():
            raise PathEnd()
        if (tag, rule, self.site(st)[0]) not in self.violations:
            if not st.cons.possible():
                raise PathEnd()
            if goals and not any(self.refutable(st, b) for b in goals):
                return
        v = Violation()
        v.tag, v.rule, v.msg = tag, rule, msg
        v.site = self.site(st)[0]
        v.stack = self.stack(st)
        v.probe, v.mode = self.probe, self.mode
        v.writer = writer
        tr = []
        t = st.trace
        while t is not None and len(tr) < 40:
            (fn, line), alt, t = t
            tr.append('%s:%s assuming %s' % (fn, line, ', '.join('%s %s 0' % (show(st.cons.norm(e)), {'ge': '>=', 'eq': '==', 'ne': '!='}[op]) for op, e in alt)))
        v.trace = list(reversed(tr))
        k = v.key()
        if k not in self.violations:
            v.after = {i for e in st.cons.ineqs for i in loops.counters(e)}
            self.violations[k] = v

    def refutable(self, st, b):
        if b is UNDEF:
            return True
        if isinstance(b, int):
            return not b
        if isinstance(b, Lin):
            b = B('ge', add(b, -1))
        if b.op == 'ge':
            return st.cons.possible([add(neg(b.e), -1)])
        if b.op == 'eq':
            return st.cons.possible([add(b.e, -1)]) or st.cons.possible([add(neg(b.e), -1)])
        return st.cons.possible([b.e, neg(b.e)])

    def count(self, tag):
        self.stats['obl'][tag] = self.stats['obl'].get(tag, 0) + 1

    def prove(self, st, tag, rule, b, msg=None):
        """Obligation: `b` must be entailed. Reports it otherwise, and assumes it if interpretation
        depends on it (rules of probes don't: they go on as if nothing happened)"""
        self.count(tag)
        if self.holds(st, b):
            return
        if isinstance(b, B):
            self.settle(st, b.e)
        elif isinstance(b, Lin):
            self.settle(st, b)
        ours = not (tag[0] == 'C' and tag[1:3].isdigit())
        if isinstance(b, int):
            self.report(st, tag, rule, msg or 'never holds here')
            if ours:
                raise PathEnd()
            return
        self.report(st, tag, rule, (msg or '') + ' [not implied: %s]' % self.showb(st, b), goals=(b,))
        if ours:
            self.assume(st, b)

    def showb(self, st, b):
        if isinstance(b, int):
            return str(b)
        return '%s %s 0' % (show(st.cons.norm(b.e)), {'ge': '>=', 'eq': '==', 'ne': '!='}[b.op])

    def holds(self, st, b):
        if isinstance(b, int):
            return b != 0
        if isinstance(b, Lin):
            return st.cons.ge(add(b, -1))
        if b is UNDEF:
            return False
        if b.op == 'ge':
            return st.cons.ge(b.e)
        if b.op == 'eq':
            return st.cons.eq0(b.e)
        return st.cons.ne0(b.e)

    def assume(self, st, b):
        if isinstance(b, int):
            if not b:
                raise PathEnd()
            return
        if isinstance(b, Lin):
            b = B('ge', add(b, -1))
        if b.op == 'ge':
            st.cons.add(b.e)
        elif b.op == 'eq':
            st.cons.add_eq(b.e)
        else:
            st.cons.add_ne(b.e)
        if st.cons.dead:
            raise PathEnd()

    def decide(self, st, b):
        """Truth of boolean; splits the state if not known"""
        if isinstance(b, int):
            return b != 0
        if b is UNDEF:
            self.report(st, 'mem', 'branch on uninitialised memory', 'condition is uninitialised')
            raise PathEnd()
        if isinstance(b, Lin):
            b = B('ne', b)
        e = st.cons.norm(b.e)
        if b.op == 'ge':
            if isinstance(e, int):
                st.log = ('ge', e, st.log)
                return e >= 0
            if st.cons.ge(e):
                st.log = ('ge', e, st.log)
                return True
            n = add(neg(e), -1)
            if st.cons.ge(n):
                st.log = ('ge', n, st.log)
                return False
            self.settle(st, e)
            raise Fork([[('ge', e)], [('ge', n)]])
        eq = b.op == 'eq'
        if isinstance(e, int):
            st.log = ('ne', e, st.log)
            return (e == 0) == eq
        if st.cons.ne0(e):
            st.log = ('ne', e, st.log)
            return not eq
        if st.cons.eq0(e):
            return eq
        self.settle(st, e)
        raise Fork([[('eq', e)], [('ne', e)]])

    def settle(self, st, e):
        """Decide whether subtractions which `e` results from wrapped"""
        e = st.cons.norm(e)
        if isinstance(e, int):
            return
        for i, _ in e.t:
            a = lin.ATOMS[i]
            if a.name == 'wraps':
                z = Lin(0, ((i, 1),))
                raise Fork([[('eq', z)], [('ne', z)]])

    # ---------------------------------------------------------------- regions

    def new_region(self, st, size, align, kind, name, init='undef'):
        r = Region()
        self.next_region[0] += 1
        r.id = self.next_region[0]
        hi = ADDR_MAX // align
        lo = 1
        if isinstance(size, int):
            hi = (ADDR_MAX - size) // align
        a = fresh(name, lo, hi, kind='base')
        r.atom = a.t[0][0]
        r.align = align
        r.base = mulc(a, align)
        r.size = size
        r.kind, r.name, r.init = kind, name, init
        r.live, r.ro = True, False
        r.log = None
        r.cells = {} if isinstance(size, int) and size <= 4096 else None
        r.owner = st.owner
        r.site = None
        if not isinstance(size, int):
            st.cons.add(sub(sub(ADDR_MAX, size), r.base))
        self.atom_region[r.atom] = (r.id, align)
        st.regions[r.id] = r
        return r

    def wreg(self, st, rid):
        r = st.regions[rid]
        if r.owner is not st.owner:
            r = r.clone(st.owner)
            st.regions[rid] = r
        return r

    def resolve(self, st, addr):
        """Address -> (region, offset) or (None, addr)"""
        addr = st.cons.norm(addr)
        if isinstance(addr, int):
            return None, addr
        found = None
        for i, k in addr.t:
            ar = self.atom_region.get(i)
            if ar is not None:
                if found is not None or k != ar[1]:
                    return None, addr
                found = (i, k, ar[0])
        if found is None:
            return None, addr
        r = st.regions.get(found[2])
        if r is None:
            return None, addr
        t = tuple(x for x in addr.t if x[0] != found[0])
        off = Lin(addr.c, t) if t else addr.c
        if not r.live:
            # Memory may have been handed out again at same address
            for q in st.regions.values():
                if q.live and q.id > r.id and q.kind == 'heap':
                    b = st.cons.norm(q.base)
                    if not isinstance(b, int) and len(b.t) == 1 and b.t[0] == (found[0], found[1]) and b.c == 0:
                        return q, off
        return r, off

    def distinct(self, st, a, b):
        """Addresses within 2 different live allocations"""
        if isinstance(a, int) or isinstance(b, int):
            return False
        ra, oa = self.resolve(st, a)
        rb, ob = self.resolve(st, b)
        if ra is None or rb is None or ra is rb or not ra.live or not rb.live:
            return False
        for r, o in ((ra, oa), (rb, ob)):
            if not (st.cons.ge(o) and st.cons.ge(add(sub(r.size, o), -1))):
                return False
        return True

    def access(self, st, addr, size, what):
        """Check an access of `size` bytes. Returns (region, off)"""
        if addr is UNDEF or isinstance(addr, (FnVal, B)):
            self.report(st, 'mem', 'access through invalid pointer', '%s via uninitialised pointer' % what)
            raise PathEnd()
        r, off = self.resolve(st, addr)
        self.count('mem')
        if not isinstance(off, int):
            self.settle(st, off)
        if r is None:
            self.report(st, 'mem', 'access through pointer to no allocation',
                        '%s of %s bytes at address %s, which is not within any allocation' % (what, show(size), show(off)))
            raise PathEnd()
        if not r.live:
            self.report(st, 'mem', 'access to dead allocation', '%s of freed %s %s' % (what, r.kind, r.name))
            raise PathEnd()
        if isinstance(off, int) and isinstance(size, int) and isinstance(r.size, int):
            if off < 0 or off + size > r.size:
                self.report(st, 'mem', 'access out of bounds', '%s at offset %s size %s of %s of size %s' % (what, off, size, r.name, r.size))
                raise PathEnd()
            return r, off
        c = st.cons
        if not c.ge(off) or not c.ge(sub(sub(r.size, off), size)):
            self.settle(st, size)
            self.settle(st, r.size)
            self.report(st, 'mem', 'access out of bounds',
                        '%s at offset %s size %s of %s of size %s [not implied]' % (what, show(c.norm(off)), show(c.norm(size)), r.name, show(c.norm(r.size))),
                        goals=(B('ge', off), B('ge', sub(sub(r.size, off), size))))
            self.assume(st, B('ge', off))
            self.assume(st, B('ge', sub(sub(r.size, off), size)))
        return r, off

    def check_align(self, st, addr, align, what, tag='align'):
        if align == 1:
            return
        self.count(tag)
        addr = st.cons.norm(addr)
        if isinstance(addr, int):
            if addr % align:
                self.report(st, tag, 'misaligned ' + what, 'address %s is not aligned to %d' % (show(addr), align))
            return
        rem = sub(addr, mulc(fdiv(addr, align), align))
        if isinstance(rem, int) and rem == 0:
            return
        if not st.cons.eq0(rem):
            self.settle(st, rem)
            self.report(st, tag, 'misaligned ' + what, 'address %s is not always aligned to %d' % (show(addr), align), goals=(B('eq', rem),))
            self.assume(st, B('eq', rem))

    # --- content

    def to_log(self, st, r):
        """Switch region from cells to write log"""
        if r.cells is None:
            return r
        r = self.wreg(st, r.id)
        self._to_log(r)
        return r

    def _to_log(self, r):
        log = r.log
        for off in sorted(r.cells):
            size, v = r.cells[off]
            log = (log, off, size, v, None)
        r.log = log
        r.cells = None

    def store_scalar(self, st, r, off, size, v, site=None):
        if size == 0:
            return
        self.count('ro')
        if r.ro:
            self.report(st, 'ro', 'write to input', 'write to %s, which is an input and must not be modified' % r.name)
            raise PathEnd()
        r = self.wreg(st, r.id)
        if r.cells is not None:
            if isinstance(off, int) and isinstance(size, int):
                cells_clear(self, st, r.cells, off, size)
                cells = r.cells
                cells[off] = (size, v)
                return
            self._to_log(r)
        r.log = (r.log, off, size, v, site)

    def store(self, st, r, off, v, size):
        """Store a value (scalar or dict of pieces)"""
        if size == 0:
            return
        if not isinstance(v, dict):
            self.store_scalar(st, r, off, size, v, self.writer(st, r))
            return
        self.count('ro')
        if r.ro:
            self.report(st, 'ro', 'write to input', 'write to %s, which is an input and must not be modified' % r.name)
            raise PathEnd()
        r = self.wreg(st, r.id)
        if r.cells is not None and isinstance(off, int):
            cells_clear(self, st, r.cells, off, size)
            for o, p in v.items():
                r.cells[off + o] = p
            return
        if r.cells is not None:
            self._to_log(r)
        w = self.writer(st, r)
        covered = 0
        for o in sorted(v):
            if o == covered:
                covered += v[o][0]
        if covered != size:
            r.log = (r.log, off, size, UNDEF, w)
        for o in sorted(v):
            s, x = v[o]
            r.log = (r.log, add(off, o), s, x, w)

    def writer(self, st, r):
        if r.kind == 'stack':
            return None
        return self.site(st)

    def read_piece(self, st, r, off, size):
        """Read `size` bytes (int) as a scalar. Value is unsigned or as written"""
        cells = r.cells
        if cells is not None:
            if isinstance(off, int):
                p = cells.get(off)
                if p is not None:
                    if p[0] == size:
                        v = p[1]
                        if isinstance(v, Chunk):
                            return self.read_piece(st, v.src, v.off, size)
                        return v
                return self.read_cells_slow(st, r, off, size)
        return self.read_log(st, r, off, size)

    def read_init(self, st, r, off, size):
        init = r.init
        if init == 'undef':
            return UNDEF
        if init == 'zero':
            return 0
        if init == 'input':
            off = st.cons.norm(off)
            v, _ = atom('cell', (r.id, off, size), 0, (1 << (8 * size)) - 1, name='%s[%s;%d]' % (r.name, show(off), size))
            return v
        # static
        if isinstance(off, int):
            bs, provs = init
            if off in provs and size == 8:
                return self.alloc_ptr(st, provs[off], int.from_bytes(bs[off:off + 8], 'little'))
            part = bs[off:off + size]
            if None in part or len(part) < size:
                return UNDEF
            return int.from_bytes(bytes(part), 'little')
        v, _ = atom('cell', (r.id, off, size), 0, (1 << (8 * size)) - 1, name='%s[%s;%d]' % (r.name, show(off), size))
        return v

    def read_cells_slow(self, st, r, off, size):
        cells = r.cells
        parts = []
        pos = off
        end = off + size
        keys = sorted(k for k in cells if k < end and k + cells[k][0] > off)
        if not keys:
            return self.read_init(st, r, off, size)
        for k in keys:
            s, v = cells[k]
            if k > pos:
                parts.append((pos, k - pos, self.read_init(st, r, pos, k - pos)))
                pos = k
            a = max(k, pos)
            b = min(k + s, end)
            parts.append((a, b - a, self.extract(st, v, s, a - k, b - a)))
            pos = b
        if pos < end:
            parts.append((pos, end - pos, self.read_init(st, r, pos, end - pos)))
        total = 0
        for o, s, v in parts:
            if v is UNDEF:
                return UNDEF
            if len(parts) == 1:
                return v
            v = self.to_num(st, v)
            v = self.wrap_u(st, v, 8 * s)
            total = add(total, mulc(v, 1 << (8 * (o - off))))
        return total

    def extract(self, st, v, s, o, n):
        """`n` bytes at `o` of a value `v` of `s` bytes"""
        if v is UNDEF or (o == 0 and n == s and not isinstance(v, Chunk)):
            return v
        if isinstance(v, Chunk):
            return self.read_piece(st, v.src, add(v.off, o), n)
        if isinstance(v, FnVal):
            raise Unsupported('partial read of function pointer')
        v = self.wrap_u(st, self.to_num(st, v), 8 * s)
        if o:
            v = fdiv(v, 1 << (8 * o))
        return self.wrap_u(st, v, 8 * n)

    def read_log(self, st, r, off, size):
        c = st.cons
        e = r.log
        if r.cells is not None:
            r2 = r.clone(None)
            self._to_log(r2)
            r = r2
            e = r.log
        off = c.norm(off)
        while e is not None:
            parent, eo, es, v, w = e
            d = c.norm(sub(off, eo))
            if isinstance(d, int) and isinstance(es, int):
                if d == 0 and es == size:
                    if isinstance(v, Chunk):
                        return self.read_piece(st, v.src, v.off, size)
                    return v
                if d >= es or d + size <= 0:
                    e = parent
                    continue
                if d >= 0 and d + size <= es:
                    return self.extract(st, v, es, d, size)
                return self.assemble(st, r, off, size)
            # Entry covers [0, es), read is [d, d + size)
            if c.ge(sub(d, es)) or c.ge(sub(-size, d)) or self.is_zero(st, es):
                e = parent
                continue
            before = self.decide(st, B('ge', sub(-size, d)))  # read entirely before entry
            if before:
                e = parent
                continue
            after = self.decide(st, B('ge', sub(d, es)))
            if after:
                e = parent
                continue
            inside = self.decide(st, B('ge', d)) and self.decide(st, B('ge', sub(sub(es, d), size)))
            if inside:
                if v is UNDEF:
                    return UNDEF
                if isinstance(v, Chunk):
                    return self.read_piece(st, v.src, add(v.off, d), size)
                dd = c.norm(d)
                if not isinstance(dd, int) and isinstance(es, int) and es <= 32:
                    # Distance may be known though it doesn't look it
                    dd = next((k for k in range(es - size + 1) if c.eq0(sub(dd, k))), dd)
                if isinstance(dd, int):
                    return self.extract(st, v, es, dd, size)
            return self.assemble(st, r, off, size)
        return self.read_init(st, r, off, size)

    def assemble(self, st, r, off, size):
        """Read made up of several writes: byte by byte"""
        if size == 1:
            self.notes.add('havoc read')
            return fresh('byte', 0, 255)
        total = 0
        for k in range(size):
            v = self.read_piece(st, r, add(off, k), 1)
            if v is UNDEF:
                return UNDEF
            total = add(total, mulc(self.to_num(st, v), 1 << (8 * k)))
        return total

    def is_zero(self, st, e):
        e = st.cons.norm(e)
        if isinstance(e, int):
            return e == 0
        return st.cons.ge(neg(e)) and st.cons.ge(e)

    def copy(self, st, src, soff, dst, doff, n):
        """memcpy / memmove. Accesses already checked"""
        n = st.cons.norm(n)
        if n == 0:
            return
        self.count('ro')
        if dst.ro:
            self.report(st, 'ro', 'write to input', 'copy into %s, which is an input and must not be modified' % dst.name)
            raise PathEnd()
        if src.cells is not None and isinstance(soff, int) and isinstance(n, int):
            pieces = self.slice_cells(st, src, soff, n)
            self.store(st, dst, doff, pieces, n)
            return
        snap = src
        if src.cells is not None:
            snap = src.clone(None)
            self._to_log(snap)
            snap.owner = None
        else:
            src.owner = None  # freeze: next write clones
        # Collapse chunk of chunk
        ch = Chunk(snap, soff)
        e = snap.log
        if e is not None and isinstance(e[3], Chunk):
            d = st.cons.norm(sub(soff, e[1]))
            if st.cons.ge(d) and st.cons.ge(sub(sub(e[2], d), n)):
                ch = Chunk(e[3].src, add(e[3].off, d))
        self.store_scalar(st, st.regions[dst.id], doff, n, ch, self.writer(st, dst))

    def slice_cells(self, st, r, off, n):
        """Pieces of cell region within [off, off + n), rebased to 0"""
        out = {}
        end = off + n
        cells = r.cells
        if r.init == 'undef':
            if off == 0 and n == r.size:
                return dict(cells)
            for k, (s, v) in cells.items():
                if k >= off and k + s <= end:
                    out[k - off] = (s, v)
                elif k < end and k + s > off:
                    a, b = max(k, off), min(k + s, end)
                    out[a - off] = (b - a, self.sub_piece(st, v, s, a - k, b - a))
            return out
        pos = off
        for k in sorted(k for k in cells if k < end and k + cells[k][0] > off):
            s, v = cells[k]
            if k > pos:
                out[pos - off] = (k - pos, self.init_piece(st, r, pos, k - pos))
            a, b = max(k, off), min(k + s, end)
            out[a - off] = (b - a, self.sub_piece(st, v, s, a - k, b - a))
            pos = b
        if pos < end:
            out[pos - off] = (end - pos, self.init_piece(st, r, pos, end - pos))
        return out

    def init_piece(self, st, r, off, n):
        base = r.clone(None)
        base.cells = None
        base.log = None
        base.owner = None
        return Chunk(base, off)

    def sub_piece(self, st, v, s, o, n):
        if o == 0 and n == s:
            return v
        if isinstance(v, Chunk):
            return Chunk(v.src, add(v.off, o))
        return self.extract(st, v, s, o, n)

    # --- typed load / store

    def canon(self, st, v, kind, size, rng=None):
        """Canonical value for a scalar of kind u/i/f/p"""
        if isinstance(v, int):
            bits = 8 * size
            if kind == 'i':
                v &= (1 << bits) - 1
                if v >> (bits - 1):
                    v -= 1 << bits
            elif v < 0 or v >> bits:
                v &= (1 << bits) - 1
            return v
        if isinstance(v, Lin):
            bits = 8 * size
            lo, hi = interval(v, None)
            if kind == 'i':
                if lo is None or hi is None or lo < -(1 << (bits - 1)) or hi >= 1 << (bits - 1):
                    return self.wrap_i(st, v, bits)
            else:
                if lo is None or hi is None or lo < 0 or hi >= 1 << bits:
                    return self.wrap_u(st, v, bits)
        return v

    def load(self, st, r, off, t):
        sc = t['sc']
        if sc is not None:
            v = self.read_piece(st, r, off, sc[0])
            v = self.canon(st, v, sc[1], sc[0])
            if isinstance(v, Lin) and sc[3] is not None and sc[2]:
                self.valid_range(st, v, sc)
            elif isinstance(v, int) and sc[3] is not None and sc[2]:
                self.check_valid(st, v, sc, t)
            return v
        n = t['size']
        if n == 0:
            return {}
        if n is None:
            raise Unsupported('load of unsized')
        if r.cells is not None and isinstance(off, int):
            return self.slice_cells(st, r, off, n)
        # symbolic region: take a chunk, then split by leaf layout
        return self.load_leaves(st, r, off, t)

    def check_valid(self, st, v, sc, t):
        lo, hi = sc[3]
        bits = 8 * sc[0]
        u = v & ((1 << bits) - 1)
        ok = lo <= u <= hi if lo <= hi else (u >= lo or u <= hi)
        if not ok:
            self.report(st, 'mem', 'invalid value', 'value %s read as %s' % (show(v), t['name']))
            raise PathEnd()

    def valid_range(self, st, v, sc):
        """Values in memory satisfy the validity range of their type"""
        lo, hi = sc[3]
        bits = 8 * sc[0]
        if lo <= hi and not (lo == 0 and hi == (1 << bits) - 1) and sc[1] != 'i':
            l, h = interval(v, None)
            if l is None or l < lo:
                b = B('ge', sub(v, lo))
                if not self.holds(st, b):
                    if all(ATOMS[i].kind == 'cell' for i, _ in v.t):
                        self.assume(st, b)
                    else:
                        self.prove(st, 'mem', 'invalid value', b, 'value out of range of its type')
            if h is None or h > hi:
                b = B('ge', sub(hi, v))
                if not self.holds(st, b):
                    if all(ATOMS[i].kind == 'cell' for i, _ in v.t):
                        self.assume(st, b)
                    else:
                        self.prove(st, 'mem', 'invalid value', b, 'value out of range of its type')

    def leaves(self, t):
        """[(off, size)] of scalar leaves of a type, None if it has a variable shape"""
        lv = t.get('leaves', 0)
        if lv != 0:
            return lv
        t['leaves'] = r = self._leaves(t)
        return r

    def _leaves(self, t):
        types = self.p.types
        if t['size'] == 0:
            return []
        if t['sc'] is not None:
            return [(0, t['size'])]
        lay = t['layout']
        k = t['k']
        if lay['repr'] and 'a' in lay['repr'] and k in ('ref', 'rawptr'):
            return [(0, 8), (8, 8)]
        if k == 'array':
            e = self.leaves(types[t['elem']])
            if e is None or t['len'] > 64:
                return None
            s = types[t['elem']]['size']
            return [(i * s + o, n) for i in range(t['len']) for o, n in e]
        if k in ('struct', 'tuple', 'closure') and isinstance(lay['fields'], list):
            fs = t['variants'][0]['f'] if k == 'struct' else t['fields']
            out = []
            for o, f in zip(lay['fields'], fs):
                e = self.leaves(types[f])
                if e is None:
                    return None
                out += [(o + a, n) for a, n in e]
            return sorted(out)
        return None

    def load_leaves(self, st, r, off, t):
        lv = self.leaves(t)
        n = t['size']
        if lv is None:
            snap = r
            if r.cells is not None:
                snap = r.clone(None)
                self._to_log(snap)
            snap.owner = None
            return {0: (n, Chunk(snap, off))}
        return {o: (s, self.read_piece(st, r, add(off, o), s)) for o, s in lv}

    # ---------------------------------------------------------------- wrapping

    def to_num(self, st, v):
        if isinstance(v, B):
            return 1 if self.decide(st, v) else 0
        if v is UNDEF:
            self.report(st, 'mem', 'use of uninitialised memory', 'arithmetic on uninitialised value')
            raise PathEnd()
        if isinstance(v, FnVal):
            a, new = atom('fnaddr', (v.fn,), 1, ADDR_MAX, name='fn%d' % v.fn)
            return a
        if isinstance(v, Chunk):
            raise Unsupported('chunk as number')
        if isinstance(v, dict):
            raise Unsupported('aggregate as number')
        return v

    def wrap_u(self, st, v, bits):
        if isinstance(v, int):
            return v & ((1 << bits) - 1)
        v = st.cons.norm(v)
        if isinstance(v, int):
            return v & ((1 << bits) - 1)
        lo, hi = interval(v, st.cons.bounds)
        top = 1 << bits
        if lo is not None and hi is not None and lo >= 0 and hi < top:
            return v
        c = st.cons
        if bits == 64:
            # Multiples of 2^64 don't matter
            for _, k in v.t:
                if k % top == 0:
                    return self.wrap_u(st, Lin(v.c, tuple(x for x in v.t if x[1] % top)) if any(x[1] % top for x in v.t) else v.c, bits)
            if lo is not None and hi is not None and -top <= lo < 0 and hi < top and not c.ge(v):
                if c.ge(add(neg(v), -1)):
                    return add(v, top)
                # Whether a subtraction wraps is only decided when it matters. Addition of what
                # was subtracted may restore the number
                z = fdiv(v, top)
                c.add(add(z, 1))
                c.add(neg(z))
                for i, _ in z.t:
                    a = lin.ATOMS[i]
                    if a.kind == 'fdiv' and a.args[1] >> 48:
                        a.name = 'wraps'
                return sub(v, mulc(z, top))
        if lo is not None and hi is not None and lo >= -top and hi < 2 * top:
            if lo < 0 and not self.decide(st, B('ge', v)):
                return add(v, top)
            if hi >= top and self.decide(st, B('ge', sub(v, top))):
                return sub(v, top)
            return v
        if c.ge(v) and c.ge(sub(top - 1, v)):
            return v
        if self.decide(st, B('ge', v)) and self.decide(st, B('ge', sub(top - 1, v))):
            return v
        # remaining: out of range
        return sub(v, mulc(fdiv(v, top), top))

    def wrap_i(self, st, v, bits):
        half = 1 << (bits - 1)
        if isinstance(v, int):
            return ((v + half) & ((1 << bits) - 1)) - half
        v = st.cons.norm(v)
        if isinstance(v, int):
            return ((v + half) & ((1 << bits) - 1)) - half
        lo, hi = interval(v, st.cons.bounds)
        if lo is not None and hi is not None and lo >= -half and hi < half:
            return v
        if self.decide(st, B('ge', add(v, half))) and self.decide(st, B('ge', sub(half - 1, v))):
            return v
        w = self.wrap_u(st, add(v, half), bits)
        return sub(w, half)

    def in_range(self, v, t):
        """Boolean: v representable in type"""
        lo, hi = trange(t)
        if isinstance(v, int):
            return lo <= v <= hi, None
        return None, (B('ge', sub(v, lo)), B('ge', sub(hi, v)))

    def wrap(self, st, v, t):
        k = t['k']
        if k == 'int':
            return self.wrap_i(st, v, t['bits'])
        return self.wrap_u(st, v, tbits(t))

    # ---------------------------------------------------------------- frames

    def push_frame(self, st, fn, args, dest, ret, unw):
        self.fns_seen.add(fn.id)
        f = Frame()
        f.fn = fn
        f.bb, f.ip = 0, 0
        f.locals = [None] * len(fn.locals)
        f.regs = {}
        f.dest, f.ret, f.unw = dest, ret, unw
        f.line = fn.line
        f.hook = None
        f.loops = None
        st.frames.append(f)
        if len(st.frames) > 400:
            raise Unsupported('recursion too deep')
        for i, a in enumerate(args):
            l = i + 1
            if fn.mem[l]:
                r = self.local_region(st, f, l)
                self.store(st, r, 0, a, self.p.types[fn.locals[l]]['size'])
            else:
                f.locals[l] = a
        return f

    def local_region(self, st, fr, l):
        rid = fr.regs.get(l)
        if rid is not None:
            return st.regions[rid]
        t = self.p.types[fr.fn.locals[l]]
        r = self.new_region(st, t['size'], max(t['align'], 1), 'stack', '%s:_%d' % (fr.fn.name.split('::')[-1], l))
        fr.regs[l] = r.id
        return r

    def kill_local(self, st, fr, l):
        rid = fr.regs.pop(l, None)
        if rid is not None:
            r = self.wreg(st, rid)
            r.live = False
            r.cells = {} if r.cells is not None else None
            r.log = None
        else:
            fr.locals[l] = None

    def pop_frame(self, st):
        fr = st.frames.pop()
        for rid in fr.regs.values():
            # Frozen memory still must be intact
            r = self.wreg(st, rid)
            r.live = False
            r.cells = {}
            r.log = None
        return fr

    # ---------------------------------------------------------------- places

    def place(self, st, fr, pl):
        """Returns (kind, where, off/addr, type, meta).
        kind 0: local value `where`, offset; kind 1: memory address in `off`; kind 2: region of own local"""
        l, proj = pl
        types = self.p.types
        t = types[fr.fn.locals[l]]
        if fr.fn.mem[l]:
            kind = 2
            where = self.local_region(st, fr, l)
        else:
            kind = 0
            where = l
        off = 0
        meta = None
        var = None
        for e in proj:
            c = e[0]
            if c == '*':
                v = self.get(st, fr, (kind, where, off, t, meta), t)
                if t.get('box'):
                    if isinstance(v, dict):
                        v = v if 8 in v else v[0][1]
                    pt = t['targs'][0]
                else:
                    pt = t['elem']
                if isinstance(v, dict):
                    meta = v[8][1]
                    v = v[0][1]
                    if isinstance(v, Chunk):
                        raise Unsupported('chunk ptr')
                else:
                    meta = None
                if v is UNDEF or v is None:
                    self.report(st, 'mem', 'access through invalid pointer', 'dereference of uninitialised pointer')
                    raise PathEnd()
                kind, where, off = 1, None, v
                t = types[pt]
                var = None
            elif c == 'f':
                ft = types[e[2]]
                o = self.field_off(st, t, e[1], var, meta, ft)
                if o:
                    off = add(off, o)
                if kind == 0 and not isinstance(off, int):
                    raise Unsupported('symbolic offset in local')
                t = ft
                var = None
            elif c == 'd':
                var = e[1]
            elif c == 'i':
                idx = self.get(st, fr, self.place(st, fr, [e[1], []]), None)
                et = types[t['elem']]
                off = add(off, mulc(idx, et['size']))
                if kind == 0 and not isinstance(off, int):
                    raise Unsupported('symbolic index in local')
                t = et
            elif c == 'c':
                et = types[t['elem']]
                if e[3]:
                    n = t['len'] if t['k'] == 'array' else meta
                    off = add(off, mulc(sub(n, e[1]), et['size']))
                else:
                    off = add(off, e[1] * et['size'])
                t = et
            elif c == 's':
                et = types[t['elem']]
                off = add(off, e[1] * et['size'])
                if t['k'] == 'array':
                    raise Unsupported('subslice of array')
                meta = sub(sub(meta, e[2]), e[1]) if e[3] else e[2] - e[1]
            elif c == 'o':
                t = types[e[1]]
            else:
                raise Unsupported('projection %r' % (e,))
        return (kind, where, off, t, meta)

    def field_off(self, st, t, idx, var, meta, ft):
        lay = t['layout']
        fs = lay['fields']
        vs = lay['variants']
        if t['k'] == 'union':
            return 0
        if vs['k'] == 'multi':
            if var is None:
                return lay['fields'][idx]
            return vs['vs'][var][idx]
        if isinstance(fs, list):
            if var is not None and vs['k'] == 'single' and vs['i'] != var:
                return 0
            if idx >= len(fs):
                return 0
            return fs[idx]
        return 0

    def get(self, st, fr, pl, _t):
        """Load value of place"""
        kind, where, off, t, meta = pl
        if kind == 0:
            v = fr.locals[where]
            return self.sub_value(st, v, off, t, fr.fn.locals[where])
        if t['size'] == 0 and t['layout']['sized']:
            return {}
        if kind == 2:
            return self.load(st, where, off, t)
        if t['size'] is None or not t['layout']['sized']:
            raise Unsupported('load of unsized value')
        r, o = self.access(st, off, t['size'], 'read')
        return self.load(st, r, o, t)

    def sub_value(self, st, v, off, t, wtid):
        """Part of a local's value"""
        sc = t['sc']
        if isinstance(v, dict):
            n = t['size']
            if sc is not None:
                p = v.get(off)
                if p is not None and p[0] == n and not isinstance(p[1], Chunk):
                    x = p[1]
                    if isinstance(x, (int, Lin)):
                        return self.canon(st, x, sc[1], sc[0])
                    return x
                if not v:
                    return UNDEF
                if p is not None and p[0] == n:
                    return self.canon(st, self.read_piece(st, p[1].src, p[1].off, n), sc[1], n)
                # slow path
                r = Region()
                r.id, r.cells, r.log, r.init, r.name, r.owner = -1, v, None, 'undef', 'local', None
                return self.canon(st, self.read_cells_slow(st, r, off, n), sc[1], n)
            if n == 0:
                return {}
            wt = self.p.types[wtid]
            if off == 0 and n == wt['size']:
                return v
            out = {}
            end = off + n
            for k, (s, x) in v.items():
                if k >= off and k + s <= end:
                    out[k - off] = (s, x)
                elif k < end and k + s > off:
                    a, b = max(k, off), min(k + s, end)
                    out[a - off] = (b - a, self.sub_piece(st, x, s, a - k, b - a))
            return out
        if t['size'] == 0:
            return {}
        if v is None:
            return UNDEF if sc is not None else {}
        wt = self.p.types[wtid]
        if sc is not None:
            if off == 0 and sc[0] == wt['size']:
                if isinstance(v, (int, Lin)) and wt['sc'] is not None and wt['sc'][1] != sc[1]:
                    return self.canon(st, v, sc[1], sc[0])
                return v
            return self.canon(st, self.extract(st, v, wt['size'], off, sc[0]), sc[1], sc[0])
        # aggregate view of a scalar
        if off == 0 and t['size'] == wt['size']:
            return {0: (t['size'], v)}
        return {0: (t['size'], self.extract(st, v, wt['size'], off, t['size']))}

    def put(self, st, fr, pl, v):
        kind, where, off, t, meta = pl
        n = t['size']
        if n == 0:
            if kind == 0 and fr.locals[where] is None:
                fr.locals[where] = {} if self.p.types[fr.fn.locals[where]]['sc'] is None else None
            return
        if t['sc'] is not None and isinstance(v, dict):
            if len(v) == 1 and 0 in v and v[0][0] == n and not isinstance(v[0][1], Chunk):
                v = v[0][1]
            elif not v:
                v = UNDEF
            else:
                r = Region()
                r.id, r.cells, r.log, r.init, r.name, r.owner = -1, v, None, 'undef', 'tmp', None
                v = self.read_cells_slow(st, r, 0, n)
        elif t['sc'] is None and not isinstance(v, dict):
            if v is UNDEF or v is None:
                v = {}
            else:
                v = {0: (n, v)}
        if kind == 0:
            wt = self.p.types[fr.fn.locals[where]]
            if off == 0 and n == wt['size']:
                if wt['sc'] is not None and isinstance(v, dict):
                    v = v[0][1] if v else UNDEF
                elif wt['sc'] is None and not isinstance(v, dict):
                    v = {0: (n, v)}
                fr.locals[where] = v
                return
            old = fr.locals[where]
            if old is None or old is UNDEF:
                old = {}
            if not isinstance(old, dict):
                old = {0: (wt['size'], old)}
            new = dict(old)
            cells_clear(self, st, new, off, n)
            if isinstance(v, dict):
                for o, p in v.items():
                    new[off + o] = p
            else:
                new[off] = (n, v)
            fr.locals[where] = new
            if wt['sc'] is not None:
                raise Unsupported('partial write to scalar local')
            return
        if kind == 2:
            self.store(st, where, off, v, n)
            return
        r, o = self.access(st, off, n, 'write')
        self.check_align(st, off, t['align'], 'write')
        self.store(st, r, o, v, n)

    # ---------------------------------------------------------------- constants

    def alloc_region(self, st, aid):
        rid = self.static_regions.get(aid)
        if rid is not None and rid in st.regions:
            return st.regions[rid]
        a = self.p.allocs[aid]
        if a['k'] == 'fn':
            return None
        if a['k'] == 'vtable' or a['k'] == 'typeid':
            ini = None
        else:
            ini = a['init']
        if ini is None:
            size, align, init = 64, 8, 'undef'
        else:
            h = ini['b']
            bs = [None if h[i:i + 2] == '__' else int(h[i:i + 2], 16) for i in range(0, len(h), 2)]
            size, align = len(bs), ini['align']
            init = (bs, {o: p for o, p in ini['p']})
        if rid is None:
            r = self.new_region(st, size, align, 'static', 'static%d' % aid, init)
            self.static_regions[aid] = r.id
        else:
            # Same region, not yet in this state
            atomid = next(i for i, x in self.atom_region.items() if x[0] == rid)
            r = Region()
            r.id, r.atom, r.align, r.size = rid, atomid, align, size
            r.base = Lin(0, ((atomid, align),))
            r.kind, r.name, r.init = 'static', 'static%d' % aid, init
            r.live, r.log, r.cells, r.owner, r.site = True, None, {}, st.owner, None
            st.regions[rid] = r
        r.ro = not (ini and ini['mut']) or True
        if a['k'] == 'static' and ini and ini['mut']:
            r.ro = False
        return r

    def alloc_ptr(self, st, aid, addend):
        a = self.p.allocs[aid]
        if a['k'] == 'fn':
            return FnVal(a['fn'])
        r = self.alloc_region(st, aid)
        return add(r.base, addend)

    def const(self, st, o):
        t = self.p.types[o[1]]
        a = o[2]
        if a == 'zst':
            return {}
        if a == 'unknown':
            self.report(self.st, 'const', 'constant fails to evaluate', 'constant of type %s: program does not compile' % t['name'])
            raise PathEnd()
        key = '_c' + str(self.mode)
        if len(o) > 3:
            return o[3]
        h = a['b']
        provs = {x: y for x, y in a['p']}
        sc = t['sc']
        if sc is not None:
            if provs:
                return self.alloc_ptr(st, provs[0], int.from_bytes(bytes.fromhex(h.replace('__', '00')), 'little'))
            if '__' in h:
                return UNDEF
            v = int.from_bytes(bytes.fromhex(h), 'little')
            v = self.canon(st, v, sc[1], sc[0])
            o.append(v)
            return v
        bs = [None if h[i:i + 2] == '__' else int(h[i:i + 2], 16) for i in range(0, len(h), 2)]
        if not bs:
            return {}
        # Split in leaves
        lv = self.leaves(t)
        out = {}
        if lv is None:
            i = 0
            lv = []
            n = len(bs)
            align = max(1, min(8, t['align'] or 1))
            while i < n:
                s = align
                while i + s > n:
                    s //= 2
                lv.append((i, s))
                i += s
            # provenance entries must be whole
        for off, s in lv:
            if off in provs and s == 8:
                out[off] = (8, self.alloc_ptr(st, provs[off], int.from_bytes(bytes(bs[off:off + 8]), 'little')))
                continue
            part = bs[off:off + s]
            if None in part:
                for j, b in enumerate(part):
                    if b is not None:
                        out[off + j] = (1, b)
                continue
            out[off] = (s, int.from_bytes(bytes(part), 'little'))
        return out

    def operand(self, st, fr, o):
        c = o[0]
        if c == 'p' or c == 'm':
            pl = o[1]
            if not pl[1]:
                l = pl[0]
                if not fr.fn.mem[l]:
                    v = fr.locals[l]
                    if v is None:
                        t = self.p.types[fr.fn.locals[l]]
                        return UNDEF if t['sc'] is not None else {}
                    return v
            return self.get(st, fr, self.place(st, fr, pl), None)
        if c == 'k':
            return self.const(st, o)
        if c == 'rt':
            if o[1] == 'OverflowChecks':
                return self.overflow_checks
            return 0
        raise Unsupported('operand %r' % (o,))

    def op_type(self, fr, o):
        if o[0] == 'k':
            return self.p.types[o[1]]
        if o[0] == 'rt':
            return None
        l, proj = o[1]
        t = self.p.types[fr.fn.locals[l]]
        for e in proj:
            if e[0] == '*':
                t = self.p.types[t['targs'][0] if t.get('box') else t['elem']]
            elif e[0] == 'f':
                t = self.p.types[e[2]]
            elif e[0] in ('i', 'c'):
                t = self.p.types[t['elem']]
            elif e[0] == 'o':
                t = self.p.types[e[1]]
        return t

    # ---------------------------------------------------------------- step

    def step(self, st):
        fr = st.frames[-1]
        stmts, term = fr.fn.blocks[fr.bb]
        n = len(stmts)
        self.stats['stmts'] += n + 1
        while fr.ip < n:
            s = stmts[fr.ip]
            c = s[0]
            if c == '=':
                fr.line = s[3][1]
                self.assign(st, fr, s[1], s[2])
            elif c == 'live':
                self.kill_local(st, fr, s[1])
            elif c == 'dead':
                self.kill_local(st, fr, s[1])
            elif c == 'sd':
                self.set_discr(st, fr, s[1], s[2])
            elif c == 'assume':
                b = self.operand(st, fr, s[1])
                self.prove(st, 'ub', 'assume of false condition', self.as_bool(b))
            elif c == 'cno':
                src = self.operand(st, fr, s[1])
                dst = self.operand(st, fr, s[2])
                cnt = self.operand(st, fr, s[3])
                t = self.p.types[self.op_type(fr, s[1])['elem']]
                self.do_copy(st, src, dst, mulc(self.to_num(st, cnt), t['size']), t['align'], True)
            else:
                raise Unsupported('statement %r' % (s,))
            fr.ip += 1
        self.terminator(st, fr, term)

    def as_bool(self, v):
        return v

    def jump(self, st, fr, bb):
        src = fr.bb
        fr.bb, fr.ip = bb, 0
        st.steps += 1
        fn = fr.fn
        li = fn.loopinfo or loops.loop_info(fn)
        if bb in li[1]:
            loops.visit(self, st, fr, bb, src)
        if st.steps > 200000:
            raise Unsupported('path too long')

    def terminator(self, st, fr, t):
        c = t[0]
        if c == 'goto':
            self.jump(st, fr, t[1])
        elif c == 'switch':
            fr.line = t[5][1]
            v = self.operand(st, fr, t[1])
            if v is UNDEF:
                self.report(st, 'mem', 'branch on uninitialised memory', 'switch on uninitialised value')
                raise PathEnd()
            ty = self.p.types[t[4]]
            if isinstance(v, dict):
                raise Unsupported('switch on aggregate')
            if isinstance(v, B):
                v = 1 if self.decide(st, v) else 0
            sgn = ty['k'] == 'int'
            for val, bb in t[2]:
                val = int(val)
                if sgn and val >> (ty['bits'] - 1):
                    val -= 1 << ty['bits']
                if isinstance(v, int):
                    if v == val:
                        self.jump(st, fr, bb)
                        return
                elif self.decide(st, B('eq', sub(v, val))):
                    self.jump(st, fr, bb)
                    return
            self.jump(st, fr, t[3])
        elif c == 'call':
            fr.line = t[7][1]
            self.call(st, fr, t)
        elif c == 'ret':
            self.do_return(st, fr)
        elif c == 'drop':
            fr.line = t[6][1]
            if t[2] is None:
                self.jump(st, fr, t[3])
                return
            kind, where, off, ty, meta = self.place(st, fr, t[1])
            if kind == 0:
                raise Unsupported('drop of local value')
            addr = add(where.base, off) if kind == 2 else off
            v = addr if meta is None else {0: (8, addr), 8: (8, meta)}
            fn = self.p.fns[t[2]]
            self.enter(st, fr, fn, [v], None, t[3], t[4])
        elif c == 'assert':
            fr.line = t[6][1]
            v = self.operand(st, fr, t[1])
            ok = self.decide(st, v if t[2] else self.negate(v))
            if ok:
                self.jump(st, fr, t[4])
            else:
                self.start_panic(st, 'assertion failed: ' + t[3], t[5])
        elif c == 'resume':
            self.resume(st)
        elif c == 'unreach':
            self.count('ub')
            self.report(st, 'ub', 'unreachable code reached', 'control reaches code declared unreachable')
            raise PathEnd()
        elif c == 'abort':
            self.report(st, 'ub', 'abort reached', 'abort')
            raise PathEnd()
        else:
            raise Unsupported('terminator ' + c)

    def negate(self, v):
        if isinstance(v, int):
            return 1 - v
        if isinstance(v, B):
            return bnot(v)
        if v is UNDEF:
            return v
        return B('eq', v)

    # ---------------------------------------------------------------- panics

    def start_panic(self, st, msg, unw):
        self.stats['panics'] += 1
        self.count('panic')
        if st.unwinding is not None:
            self.report(st, 'ub', 'panic while unwinding', msg)
            raise PathEnd()
        allowed = False
        for b in st.panic_ok:
            if self.holds(st, b):
                allowed = True
                break
        if not allowed:
            for b in st.panic_ok:
                if isinstance(b, B) and self.decide(st, b):
                    allowed = True
                    break
        if not allowed:
            self.report(st, 'panic', 'unexpected panic', msg)
            raise PathEnd()
        st.unwinding = msg
        self.unwind_to(st, unw)

    def unwind_to(self, st, unw):
        """Continue unwinding from call in top frame with unwind action"""
        while True:
            fr = st.frames[-1]
            if isinstance(unw, int):
                self.jump(st, fr, unw)
                return
            if unw == 'unreach' or unw == 'term':
                self.report(st, 'ub', 'panic in function which must not unwind', str(st.unwinding))
                raise PathEnd()
            # continue
            self.pop_frame(st)
            if fr.hook is not None:
                fr.hook(self, st, fr, True)
                return
            if not st.frames:
                self.finish(st, True)
            unw = fr.unw

    def resume(self, st):
        fr = self.pop_frame(st)
        if fr.hook is not None:
            fr.hook(self, st, fr, True)
            return
        if not st.frames:
            self.finish(st, True)
        self.unwind_to(st, fr.unw)

    def finish(self, st, panicked):
        if not st.flags.get('leak_ok') and not st.flags.get('noleak_unchecked'):
            self.count('leak')
            for r in st.regions.values():
                if r.kind == 'heap' and r.live:
                    st.frames.append(self.dummy_frame())
                    self.report(st, 'alloc', 'memory leak', 'allocation made at %s is never freed' % (r.site,))
                    st.frames.pop()
                    break
        raise PathEnd()

    def dummy_frame(self):
        f = Frame()
        f.fn = self.p.fns[next(v for k, v in self.p.roots.items() if k.endswith('::' + self.probe) or k == self.probe)]
        f.line = f.fn.line
        return f

    def do_return(self, st, fr):
        fn = fr.fn
        rt = self.p.types[fn.locals[0]]
        if fn.mem[0]:
            v = self.load(st, self.local_region(st, fr, 0), 0, rt) if rt['size'] else {}
        else:
            v = fr.locals[0]
            if v is None:
                v = UNDEF if rt['sc'] is not None else {}
        self.pop_frame(st)
        if fr.hook is not None:
            fr.hook(self, st, fr, False)
            return
        if not st.frames:
            self.finish(st, False)
        caller = st.frames[-1]
        if fr.dest is not None:
            self.put(st, caller, self.place(st, caller, fr.dest), v)
        if fr.ret is None:
            self.report(st, 'ub', 'unreachable code reached', 'function declared diverging returned')
            raise PathEnd()
        self.jump(st, caller, fr.ret)

    # ---------------------------------------------------------------- calls

    def call(self, st, fr, t):
        callee = t[1]
        if isinstance(callee, list):
            if callee[0] == 'ptr':
                v = self.operand(st, fr, callee[1])
                if not isinstance(v, FnVal):
                    raise Unsupported('call through pointer')
                fn = self.p.fns[v.fn]
            else:
                raise Unsupported('unresolved call to ' + callee[1])
        else:
            fn = self.p.fns[callee]
        args = [self.operand(st, fr, o) for o in t[2]]
        dest, target, unw, rust_call = t[3], t[4], t[5], t[6]
        if isinstance(callee, list) and fn.nargs == len(args) + 1 and 'closure@' in fn.name:
            # Closure as function pointer has no captures
            args.insert(0, {})
        if fn.intr is not None and fn.intr in INTR:
            self.calls_seen.add(fn.id)
            v = INTR[fn.intr](self, st, fr, fn, args, t)
            if v is SKIP:
                return
            if target is None:
                self.report(st, 'ub', 'unreachable code reached', fn.intr)
                raise PathEnd()
            self.put(st, fr, self.place(st, fr, dest), v)
            self.jump(st, fr, target)
            return
        h = hook_for(fn)
        if h is not None:
            v = h(self, st, fr, fn, args, t)
            if v is SKIP:
                return
            if target is None:
                raise Unsupported('hook returned from diverging function ' + fn.name)
            self.put(st, fr, self.place(st, fr, dest), v)
            self.jump(st, fr, target)
            return
        if not fn.has_body:
            if fn.cut or fn.nobody:
                self.cut_call(st, fr, fn, args, t)
                return
            raise Unsupported('call of %s (%s)' % (fn.name, fn.intr or 'no body'))
        if rust_call and fn.spread is None and fn.nargs != len(args) or (rust_call and fn.spread is None and 'closure' in fn.name and len(t[2]) == 2):
            tt = self.op_type(fr, t[2][-1])
            tup = args.pop()
            lay = tt['layout']
            for i, f in enumerate(tt['fields']):
                o = lay['fields'][i] if isinstance(lay['fields'], list) else 0
                args.append(self.sub_value(st, tup, o, self.p.types[f], tt['id']))
        self.enter(st, fr, fn, args, dest, target, unw)

    def enter(self, st, fr, fn, args, dest, target, unw):
        if fn.intr is not None or not fn.has_body:
            raise Unsupported('enter ' + fn.name)
        if len(args) != fn.nargs:
            raise Unsupported('argument count of %s: %d != %d' % (fn.name, len(args), fn.nargs))
        self.push_frame(st, fn, args, dest, target, unw)

    def cut_call(self, st, fr, fn, args, t):
        name = fn.name
        if 'handle_alloc_error' in name:
            self.stats['aborts'] += 1
            raise PathEnd()
        if 'raw_vec::handle_error' in name and len(args) == 1:
            # `TryReserveError`: allocation failure aborts, capacity overflow panics
            at = self.op_type(fr, t[2][0])
            kt = self.p.types[at['variants'][0]['f'][0]]
            r = self.new_region(st, at['size'], at['align'], 'stack', 'err')
            self.store(st, r, 0, args[0], at['size'])
            off = at['layout']['fields'][0] if isinstance(at['layout']['fields'], list) else 0
            d = self.discriminant(st, fr, (2, st.regions[r.id], off, kt, None), None)
            if kt['variants'][0]['n'] != 'CapacityOverflow':
                raise Unsupported('TryReserveErrorKind')
            if d != int(kt['variants'][0]['d']):
                self.stats['aborts'] += 1
                raise PathEnd()
        if t[4] is None:
            if 'nounwind' in name or 'cannot_unwind' in name or 'panic_in_cleanup' in name or 'nounwind' in fr.fn.name:
                self.report(st, 'ub', 'panic in function which must not unwind', name)
                raise PathEnd()
            self.start_panic(st, name, t[5])
            return
        # Formatting etc: opaque
        ty = self.op_type(fr, ['p', t[3]])
        self.put(st, fr, self.place(st, fr, t[3]), self.havoc(st, ty))
        self.jump(st, fr, t[4])

    def havoc(self, st, ty):
        if ty['size'] == 0:
            return {}
        if ty['sc'] is not None:
            sc = ty['sc']
            lo, hi = trange_sc(sc)
            return fresh('havoc', lo, hi)
        return {}

    # ---------------------------------------------------------------- memory intrinsics

    def do_copy(self, st, src, dst, n, align, nonoverlap, what='copy'):
        n = st.cons.norm(n)
        if not isinstance(n, int) and self.is_zero(st, n):
            n = 0
        self.check_align(st, src, align, 'source of copy')
        self.check_align(st, dst, align, 'destination of copy')
        if n == 0:
            return
        if not isinstance(n, int):
            sr, _ = self.resolve(st, src)
            dr, _ = self.resolve(st, dst)
            if sr is None or dr is None or not sr.live or not dr.live:
                # May be of zero length
                if not self.decide(st, B('ge', add(n, -1))):
                    return
        r1, o1 = self.access(st, src, n, what + ' source')
        r2, o2 = self.access(st, dst, n, what + ' destination')
        if nonoverlap and r1.id == r2.id:
            d = sub(o1, o2)
            self.count('mem')
            if not (st.cons.ge(sub(d, n)) or st.cons.ge(sub(neg(d), n))):
                if not self.is_zero(st, n):
                    self.report(st, 'mem', 'overlapping copy_nonoverlapping', 'source and destination may overlap')
        self.copy(st, r1, o1, r2, o2, n)

    # ---------------------------------------------------------------- assignment

    def assign(self, st, fr, dst, rv):
        v = self.rvalue(st, fr, dst, rv)
        if not dst[1]:
            l = dst[0]
            if not fr.fn.mem[l]:
                t = self.p.types[fr.fn.locals[l]]
                if t['sc'] is not None:
                    if not isinstance(v, dict):
                        fr.locals[l] = v
                        return
                elif isinstance(v, dict):
                    fr.locals[l] = v
                    return
        self.put(st, fr, self.place(st, fr, dst), v)

    def ptr_value(self, st, addr, meta):
        if meta is None:
            return addr
        return {0: (8, addr), 8: (8, meta)}

    def rvalue(self, st, fr, dst, rv):
        c = rv[0]
        if c == 'use':
            return self.operand(st, fr, rv[1])
        if c == 'ref' or c == 'addr':
            kind, where, off, t, meta = self.place(st, fr, rv[1])
            if kind == 0:
                raise Unsupported('address of value local')
            addr = add(where.base, off) if kind == 2 else off
            if c == 'ref' and kind == 1:
                self.check_ref(st, addr, t, meta)
            if t['layout'] is not None and t['layout']['sized']:
                meta = None
            return self.ptr_value(st, addr, meta)
        if c == 'bin':
            a = self.operand(st, fr, rv[2])
            b = self.operand(st, fr, rv[3])
            return self.binop(st, fr, rv[1], a, b, self.p.types[rv[4]], rv)
        if c == 'cbin':
            a = self.to_num(st, self.operand(st, fr, rv[2]))
            b = self.to_num(st, self.operand(st, fr, rv[3]))
            t = self.p.types[rv[4]]
            v, ov = self.checked(st, rv[1], a, b, t)
            n = t['size']
            return {0: (n, v), n: (1, ov)}
        if c == 'un':
            a = self.operand(st, fr, rv[2])
            t = self.p.types[rv[3]]
            if rv[1] == 'Not':
                if t['k'] == 'bool':
                    if isinstance(a, (int, B)):
                        return bnot(a)
                    return self.negate(a)
                a = self.to_num(st, a)
                if t['k'] == 'int':
                    return sub(-1, a)
                return sub((1 << t['bits']) - 1, a)
            if rv[1] == 'Neg':
                if t['k'] == 'float':
                    return fresh('float', 0, (1 << (8 * t['size'])) - 1)
                return self.wrap(st, neg(self.to_num(st, a)), t)
            if rv[1] == 'PtrMetadata':
                if isinstance(a, dict):
                    return a[8][1]
                return {}
            raise Unsupported('unop ' + rv[1])
        if c == 'cast':
            return self.cast(st, fr, rv)
        if c == 'agg':
            return self.aggregate(st, fr, rv)
        if c == 'disc':
            pl = self.place(st, fr, rv[1])
            return self.discriminant(st, fr, pl, self.p.types[rv[2]])
        if c == 'len':
            kind, where, off, t, meta = self.place(st, fr, rv[1])
            return t['len'] if t['k'] == 'array' else meta
        if c == 'rep':
            v = self.operand(st, fr, rv[1])
            n = rv[2]
            t = self.p.types[rv[3]]
            et = self.p.types[t['elem']]
            s = et['size']
            if n is None or n * s > 8192:
                raise Unsupported('big repeat')
            out = {}
            if s == 0:
                return {}
            for i in range(n):
                if isinstance(v, dict):
                    for o, p in v.items():
                        out[i * s + o] = p
                elif v is not UNDEF:
                    out[i * s] = (s, v)
            if t['sc'] is not None:
                return out[0][1] if out else UNDEF
            return out
        raise Unsupported('rvalue ' + c)

    def check_ref(self, st, addr, t, meta):
        """Creating a reference from a pointer: must be aligned, non-null and in bounds"""
        lay = t['layout']
        if lay is None:
            return
        align = lay['align']
        if isinstance(addr, (FnVal, B)) or addr is UNDEF or isinstance(addr, dict):
            self.report(st, 'mem', 'access through invalid pointer', 'reference from invalid pointer')
            raise PathEnd()
        if align > 1:
            self.check_align(st, addr, align, 'reference')
        if lay['sized']:
            n = t['size']
        elif t['k'] in ('slice', 'str'):
            n = mulc(meta, self.p.types[t['elem']]['size']) if t['k'] == 'slice' else meta
            if n is UNDEF:
                raise Unsupported('undef meta')
        else:
            return
        n = st.cons.norm(n)
        if n == 0:
            self.prove_nonnull(st, addr)
            return
        if not isinstance(n, int):
            r, off = self.resolve(st, addr)
            if r is None or not r.live:
                # Only fine if of zero length
                self.count('mem')
                if self.is_zero(st, n):
                    return
                if self.decide(st, B('ge', add(n, -1))):
                    self.access(st, addr, n, 'reference')
                return
        self.access(st, addr, n, 'reference')

    def prove_nonnull(self, st, addr):
        if isinstance(addr, int):
            if addr == 0:
                self.report(st, 'mem', 'null reference', 'reference to null')
                raise PathEnd()

    # --- aggregates / discriminants

    def aggregate(self, st, fr, rv):
        kind, tid, ops = rv[1], rv[2], rv[3]
        t = self.p.types[tid]
        types = self.p.types
        k = kind[0]
        vals = [self.operand(st, fr, o) for o in ops]
        if k == 'rawptr':
            a, m = vals
            if isinstance(a, dict):
                a = a[0][1]
            if m == {}:
                return a
            return {0: (8, a), 8: (8, m)}
        n = t['size']
        if n == 0:
            return {}
        lay = t['layout']
        pieces = {}
        if k == 'array':
            et = types[t['elem']]
            for i, v in enumerate(vals):
                put_piece(pieces, i * et['size'], et['size'], v)
        else:
            if k == 'adt':
                var = kind[1]
                ftys = t['variants'][var]['f']
                if kind[2] is not None and t['k'] == 'union':
                    ft = types[ftys[kind[2]]]
                    put_piece(pieces, 0, ft['size'], vals[0])
                    return self.scalarise(t, pieces)
            else:
                var = None
                ftys = t['fields']
            vs = lay['variants']
            for i, v in enumerate(vals):
                ft = types[ftys[i]]
                if ft['size'] == 0:
                    continue
                if vs['k'] == 'multi':
                    o = vs['vs'][var][i]
                else:
                    o = lay['fields'][i] if isinstance(lay['fields'], list) else 0
                put_piece(pieces, o, ft['size'], v)
            if vs['k'] == 'multi':
                tag = self.tag_value(t, var)
                if tag is not None:
                    sz = vs['tag'][0]
                    # niche tags never overlap with fields which are set
                    cells_clear(self, st, pieces, vs['toff'], sz)
                    pieces[vs['toff']] = (sz, tag)
        return self.scalarise(t, pieces)

    def scalarise(self, t, pieces):
        if t['sc'] is not None:
            if not pieces:
                return UNDEF
            if 0 in pieces and pieces[0][0] == t['size']:
                v = pieces[0][1]
                if isinstance(v, Chunk):
                    return pieces
                return v
            return pieces
        return pieces

    def tag_value(self, t, var):
        vs = t['layout']['variants']
        sc = vs['tag']
        bits = 8 * sc[0]
        if vs['enc'] == 'direct':
            d = int(t['variants'][var]['d']) & ((1 << bits) - 1)
        else:
            e = vs['enc']
            if var == e['untagged']:
                return None
            d = (int(e['start']) + var - e['lo']) & ((1 << bits) - 1)
        if sc[1] == 'i' and d >> (bits - 1):
            d -= 1 << bits
        return d

    def set_discr(self, st, fr, pl, var):
        kind, where, off, t, meta = self.place(st, fr, pl)
        vs = t['layout']['variants']
        if vs['k'] != 'multi':
            return
        tag = self.tag_value(t, var)
        if tag is None:
            return
        raise Unsupported('set discriminant')

    def discriminant(self, st, fr, pl, rt):
        kind, where, off, t, meta = pl
        vs = t['layout']['variants']
        if t['k'] not in ('enum',):
            return 0
        if vs['k'] == 'single':
            return self.disc_val(t, vs['i'], rt)
        if vs['k'] == 'empty':
            self.report(st, 'ub', 'unreachable code reached', 'discriminant of uninhabited type')
            raise PathEnd()
        sc = vs['tag']
        tt = {'sc': (sc[0], 'u' if sc[1] == 'p' else sc[1], True, None), 'size': sc[0], 'align': 1, 'layout': {'sized': True}, 'k': 'uint', 'name': 'tag'}
        tag = self.get(st, fr, (kind, where, add(off, vs['toff']), tt, meta), None)
        if tag is UNDEF:
            self.report(st, 'mem', 'use of uninitialised memory', 'discriminant of uninitialised value')
            raise PathEnd()
        if isinstance(tag, B):
            tag = 1 if self.decide(st, tag) else 0
        if isinstance(tag, FnVal):
            tag = self.to_num(st, tag)
        if vs['enc'] == 'direct':
            cands = []
            for i, v in enumerate(t['variants']):
                d = self.tag_value(t, i)
                cands.append((d, i))
            if isinstance(tag, int):
                for d, i in cands:
                    if d == tag:
                        return self.disc_val(t, i, rt)
                self.report(st, 'mem', 'invalid value', 'invalid discriminant of ' + t['name'])
                raise PathEnd()
            # Symbolic: must be a valid one
            for d, i in cands[:-1]:
                if self.decide(st, B('eq', sub(tag, d))):
                    return self.disc_val(t, i, rt)
            self.assume(st, B('eq', sub(tag, cands[-1][0])))
            return self.disc_val(t, cands[-1][1], rt)
        e = vs['enc']
        start = int(e['start'])
        bits = 8 * sc[0]
        for var in range(e['lo'], e['hi'] + 1):
            if var == e['untagged']:
                continue
            d = (start + var - e['lo']) & ((1 << bits) - 1)
            if sc[1] == 'i' and d >> (bits - 1):
                d -= 1 << bits
            if isinstance(tag, int):
                if tag == d:
                    return self.disc_val(t, var, rt)
            elif self.decide(st, B('eq', sub(tag, d))):
                return self.disc_val(t, var, rt)
        return self.disc_val(t, e['untagged'], rt)

    def disc_val(self, t, var, rt):
        d = int(t['variants'][var]['d'])
        if rt is None:
            return d
        bits = rt.get('bits', 64)
        d &= (1 << bits) - 1
        if rt['k'] == 'int' and d >> (bits - 1):
            d -= 1 << bits
        return d

    # --- casts

    def cast(self, st, fr, rv):
        kind, o, ft, tt, extra = rv[1], rv[2], self.p.types[rv[3]], self.p.types[rv[4]], rv[5]
        v = self.operand(st, fr, o)
        if kind == 'IntToInt' or kind in ('PointerExposeAddress', 'PointerWithExposedProvenance'):
            if v is UNDEF:
                return UNDEF
            if isinstance(v, B) and tt['k'] != 'bool':
                v = self.to_num(st, v)
            if isinstance(v, dict):
                # enum as int cast goes via discriminant
                if ft['k'] == 'enum':
                    raise Unsupported('enum cast')
                v = v[0][1]
            v = self.to_num(st, v)
            if tt['k'] in ('int', 'uint', 'char', 'bool'):
                return self.wrap(st, v, tt)
            return v
        if kind in ('PtrToPtr', 'FnPtrToPtr'):
            if isinstance(v, dict) and 8 in v and not is_wide(tt, self.p.types):
                return v[0][1]
            return v
        if kind == 'BoxDerefTransmute' or 'BoxDeref' in kind:
            if isinstance(v, dict):
                if len(v) > 1 and 8 in v:
                    return v
                v = v[0][1] if v else UNDEF
            return v
        if kind == 'Transmute' or kind == 'Subtype':
            return self.transmute(st, v, ft, tt)
        if kind == 'Unsize':
            # array -> slice, or to dyn
            a, b = pointee(ft, self.p.types), pointee(tt, self.p.types)
            while a['k'] in ('struct',) and b['k'] in ('struct',):
                raise Unsupported('struct unsizing')
            if a['k'] == 'array' and b['k'] == 'slice':
                if isinstance(v, dict):
                    v = v[0][1]
                return {0: (8, v), 8: (8, a['len'])}
            if b['k'] == 'dyn':
                if isinstance(v, dict):
                    return v
                return {0: (8, v), 8: (8, fresh('vtable', 1, ADDR_MAX))}
            raise Unsupported('unsize %s -> %s' % (ft['name'], tt['name']))
        if kind.startswith('ReifyFnPointer') or kind.startswith('ClosureFnPointer'):
            return FnVal(extra)
        if kind in ('MutToConstPointer', 'ArrayToPointer', 'UnsafeFnPointer'):
            return v
        if kind in ('FloatToInt', 'FloatToFloat', 'IntToFloat'):
            return self.havoc(st, tt)
        raise Unsupported('cast ' + kind)

    def transmute(self, st, v, ft, tt):
        if isinstance(v, dict):
            if tt['sc'] is not None:
                n = tt['size']
                if not v:
                    return UNDEF
                if 0 in v and v[0][0] == n and not isinstance(v[0][1], Chunk):
                    return self.canon(st, v[0][1], tt['sc'][1], n)
                r = Region()
                r.id, r.cells, r.log, r.init, r.name, r.owner = -1, v, None, 'undef', 'tmp', None
                x = self.read_piece(st, r, 0, n)
                return self.canon(st, x, tt['sc'][1], n)
            return v
        if tt['sc'] is not None:
            if isinstance(v, (int, Lin)):
                return self.canon(st, v, tt['sc'][1], tt['size'])
            return v
        if tt['size'] == 0:
            return {}
        if v is UNDEF:
            return {}
        return {0: (tt['size'], v)}

    # --- arithmetic

    def checked(self, st, op, a, b, t):
        op = op.replace('Unchecked', '')
        if op == 'Add':
            r = add(a, b)
        elif op == 'Sub':
            r = sub(a, b)
        elif op == 'Mul':
            r = self.mul(st, a, b)
        else:
            raise Unsupported('checked ' + op)
        r = st.cons.norm(r)
        lo, hi = trange(t)
        if isinstance(r, int):
            if lo <= r <= hi:
                return r, 0
            return self.wrap(st, r, t), 1
        ok = self.decide(st, B('ge', sub(r, lo))) and self.decide(st, B('ge', sub(hi, r)))
        if ok:
            return r, 0
        return self.wrap(st, r, t), 1

    def mul(self, st, a, b):
        if isinstance(a, int):
            return mulc(b, a)
        if isinstance(b, int):
            return mulc(a, b)
        a, b = st.cons.norm(a), st.cons.norm(b)
        if isinstance(a, int):
            return mulc(b, a)
        if isinstance(b, int):
            return mulc(a, b)
        la, ha = interval(a, st.cons.bounds)
        lb, hb = interval(b, st.cons.bounds)
        if hash(a) > hash(b):
            a, b = b, a
        lo = hi = None
        if None not in (la, ha, lb, hb):
            ps = [la * lb, la * hb, ha * lb, ha * hb]
            lo, hi = min(ps), max(ps)
        v, _ = atom('mul', (a, b), lo, hi, name='(%s)*(%s)' % (show(a), show(b)))
        return v

    def binop(self, st, fr, op, a, b, t, rv):
        if op == 'Offset':
            et = self.p.types[t['elem']]
            return self.ptr_offset(st, a, mulc(self.to_num(st, b), et['size']), True)
        if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge', 'Cmp'):
            return self.compare(st, op, a, b, t)
        if t['k'] == 'float':
            return fresh('float', 0, (1 << (8 * t['size'])) - 1)
        if t['k'] == 'bool':
            return self.boolop(st, op, a, b)
        a = self.to_num(st, a)
        b = self.to_num(st, b)
        if op in ('Add', 'Sub', 'Mul'):
            r = add(a, b) if op == 'Add' else sub(a, b) if op == 'Sub' else self.mul(st, a, b)
            return self.wrap(st, r, t)
        if op in ('AddUnchecked', 'SubUnchecked', 'MulUnchecked'):
            r = add(a, b) if op[0] == 'A' else sub(a, b) if op[0] == 'S' else self.mul(st, a, b)
            lo, hi = trange(t)
            self.prove(st, 'ub', 'unchecked arithmetic overflows', self.b_ge(sub(r, lo)))
            self.prove(st, 'ub', 'unchecked arithmetic overflows', self.b_ge(sub(hi, r)))
            return r
        if op in ('Div', 'Rem'):
            return self.divrem(st, op, a, b, t)
        if op in ('BitAnd', 'BitOr', 'BitXor'):
            return self.bitop(st, op, a, b, t)
        if op in ('Shl', 'Shr', 'ShlUnchecked', 'ShrUnchecked'):
            return self.shift(st, op, a, b, t)
        raise Unsupported('binop ' + op)

    def b_ge(self, e):
        if isinstance(e, int):
            self.st.log = ('ge', e, self.st.log)
            return 1 if e >= 0 else 0
        return B('ge', e)

    def b_eq(self, e):
        if isinstance(e, int):
            self.st.log = ('ne', e, self.st.log)
            return 1 if e == 0 else 0
        return B('eq', e)

    def compare(self, st, op, a, b, t):
        if t['k'] == 'float':
            return fresh('fcmp', 0, 1)
        if isinstance(a, dict) or isinstance(b, dict):
            if not isinstance(a, dict) or not isinstance(b, dict):
                raise Unsupported('comparison')
            # wide pointers
            if op in ('Eq', 'Ne'):
                x = self.compare(st, 'Eq', a[0][1], b[0][1], {'k': 'uint'})
                y = self.compare(st, 'Eq', a[8][1], b[8][1], {'k': 'uint'})
                r = 1 if self.decide(st, x) and self.decide(st, y) else 0
                return r if op == 'Eq' else 1 - r
            raise Unsupported('wide compare')
        if t['k'] == 'bool' and isinstance(a, B) and b in (0, 1) and isinstance(b, int) and op in ('Eq', 'Ne'):
            return a if (b == 1) == (op == 'Eq') else bnot(a)
        a = self.to_num(st, a)
        b = self.to_num(st, b)
        if op in ('Eq', 'Ne') and self.distinct(st, a, b):
            return 0 if op == 'Eq' else 1
        if op == 'Eq':
            return self.b_eq(sub(a, b))
        if op == 'Ne':
            e = sub(a, b)
            if isinstance(e, int):
                st.log = ('ne', e, st.log)
                return 1 if e else 0
            return B('ne', e)
        if op == 'Ge':
            return self.b_ge(sub(a, b))
        if op == 'Gt':
            return self.b_ge(add(sub(a, b), -1))
        if op == 'Le':
            return self.b_ge(sub(b, a))
        if op == 'Lt':
            return self.b_ge(add(sub(b, a), -1))
        # Cmp -> Ordering (i8)
        if self.decide(st, self.b_eq(sub(a, b))):
            return 0
        return 1 if self.decide(st, self.b_ge(sub(a, b))) else -1

    def boolop(self, st, op, a, b):
        if isinstance(b, int) and not isinstance(a, int):
            a, b = b, a
        if isinstance(a, int):
            if op == 'BitAnd':
                return b if a else 0
            if op == 'BitOr':
                return 1 if a else b
            if op == 'BitXor':
                return self.negate(b) if a else b
        if op == 'BitAnd':
            return (1 if self.decide(st, b) else 0) if self.decide(st, a) else 0
        if op == 'BitOr':
            return 1 if self.decide(st, a) else (1 if self.decide(st, b) else 0)
        if op == 'BitXor':
            return 1 if self.decide(st, a) != self.decide(st, b) else 0
        raise Unsupported('boolop ' + op)

    def divrem(self, st, op, a, b, t):
        if isinstance(b, int):
            if b == 0:
                self.report(st, 'ub', 'division by zero', '')
                raise PathEnd()
            if isinstance(a, int):
                q = abs(a) // abs(b)
                if (a < 0) != (b < 0):
                    q = -q
                return q if op == 'Div' else a - q * b
            if b > 0:
                a = st.cons.norm(a)
                if self.decide(st, self.b_ge(a)):
                    q = fdiv(a, b)
                else:
                    q = neg(fdiv(neg(a), b))
                return q if op == 'Div' else sub(a, mulc(q, b))
        if t['k'] == 'uint':
            q, new = atom('div', (a, b), 0, trange(t)[1], name='(%s)/(%s)' % (show(a), show(b)))
            r, new2 = atom('rem', (a, b), 0, trange(t)[1], name='(%s)%%(%s)' % (show(a), show(b)))
            if op == 'Div':
                if isinstance(a, (int, Lin)):
                    st.cons.add(sub(a, q))
                return q
            st.cons.add(add(sub(b, r), -1))
            st.cons.add(sub(a, r))
            return r
        raise Unsupported('signed division')

    def bitop(self, st, op, a, b, t):
        if isinstance(a, int) and isinstance(b, int):
            r = a & b if op == 'BitAnd' else a | b if op == 'BitOr' else a ^ b
            return r
        if isinstance(a, int):
            a, b = b, a
        bits = t.get('bits', 64)
        if t['k'] == 'int':
            # via unsigned
            if isinstance(b, int) and b < 0:
                u = self.wrap_u(st, a, bits)
                r = self.bitop(st, op, u, b & ((1 << bits) - 1), {'k': 'uint', 'bits': bits})
                return self.wrap_i(st, r, bits)
            return self.bitfresh(st, op, a, b, bits)
        if isinstance(b, int):
            top = 1 << bits
            if op == 'BitAnd':
                if b == 0:
                    return 0
                if b == top - 1:
                    return a
                if b & (b + 1) == 0:  # low mask
                    m = b + 1
                    a = st.cons.norm(a)
                    return sub(a, mulc(fdiv(a, m), m))
                nb = (top - 1) ^ b
                if nb & (nb + 1) == 0:  # high mask
                    m = nb + 1
                    a = st.cons.norm(a)
                    return mulc(fdiv(a, m), m)
                if b & (b - 1) == 0:  # single bit
                    a = st.cons.norm(a)
                    q = fdiv(a, b)
                    return mulc(sub(q, mulc(fdiv(q, 2), 2)), b)
                # contiguous run of bits
                low = b & -b
                hi = b + low
                if hi & (hi - 1) == 0:
                    a = st.cons.norm(a)
                    x = sub(a, mulc(fdiv(a, hi), hi))
                    return mulc(fdiv(x, low), low)
            if op == 'BitOr':
                if b == 0:
                    return a
                if b & (b + 1) == 0:
                    m = b + 1
                    a = st.cons.norm(a)
                    return add(mulc(fdiv(a, m), m), b)
                # a | b == a + (b & ~a)
            if op == 'BitXor':
                if b == 0:
                    return a
                if b == top - 1:
                    return sub(b, a)
                if b & (b + 1) == 0:
                    m = b + 1
                    a = st.cons.norm(a)
                    lowpart = sub(a, mulc(fdiv(a, m), m))
                    return add(sub(a, lowpart), sub(b, lowpart))
        else:
            if a == b:
                return 0 if op == 'BitXor' else a
            if op == 'BitAnd':
                # x & -x.., x & (x - 1): power of two tests
                pass
        return self.bitfresh(st, op, a, b, bits)

    def bitfresh(self, st, op, a, b, bits):
        self.notes.add('imprecise bit operation')
        if hash(a) > hash(b):
            a, b = b, a
        v, new = atom('bit', (op, a, b), 0, (1 << bits) - 1, name='(%s %s %s)' % (show(a), op, show(b)))
        if op == 'BitAnd':
            st.cons.add(sub(a, v))
            st.cons.add(sub(b, v))
        elif op == 'BitOr':
            st.cons.add(sub(v, a))
            st.cons.add(sub(v, b))
            st.cons.add(sub(add(a, b), v))
        else:
            st.cons.add(sub(add(a, b), v))
        return v

    def shift(self, st, op, a, b, t):
        bits = t.get('bits', 64)
        unchecked = op.endswith('Unchecked')
        if isinstance(b, int):
            if unchecked and not 0 <= b < bits:
                self.report(st, 'ub', 'shift out of range', '')
                raise PathEnd()
            b &= bits - 1
            if op.startswith('Shl'):
                return self.wrap(st, mulc(a, 1 << b), t)
            return fdiv(st.cons.norm(a) if isinstance(a, Lin) else a, 1 << b)
        b = st.cons.norm(b)
        if isinstance(b, int):
            return self.shift(st, op, a, b, t)
        # 2^k - 1 patterns: MAX >> ctlz(x)
        if op.startswith('Shr') and isinstance(a, int) and a == (1 << bits) - 1 and not b.c and len(b.t) == 1 and b.t[0][1] == 1:
            at = ATOMS[b.t[0][0]]
            if at.kind == 'ctlz' and at.args[1] == bits:
                return self.np2m1(st, at.args[0], bits)
        # 1 << (bits - ctlz(x))
        if op.startswith('Shl') and a == 1 and len(b.t) == 1 and b.t[0][1] == -1:
            at = ATOMS[b.t[0][0]]
            if at.kind == 'ctlz' and at.args[1] == bits:
                if b.c == bits:
                    return add(self.np2m1(st, at.args[0], bits), 1)
                if b.c == bits - 1:  # highest set bit
                    return fdiv(add(self.np2m1(st, at.args[0], bits), 1), 2)
        # trailing_zeros of known power: small range, split
        lo, hi = interval(b, st.cons.bounds)
        if lo is not None and hi is not None and hi - lo <= 64:
            for k in range(lo, hi):
                if self.decide(st, B('eq', sub(b, k))):
                    return self.shift(st, op, a, k, t)
            return self.shift(st, op, a, hi, t)
        raise Unsupported('shift by unknown amount')

    def np2m1(self, st, x, bits):
        """MAX >> ctlz(x) for x >= 1: next power of two above x, minus 1"""
        x = st.cons.norm(x)
        if isinstance(x, int):
            return (1 << x.bit_length()) - 1
        # Result is P - 1 where P is a power of 2, x < P <= 2x
        c = st.cons
        best = None
        for k in range(13, -1, -1):
            if c.ge(sub(x, 1 << k)):
                best = k
                break
        lo, hi = interval(x, c.bounds)
        if best is None or best < 6:
            # Enumerate small powers
            start = 0 if best is None else best
            for k in range(start, 6):
                # is x < 2^(k + 1)?
                if self.decide(st, self.b_ge(sub((1 << (k + 1)) - 1, x))):
                    return (1 << (k + 1)) - 1
            best = 6
        m = 1 << (best + 1)
        P, new = atom('np2', (x, m), 1, (1 << bits) // m, name='np2(%s)/%d' % (show(x), m))
        if new:
            lin.NP2.setdefault(x, []).append((m, P))
        for m2, P2 in lin.NP2[x]:
            if m2 != m:
                c.add_eq(sub(mulc(P, m), mulc(P2, m2)))
        P = mulc(P, m)
        c.add(add(sub(P, x), -1))
        c.add(sub(mulc(x, 2), P))
        return add(P, -1)

    # --- pointers

    def ptr_offset(self, st, p, n, inbounds):
        if isinstance(p, dict):
            q = self.ptr_offset(st, p[0][1], n, inbounds)
            d = dict(p)
            d[0] = (8, q)
            return d
        if p is UNDEF:
            self.report(st, 'mem', 'use of uninitialised memory', 'offset of uninitialised pointer')
            raise PathEnd()
        p = self.to_num(st, p)
        r = add(p, n)
        if not inbounds:
            return self.wrap_u(st, r, 64)
        n = st.cons.norm(n)
        if n == 0:
            return p
        rg, off = self.resolve(st, p)
        if rg is None:
            if not isinstance(n, int):
                if self.is_zero(st, n):
                    return p
                if not self.decide(st, B('ne', n)):
                    return p
            self.count('mem')
            self.report(st, 'mem', 'pointer arithmetic outside of an allocation', 'pointer %s + %s' % (show(st.cons.norm(p)), show(n)))
            raise PathEnd()
        self.count('mem')
        end = add(off, n)
        if isinstance(end, int) and isinstance(rg.size, int):
            if 0 <= end <= rg.size:
                return r
        elif st.cons.ge(end) and st.cons.ge(sub(rg.size, end)):
            return r
        if not isinstance(n, int) and self.is_zero(st, n):
            return p
        self.report(st, 'mem', 'pointer arithmetic outside of an allocation', 'offset %s of %s of size %s' % (show(st.cons.norm(end)), rg.name, show(st.cons.norm(rg.size))),
                    goals=(self.b_ge(end), self.b_ge(sub(rg.size, end))))
        self.assume(st, self.b_ge(end))
        self.assume(st, self.b_ge(sub(rg.size, end)))
        return r


# -------------------------------------------------------------------------------- helpers

def put_piece(pieces, off, size, v):
    if size == 0:
        return
    if isinstance(v, dict):
        for o, p in v.items():
            pieces[off + o] = p
    elif v is UNDEF or v is None:
        pass
    else:
        pieces[off] = (size, v)


def cells_clear(eng, st, cells, off, size):
    """Remove [off, off + size) from pieces, splitting those which straddle"""
    p = cells.get(off)
    if p is not None and p[0] == size:
        del cells[off]
        return
    end = off + size
    hit = None
    for k, (s, v) in cells.items():
        if k < end and k + s > off:
            if hit is None:
                hit = [k]
            else:
                hit.append(k)
    if hit is None:
        return
    new = {}
    for k in hit:
        s, v = cells[k]
        if k < off:
            new[k] = (off - k, eng.sub_piece(st, v, s, 0, off - k))
        if k + s > end:
            new[end] = (k + s - end, eng.sub_piece(st, v, s, end - k, k + s - end))
    for k in hit:
        del cells[k]
    cells.update(new)


def tbits(t):
    k = t['k']
    if k in ('int', 'uint'):
        return t['bits']
    if k == 'bool':
        return 8
    if k == 'char':
        return 32
    if t['sc'] is not None:
        return 8 * t['sc'][0]
    return 64


def trange(t):
    if t['k'] == 'int':
        return -(1 << (t['bits'] - 1)), (1 << (t['bits'] - 1)) - 1
    return 0, (1 << tbits(t)) - 1


def trange_sc(sc):
    bits = 8 * sc[0]
    if sc[1] == 'i':
        return -(1 << (bits - 1)), (1 << (bits - 1)) - 1
    if sc[3] is not None and sc[3][0] <= sc[3][1]:
        return sc[3]
    return 0, (1 << bits) - 1


def pointee(t, types):
    if t['k'] in ('ref', 'rawptr'):
        return types[t['elem']]
    if t.get('box'):
        return types[t['targs'][0]]
    if t['k'] == 'struct' and t.get('adt', '').endswith('NonNull'):
        return types[t['targs'][0]]
    raise Unsupported('unsize of ' + t['name'])


def is_wide(t, types):
    r = t['layout']['repr'] if t['layout'] else None
    return bool(r and 'a' in r)


class Skip:
    pass


SKIP = Skip()
INTR = {}
HOOKS = {}


def hook_for(fn):
    h = getattr(fn, 'hookfn', 0)
    if h != 0:
        return h
    name = fn.name
    short = name.split('::<')[0].split('::')[-1]
    h = None
    if fn.foreign or name.startswith('alloc::alloc::__rust') or name.startswith('std::alloc::__rust'):
        h = HOOKS.get(short)
        if h is None:
            raise Unsupported('foreign function ' + name)
    fn.hookfn = h
    return h


import intrinsics  # noqa: E402,F401
import loops  # noqa: E402
