"""Numeric part of the abstract domain.

A scalar is a Python int or a `Lin`: an affine expression over *atoms* with integer
coefficients. Atoms are hash-consed value numbers: an arbitrary input, the base address
of a memory region (divided by its alignment), the content of a memory cell, or the
result of a non-affine operation (`fdiv`, `np2` ...), each with interval bounds and
defining affine inequalities. A `Cons` object is a conjunction of affine inequalities
(a convex polyhedron) with integer tightening; `entails` decides inclusion.
"""
from fractions import Fraction
from math import gcd

INF = None


class Atom:
    __slots__ = ('id', 'kind', 'args', 'lo', 'hi', 'defs', 'name', 'sibs')

    def __init__(self, id, kind, args, lo, hi, name):
        self.id, self.kind, self.args, self.lo, self.hi, self.name = id, kind, args, lo, hi, name
        self.defs = ()
        self.sibs = ()  # `fdiv` atoms with same divisor and argument which differs by a constant


ATOMS = []
_cons_table = {}
USES = {}  # atom -> `fdiv` atoms with it in their argument
SIBS = {}


NP2 = {}
MODEL = {}


def reset():
    NP2.clear()
    ATOMS.clear()
    USES.clear()
    SIBS.clear()
    _cons_table.clear()


def atom(kind, args, lo=None, hi=None, name=None):
    """Hash-consed atom. Returns (Lin, is_new)."""
    key = (kind, args)
    a = _cons_table.get(key)
    if a is not None:
        return Lin(0, ((a.id, 1),)), False
    a = Atom(len(ATOMS), kind, args, lo, hi, name or kind)
    ATOMS.append(a)
    _cons_table[key] = a
    return Lin(0, ((a.id, 1),)), True


_fresh = [0]


def fresh(name, lo=None, hi=None, kind='any'):
    _fresh[0] += 1
    return atom(kind, (name, _fresh[0]), lo, hi, name='%s#%d' % (name, _fresh[0]))[0]


class Lin:
    __slots__ = ('c', 't', '_h')

    def __init__(self, c, t):
        self.c = c
        self.t = t
        self._h = None

    def __hash__(self):
        h = self._h
        if h is None:
            h = self._h = hash((self.c, self.t))
        return h

    def __eq__(self, o):
        return isinstance(o, Lin) and self.c == o.c and self.t == o.t

    def __repr__(self):
        return show(self)


def show_atom(i):
    a = ATOMS[i]
    if a.kind == 'fdiv':
        return '(%s)/%d' % (show(a.args[0]), a.args[1])
    if a.kind == 'np2':
        return 'np2(%s)' % show(a.args[0])
    return a.name


def show(x):
    if isinstance(x, int):
        return str(x) if abs(x) < 1 << 32 else hex(x)
    if not isinstance(x, Lin):
        return str(x)
    parts = []
    for i, k in x.t:
        s = show_atom(i)
        if k == 1:
            parts.append('+' + s)
        elif k == -1:
            parts.append('-' + s)
        else:
            parts.append('%+d*%s' % (k, s))
    r = ' '.join(parts)
    if r.startswith('+'):
        r = r[1:]
    if x.c:
        r += ' %s %s' % ('+' if x.c > 0 else '-', show(abs(x.c)))
    return r


def mk(c, d):
    t = tuple(sorted((i, k) for i, k in d.items() if k))
    if not t:
        return c
    return Lin(c, t)


def add(a, b):
    if isinstance(a, int):
        if isinstance(b, int):
            return a + b
        return Lin(b.c + a, b.t) if a else b
    if isinstance(b, int):
        return Lin(a.c + b, a.t) if b else a
    d = dict(a.t)
    for i, k in b.t:
        d[i] = d.get(i, 0) + k
    return mk(a.c + b.c, d)


def mulc(a, k):
    if isinstance(a, int):
        return a * k
    if k == 1:
        return a
    if k == 0:
        return 0
    return Lin(a.c * k, tuple((i, x * k) for i, x in a.t))


def neg(a):
    return mulc(a, -1)


def sub(a, b):
    if isinstance(b, int):
        return add(a, -b)
    return add(a, mulc(b, -1))


def norm_ge0(e):
    """Normalise `e >= 0` with integer tightening. Returns int or Lin"""
    if isinstance(e, int):
        return e
    g = 0
    for _, k in e.t:
        g = gcd(g, k)
        if g == 1:
            return e
    return Lin(e.c // g, tuple((i, k // g) for i, k in e.t))


def coef_gcd(e):
    g = 0
    for _, k in e.t:
        g = gcd(g, k)
    return g


# --- Non-affine atoms ----------------------------------------------------------------

def fdiv(e, m):
    """floor(e / m) for int m > 0"""
    if m == 1:
        return e
    if isinstance(e, int):
        return e // m
    whole = {}
    rest = {}
    for i, k in e.t:
        q, r = divmod(k, m)
        if q:
            whole[i] = q
        if r:
            rest[i] = r
    cq, cr = divmod(e.c, m)
    w = mk(cq, whole)
    r = mk(cr, rest)
    if isinstance(r, int):
        return w
    # Choose canonical sign: prefer representation with smallest leading coefficient
    k0 = 0
    for _, k in r.t:
        if k * 2 != m:
            k0 = k
            break
    if k0 * 2 > m:
        # floor(r/m) where r = m*x0 + r' with leading coef k0 - m < 0
        # floor(r/m) = x0 + floor(r'/m);  floor(r'/m) = -floor((-r' + m - 1)/m)
        d = dict(r.t)
        # Subtract m from every coefficient which is more than half
        ex = {}
        for i, k in list(d.items()):
            if k * 2 > m:
                d[i] = k - m
                ex[i] = 1
        r2 = mk(r.c, d)
        inner = _fdiv_atom(add(neg(r2), m - 1), m)
        return add(w, sub(mk(0, ex), inner))
    d = dict(r.t)
    ex = {}
    for i, k in list(d.items()):
        if k * 2 > m:
            d[i] = k - m
            ex[i] = 1
    r = mk(r.c, d)
    return add(w, add(mk(0, ex), _fdiv_atom(r, m)))


def _fdiv_atom(r, m):
    if isinstance(r, int):
        return r // m
    g = gcd(coef_gcd(r), m)
    if g > 1:
        r = Lin(r.c // g, tuple((i, k // g) for i, k in r.t))
        m //= g
        if m == 1:
            return r
        return fdiv(r, m)
    cq, cr = divmod(r.c, m)
    r = Lin(cr, r.t)
    if m == 2 and cr == 1:
        # floor((x + 1) / 2) = x - floor(x / 2)
        r = Lin(0, r.t)
        return add(sub(r, _fdiv_atom(r, 2)), cq)
    lo, hi = interval(r, None)
    if lo is not None and hi is not None and lo // m == hi // m:
        return lo // m + cq
    q, new = atom('fdiv', (r, m), None if lo is None else lo // m, None if hi is None else hi // m)
    if new:
        a = ATOMS[q.t[0][0]]
        a.defs = (sub(r, mulc(q, m)), sub(add(mulc(q, m), m - 1), r))
        for i, _ in r.t:
            USES.setdefault(i, []).append(a.id)
        sibs = SIBS.setdefault((r.t, m), [])
        for j in sibs:
            b = ATOMS[j]
            a.sibs += (j,)
            b.sibs += (a.id,)
        sibs.append(a.id)
    return add(q, cq)


def cuts(i, j):
    """Floors of numbers which differ by less than `m` differ by 0 or 1"""
    if ATOMS[i].args[0].c > ATOMS[j].args[0].c:
        i, j = j, i
    d = Lin(0, ((i, -1), (j, 1)) if i < j else ((j, 1), (i, -1)))
    return d, add(neg(d), 1)


def interval(e, bounds):
    """Interval of affine expr from atoms' bounds"""
    if isinstance(e, int):
        return e, e
    lo = hi = e.c
    for i, k in e.t:
        a = ATOMS[i]
        l, h = a.lo, a.hi
        if bounds is not None:
            b = bounds.get(i)
            if b is not None:
                if b[0] is not None and (l is None or b[0] > l):
                    l = b[0]
                if b[1] is not None and (h is None or b[1] < h):
                    h = b[1]
        if k > 0:
            lo = None if lo is None or l is None else lo + k * l
            hi = None if hi is None or h is None else hi + k * h
        else:
            lo = None if lo is None or h is None else lo + k * h
            hi = None if hi is None or l is None else hi + k * l
        if lo is None and hi is None:
            break
    return lo, hi


# --- Constraint conjunctions ---------------------------------------------------------

STATS = {'lp': 0, 'queries': 0, 'cache': 0}


_refining = [False]


class Cons:
    """Conjunction of `Lin >= 0` facts"""
    __slots__ = ('bounds', 'ineqs', 'diseqs', 'ctrue', 'cfalse', 'dead', 'sub', 'live', 'seen', 'settling')

    def __init__(self):
        self.sub = {}
        self.live = set()  # siblings which are settled
        self.seen = set()
        self.settling = False
        self.bounds = {}
        self.ineqs = []
        self.diseqs = set()
        self.ctrue = set()
        self.cfalse = set()
        self.dead = False

    def clone(self):
        c = Cons.__new__(Cons)
        c.sub = dict(self.sub)
        c.live = set(self.live)
        c.seen = set(self.seen)
        c.settling = False
        c.bounds = dict(self.bounds)
        c.ineqs = list(self.ineqs)
        c.diseqs = set(self.diseqs)
        c.ctrue = set(self.ctrue)
        c.cfalse = set(self.cfalse)
        c.dead = self.dead
        return c

    def norm(self, e):
        """Rewrite with known equalities `atom = affine expression`"""
        if isinstance(e, int):
            return e
        s = self.sub
        for i, _ in e.t:
            if i in s:
                break
            if ATOMS[i].sibs and i not in self.live and not self.settling:
                self.settle(i)
                if i in s:
                    break
        else:
            return e
        d = {}
        c = e.c
        for i, k in e.t:
            r = s.get(i)
            if r is None:
                d[i] = d.get(i, 0) + k
            elif isinstance(r, int):
                c += k * r
            else:
                c += k * r.c
                for j, x in r.t:
                    d[j] = d.get(j, 0) + k * x
        return mk(c, d)

    def settle(self, i):
        """If floor of (x + c) / m is known to be that of x / m, or 1 more, rewrite one as the other"""
        self.settling = True
        try:
            a = ATOMS[i]
            self.live.add(i)
            self.seen.add(i)
            for j in a.sibs:
                if self.dead or i in self.sub:
                    break
                if j in self.sub or j not in self.seen:
                    continue
                lo, hi = (i, j) if a.args[0].c < ATOMS[j].args[0].c else (j, i)
                d = Lin(0, ((lo, -1), (hi, 1)) if lo < hi else ((hi, 1), (lo, -1)))
                keep, drop = (i, j) if i < j else (j, i)
                for k in (0, 1):
                    if self._ge(neg(d) if k == 0 else add(d, -1)):
                        self._bind(drop, Lin(k if drop == hi else -k, ((keep, 1),)))
                        break
        finally:
            self.settling = False

    def add(self, e):
        """Assume e >= 0"""
        outer = not self.settling
        self.settling = True
        self._add(e)
        if outer:
            self.settling = False

    def _add(self, e):
        e = norm_ge0(self.norm(e))
        if isinstance(e, int):
            if e < 0:
                self.dead = True
            return
        if len(e.t) == 1:
            i, k = e.t[0]
            lo, hi = self.bounds.get(i, (None, None))
            a = ATOMS[i]
            if k > 0:
                b = -(e.c // k)  # ceil(-c/k)
                if lo is None or b > lo:
                    lo = b
            else:
                b = e.c // (-k)
                if hi is None or b < hi:
                    hi = b
            self.bounds[i] = (lo, hi)
            l = lo if a.lo is None or (lo is not None and lo > a.lo) else a.lo
            h = hi if a.hi is None or (hi is not None and hi < a.hi) else a.hi
            if l is not None and h is not None:
                if l > h:
                    self.dead = True
                elif l == h and a.kind != 'base':
                    self._subst(Lin(-l, ((i, 1),)))
        elif e not in self.ineqs:
            if neg(e) in self.ineqs:
                self._subst(e)
            else:
                self.ineqs.append(e)
        self.cfalse = set()
        for i, _ in e.t:
            self.live.discard(i)
        # Strengthen disequalities
        if self.diseqs:
            for d in list(self.diseqs):
                if self._ge(d):
                    self.diseqs.discard(d)
                    self.add(add(d, -1))
                elif self._ge(neg(d)):
                    self.diseqs.discard(d)
                    self.add(add(neg(d), -1))

    def add_ne(self, e):
        """Assume e != 0"""
        e = self.norm(e)
        if isinstance(e, int):
            if e == 0:
                self.dead = True
            return
        e = canon_eq(e)
        if e is None:
            return
        if self._ge(e):
            self.add(add(e, -1))
        elif self._ge(neg(e)):
            self.add(add(neg(e), -1))
        else:
            self.diseqs.add(e)

    def add_eq(self, e):
        e = self.norm(e)
        if isinstance(e, int):
            if e:
                self.dead = True
            return
        c = canon_eq(e)
        if c is None:
            self.dead = True
            return
        self._subst(c)

    def _subst(self, e):
        """Assume e == 0 by eliminating an atom"""
        e = self.norm(e)
        if isinstance(e, int):
            if e:
                self.dead = True
            return
        e = canon_eq(e)
        if e is None:
            self.dead = True
            return
        if len(e.t) == 1 and ATOMS[e.t[0][0]].kind == 'base':
            # Addresses remain symbols, because they identify allocations
            self.add(e)
            self.add(neg(e))
            return
        best = None
        bases = sum(ATOMS[i].kind == 'base' for i, _ in e.t)
        for i, k in e.t:
            if k == 1 or k == -1:
                a = ATOMS[i]
                if bases == 1 and a.kind == 'base':
                    continue
                # Prefer to keep memory addresses, and drop what is defined by others
                rank = (0 if a.kind == 'base' else 1, i)
                if best is None or rank > best[0]:
                    best = (rank, i, k)
        if best is None:
            # Rewrite `k*x = rest` using a new atom where all but one coefficient share a factor
            for i, k in e.t:
                if ATOMS[i].kind == 'base':
                    continue
                g = 0
                for j, x in e.t:
                    if j != i:
                        g = gcd(g, x)
                if len(e.t) > 1 and g > 1 and gcd(abs(k), g) == 1:
                    # k*x + c = 0 (mod g)
                    inv = pow(k, -1, g)
                    r = (-e.c * inv) % g
                    a = ATOMS[i]
                    q = fresh('quo', None if a.lo is None else (a.lo - r) // g,
                              None if a.hi is None else (a.hi - r) // g + 1, kind='quo')
                    self._bind(i, add(mulc(q, g), r))
                    self._subst(e)
                    return
            for x in (e, neg(e)):
                if x not in self.ineqs:
                    self.ineqs.append(x)
            self.cfalse = set()
            return
        _, i, k = best
        rest = Lin(e.c, tuple(x for x in e.t if x[0] != i)) if len(e.t) > 1 else e.c
        self._bind(i, mulc(rest, -k))

    def _bind(self, i, r):
        outer = not self.settling
        self.settling = True
        self._bind1(i, r)
        if outer:
            self.settling = False

    def _bind1(self, i, r):
        a = ATOMS[i]
        lo, hi = self.bounds.pop(i, (None, None))
        if a.lo is not None and (lo is None or a.lo > lo):
            lo = a.lo
        if a.hi is not None and (hi is None or a.hi < hi):
            hi = a.hi
        one = {i: r}
        for j, x in list(self.sub.items()):
            if isinstance(x, Lin):
                for t, _ in x.t:
                    if t == i:
                        self.sub[j] = _sub1(x, i, r)
                        break
        self.sub[i] = r
        old = self.ineqs
        self.ineqs = []
        self.ctrue = set()
        self.cfalse = set()
        dis = self.diseqs
        self.diseqs = set()
        if lo is not None:
            self.add(sub(r, lo))
        if hi is not None:
            self.add(sub(hi, r))
        for d in a.defs:
            self.add(d)
        for j in a.sibs:
            if j in self.seen:
                for d in cuts(i, j):
                    self.add(d)
        for e in old:
            self.add(e)
        for d in dis:
            self.add_ne(d)
        # What's defined by it may be simpler now
        for u in USES.get(i, ()):
            if u not in self.sub and not self.dead:
                x, m = ATOMS[u].args
                x = self.norm(x)
                v = self.norm(fdiv(x, m))
                if isinstance(v, int) or all(j != u for j, _ in v.t):
                    self._bind(u, v)

    def ge(self, e):
        """Is e >= 0 entailed?"""
        e = norm_ge0(self.norm(e))
        if isinstance(e, int):
            return e >= 0
        return self._ge(e)

    def _ge(self, e):
        e = norm_ge0(self.norm(e))
        if isinstance(e, int):
            return e >= 0
        STATS['queries'] += 1
        if e in self.ctrue:
            STATS['cache'] += 1
            return True
        if e in self.cfalse:
            STATS['cache'] += 1
            return False
        lo, hi = interval(e, self.bounds)
        if lo is not None and lo >= 0:
            self.ctrue.add(e)
            return True
        r = e in self.ineqs or not self.feasible_with([add(neg(e), -1)])
        ids = [i for i in self.relevant([e])[1] if ATOMS[i].kind == 'np2'] if not r and NP2 and not _refining[0] else ()
        if ids:
            n = add(neg(e), -1)
            if not self.np2_model([n]):
                c = self.clone()
                c.diseqs = set()
                c.settling = True
                c.add(n)
                r = c.dead or not c.refine([e], ids=ids)
        (self.ctrue if r else self.cfalse).add(e)
        return r

    def eq0(self, e):
        e = self.norm(e)
        if isinstance(e, int):
            return e == 0
        return self._ge(e) and self._ge(neg(e))

    def ne0(self, e):
        e = self.norm(e)
        if isinstance(e, int):
            return e != 0
        c = canon_eq(e)
        if c is None:
            return True
        if c in self.diseqs:
            return True
        return self._ge(add(e, -1)) or self._ge(add(neg(e), -1))

    def relevant(self, extra):
        """Constraints & atoms connected to `extra`"""
        outer = not self.settling
        self.settling = True
        try:
            return self._relevant(extra)
        finally:
            if outer:
                self.settling = False

    def _relevant(self, extra):
        atoms = set()
        todo = []
        rows = list(extra)
        for e in extra:
            for i, _ in e.t:
                if i not in atoms:
                    atoms.add(i)
                    todo.append(i)
        remaining = self.ineqs
        used_defs = set()
        while todo:
            new = []
            for i in todo:
                a = ATOMS[i]
                if i not in used_defs:
                    used_defs.add(i)
                    if a.defs:
                        ds = a.defs
                        for j in a.sibs:
                            if j in self.seen and j not in used_defs:
                                ds += cuts(i, j)
                        for d in ds:
                            if self.sub:
                                d = self.norm(d)
                            if not isinstance(d, int):
                                rows.append(d)
                                for j, _ in d.t:
                                    if j not in atoms:
                                        atoms.add(j)
                                        new.append(j)
            rest = []
            for e in remaining:
                for i, _ in e.t:
                    if i in atoms:
                        rows.append(e)
                        for j, _ in e.t:
                            if j not in atoms:
                                atoms.add(j)
                                new.append(j)
                        break
                else:
                    rest.append(e)
            if len(rest) == len(remaining) and not new:
                break
            remaining = rest
            todo = new
            if not new:
                # newly added rows brought no new atoms
                break
        return rows, atoms

    def feasible_with(self, extra):
        rows, atoms, b = self.problem(extra)
        if rows is None:
            return False
        return lp_feasible(rows, b)

    def problem(self, extra, everything=False):
        extra = [norm_ge0(self.norm(e)) for e in extra]
        for e in extra:
            if isinstance(e, int):
                if e < 0:
                    return None, None, None
        extra = [e for e in extra if not isinstance(e, int)]
        if self.dead:
            return None, None, None
        rows, atoms = self.relevant(extra or self.ineqs)
        b = {}
        for i in atoms:
            a = ATOMS[i]
            l, h = a.lo, a.hi
            x = self.bounds.get(i)
            if x is not None:
                if x[0] is not None and (l is None or x[0] > l):
                    l = x[0]
                if x[1] is not None and (h is None or x[1] < h):
                    h = x[1]
            b[i] = (l, h)
        return rows, atoms, b

    def np2_model(self, extra):
        """Quick search for a solution in which `np2` atoms are powers of two. Called after
        `feasible_with(extra)` found the constraints feasible over rationals"""
        rows, atoms, b = self.problem(extra)
        ids = [i for i in atoms if ATOMS[i].kind == 'np2']
        pick = {}
        for i in ids:
            l, h = b[i]
            p = MODEL.get(i)
            if p is None:
                p = l if l is not None else h if h is not None else 1
            pick[i] = max(1, int(p))
        for up in (0, 1):
            b2 = dict(b)
            for i in ids:
                k = pick[i].bit_length() - 1
                if up and pick[i] != 1 << k:
                    k += 1
                l, h = b[i]
                v = 1 << k
                if l is not None and v < l or h is not None and v > h:
                    break
                b2[i] = (v, v)
            else:
                if lp_feasible(rows, b2):
                    return True
        return False

    def refine(self, about=None, quick=False, ids=()):
        """Use that `np2` atoms are powers of two. Returns false if infeasible"""
        if self.dead:
            return False
        if about is None:
            about = self.ineqs
        about = [x for x in (self.norm(e) for e in about) if not isinstance(x, int)]
        atoms = self.relevant(about)[1] if about else ()
        ids = sorted({i for i in atoms if ATOMS[i].kind == 'np2'}.union(ids))
        if not ids:
            return True
        if quick and self.np2_model([]):
            return True
        _refining[0] = True
        try:
            for _ in range(2):
                changed = False
                for i in ids:
                    x, m = ATOMS[i].args
                    P = self.norm(Lin(0, ((i, m),)))
                    x = self.norm(x)
                    # P > 2^k  <=>  P >= 2^(k + 1)  <=>  x >= 2^k
                    b = m.bit_length() - 1
                    lo, hi = b, 65
                    while lo < hi:  # greatest lo with P >= 2^lo
                        k = (lo + hi) // 2
                        if self.ge(add(P, -(1 << k) - 1)) or self.ge(add(x, -(1 << k)) if not isinstance(x, int) else x - (1 << k)):
                            lo = k + 1
                        else:
                            hi = k
                    f = lo
                    lo2, hi2 = f, 65
                    while lo2 < hi2:  # least lo2 with P <= 2^lo2
                        k = (lo2 + hi2) // 2
                        if self.ge(sub((2 << k) - 1, P)) or self.ge(sub((1 << k) - 1, x)):
                            hi2 = k
                        else:
                            lo2 = k + 1
                    for g in (sub(P, 1 << f), sub(x, (1 << f) >> 1)) + ((sub(1 << lo2, P), sub((1 << lo2) - 1, x)) if lo2 < 65 else ()):
                        if not self.ge(g):
                            self.add(g)
                            changed = True
                            if self.dead:
                                return False
                    if f > b:
                        # Multiple of 2^f
                        y = ATOMS[i].args[0]
                        h = ATOMS[i].hi
                        q, new = atom('np2', (y, 1 << f), 1, None if h is None else h * m >> f, name='np2(%s)/%d' % (show(y), 1 << f))
                        if new:
                            NP2.setdefault(y, []).append((1 << f, q))
                        e = sub(mulc(q, 1 << f), P)
                        if self.norm(e) != 0:
                            self.add_eq(e)
                            changed = True
                            if self.dead:
                                return False
                if not changed:
                    break
            return self.feasible()
        finally:
            _refining[0] = False

    def possible(self, extra=(), depth=4, budget=None):
        """Can the constraints and `extra` hold in integers, as far as can be told by deciding
        equalities which they imply over rationals, and by cases of forms which can take few values?"""
        if budget is None:
            budget = [500]
        c = self.clone()
        c.settling = True
        c.diseqs = set()
        for e in extra:
            c.add(e)
            if c.dead:
                return False
        c.settling = False
        if depth == 4 and NP2 and not c.refine(list(extra) or None):
            return False
        while True:
            if c.dead or not c.feasible():
                return False
            best = None
            for e in sorted(c.ineqs, key=lambda e: len(e.t)):
                if len(e.t) > 6:
                    continue
                for w in range(1, 4):
                    if best is not None and w >= best[0] or budget[0] <= 0:
                        break
                    budget[0] -= 1
                    if not c.feasible_with([add(e, -w)]):
                        best = w, e
                        break
                if best is not None and best[0] == 1:
                    break
            if best is None or budget[0] <= 0:
                return True
            w, e = best
            if w == 1:
                n = len(c.ineqs)
                c.add_eq(e)
                if not c.dead and e in c.ineqs and len(c.ineqs) >= n:
                    return True
                continue
            break
        if depth == 0:
            return True
        return any(c.possible([add(e, -k), add(neg(e), k)], depth - 1, budget) for k in range(w))

    def feasible(self):
        if self.dead:
            return False
        if not self.ineqs:
            return True
        return self.feasible_with([])


def _sub1(x, i, r):
    d = {}
    c = x.c
    for j, k in x.t:
        if j == i:
            if isinstance(r, int):
                c += k * r
            else:
                c += k * r.c
                for t, y in r.t:
                    d[t] = d.get(t, 0) + k * y
        else:
            d[j] = d.get(j, 0) + k
    return mk(c, d)


def canon_eq(e):
    """Canonical form of `e == 0`. None if it can have no integer solution"""
    g = coef_gcd(e)
    if e.c % g:
        return None
    if g > 1:
        e = Lin(e.c // g, tuple((i, k // g) for i, k in e.t))
    if e.t[0][1] < 0:
        e = neg(e)
    return e


def propagate(rows, b, rounds=6):
    """Integer bound propagation. Returns False if infeasible"""
    for _ in range(rounds):
        changed = False
        for e in rows:
            # e.c + sum k*x >= 0
            hi = e.c
            ninf = 0
            inf_i = None
            for i, k in e.t:
                l, h = b[i]
                v = h if k > 0 else l
                if v is None:
                    ninf += 1
                    inf_i = i
                    if ninf > 1:
                        break
                else:
                    hi += k * v
            if ninf > 1:
                continue
            if ninf == 0:
                if hi < 0:
                    return False
                for i, k in e.t:
                    l, h = b[i]
                    if k > 0:
                        r = hi - k * h  # max of rest
                        nb = -(r // k)
                        if l is None or nb > l:
                            if nb > h:
                                return False
                            b[i] = (nb, h)
                            changed = True
                    else:
                        r = hi - k * l
                        nb = r // (-k)
                        if h is None or nb < h:
                            if nb < l:
                                return False
                            b[i] = (l, nb)
                            changed = True
            else:
                for i, k in e.t:
                    if i != inf_i:
                        continue
                    l, h = b[i]
                    if k > 0:
                        nb = -(hi // k)
                        if l is None or nb > l:
                            if h is not None and nb > h:
                                return False
                            b[i] = (nb, h)
                            changed = True
                    else:
                        nb = hi // (-k)
                        if h is None or nb < h:
                            if l is not None and nb < l:
                                return False
                            b[i] = (l, nb)
                            changed = True
        if not changed:
            return True
    return True


def lp_feasible(rows, b, depth=0):
    STATS['lp'] += 1
    if not propagate(rows, b):
        return False
    # Substitute fixed atoms, drop trivially satisfied rows
    out = []
    for e in rows:
        lo = e.c
        for i, k in e.t:
            l, h = b[i]
            v = l if k > 0 else h
            if v is None:
                lo = None
                break
            lo += k * v
        if lo is not None and lo >= 0:
            continue
        out.append(e)
    MODEL.clear()
    if not out:
        return True
    return simplex(out, b)


def simplex(rows, b):
    """Feasibility over rationals of rows >= 0 with bounds b. General simplex."""
    xs = sorted({i for e in rows for i, _ in e.t})
    n = len(xs)
    col = {x: j for j, x in enumerate(xs)}
    m = len(rows)
    lo = [b[x][0] for x in xs]
    hi = [b[x][1] for x in xs]
    # Variables 0..n-1 are atoms (nonbasic), n..n+m-1 are slacks (basic)
    T = []
    for e in rows:
        r = {}
        for i, k in e.t:
            r[col[i]] = Fraction(k)
        T.append(r)
        lo.append(-e.c)
        hi.append(None)
    val = []
    for j in range(n):
        v = lo[j] if lo[j] is not None else (hi[j] if hi[j] is not None else 0)
        val.append(Fraction(v))
    for r in T:
        val.append(sum((k * val[j] for j, k in r.items()), Fraction(0)))
    basic = list(range(n, n + m))
    for it in range(400):
        # Bland: smallest violating basic var
        bi = None
        for ri, v in enumerate(basic):
            if (lo[v] is not None and val[v] < lo[v]) or (hi[v] is not None and val[v] > hi[v]):
                if bi is None or v < basic[bi]:
                    bi = ri
        if bi is None:
            MODEL.clear()
            for j in range(n):
                MODEL[xs[j]] = val[j]
            return True
        v = basic[bi]
        row = T[bi]
        up = lo[v] is not None and val[v] < lo[v]
        target = Fraction(lo[v] if up else hi[v])
        pick = None
        for j in sorted(row):
            a = row[j]
            if a == 0:
                continue
            if (a > 0) == up:
                ok = hi[j] is None or val[j] < hi[j]
            else:
                ok = lo[j] is None or val[j] > lo[j]
            if ok:
                pick = j
                break
        if pick is None:
            return False
        # Pivot v <-> pick
        a = row.pop(pick)
        theta = (target - val[v]) / a
        val[v] = target
        val[pick] += theta
        newrow = {j: -k / a for j, k in row.items() if k}
        newrow[v] = 1 / a
        T[bi] = newrow
        basic[bi] = pick
        for ri in range(m):
            if ri == bi:
                continue
            r = T[ri]
            k = r.pop(pick, None)
            if k:
                for j, x in newrow.items():
                    y = r.get(j, 0) + k * x
                    if y:
                        r[j] = y
                    else:
                        r.pop(j, None)
                val[basic[ri]] += k * theta
    return True  # give up: treat as feasible
