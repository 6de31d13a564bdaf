"""Loop acceleration.

A loop which runs an unknown number of times is generalised when one iteration changes the
abstract state only by adding constants to some scalars: state after `k` more iterations is
then `v + d * k`, for a fresh `k >= 0`, under candidate invariants taken from the loop's own
exit tests. Both the deltas and the invariants are verified to be inductive by analysing one
generic iteration from the generalised state on every path through the loop body; if that
fails anywhere, the probe is analysed again with this loop unrolled instead.
"""
from lin import *
import engine as eng
from engine import B, Chunk, FnVal, UNDEF, Unsupported, PathEnd

K_MAX = 1 << 62
PATIENCE = 24  # iterations


class Restart(Exception):
    pass


def successors(term):
    c = term[0]
    if c == 'goto':
        out = [term[1]]
    elif c == 'switch':
        out = [bb for _, bb in term[2]] + [term[3]]
    elif c == 'call':
        out = [term[4], term[5]]
    elif c == 'drop':
        out = [term[3], term[4]]
    elif c == 'assert':
        out = [term[4], term[5]]
    else:
        out = []
    return [b for b in out if isinstance(b, int)]


def loop_info(fn):
    """-> (back edges {(src, head)}, live non-memory locals at each head)"""
    info = getattr(fn, 'loopinfo', None)
    if info is not None:
        return info
    succ = [successors(t) for _, t in fn.blocks]
    back = set()
    color = {}
    stack = [(0, iter(succ[0]))]
    color[0] = 1
    while stack:
        b, it = stack[-1]
        for n in it:
            if color.get(n) is None:
                color[n] = 1
                stack.append((n, iter(succ[n])))
                break
            if color[n] == 1:
                back.add((b, n))
        else:
            color[b] = 2
            stack.pop()
    live = {}
    if back:
        live = liveness(fn, succ, {h for _, h in back})
    fn.loopinfo = (back, live)
    return fn.loopinfo


def liveness(fn, succ, heads):
    use, kill = [], []
    for stmts, term in fn.blocks:
        u, d = set(), set()

        def rd(l):
            if l not in d:
                u.add(l)

        def place_use(p):
            rd(p[0])
            for e in p[1]:
                if e[0] == 'i':
                    rd(e[1])

        def opnd(o):
            if o[0] in ('p', 'm'):
                place_use(o[1])

        def dest(p):
            if p[1]:
                place_use(p)
            else:
                d.add(p[0])

        for s in stmts:
            if s[0] == '=':
                rv = s[2]
                if rv[0] in ('ref', 'addr', 'disc', 'len'):
                    place_use(rv[1])
                elif rv[0] in ('use', 'rep'):
                    opnd(rv[1])
                elif rv[0] in ('bin', 'cbin'):
                    opnd(rv[2])
                    opnd(rv[3])
                elif rv[0] in ('un', 'cast'):
                    opnd(rv[2])
                elif rv[0] == 'agg':
                    for o in rv[3]:
                        opnd(o)
                dest(s[1])
            elif s[0] in ('live', 'dead'):
                d.add(s[1])
            elif s[0] == 'sd':
                place_use(s[1])
            else:
                for o in s[1:]:
                    if isinstance(o, list) and o and o[0] in ('p', 'm'):
                        opnd(o)
        if term[0] == 'switch' or term[0] == 'assert':
            opnd(term[1])
        elif term[0] == 'drop':
            place_use(term[1])
        elif term[0] == 'call':
            for o in term[2]:
                opnd(o)
            if isinstance(term[1], list) and term[1][0] == 'ptr':
                opnd(term[1][1])
            dest(term[3])
        elif term[0] == 'ret':
            rd(0)
        use.append(u)
        kill.append(d)
    live = [set() for _ in fn.blocks]
    changed = True
    while changed:
        changed = False
        for b in range(len(fn.blocks) - 1, -1, -1):
            out = set()
            for n in succ[b]:
                out |= live[n]
            new = use[b] | (out - kill[b])
            if new != live[b]:
                live[b] = new
                changed = True
    return {h: live[h] for h in heads}


class Rec:
    """Record of a loop being analysed, per frame and head"""
    __slots__ = ('snap', 'trace', 'gen', 'n', 'log', 'prev')

    def __init__(self, snap, trace, gen=None, n=0, prev=None):
        self.snap, self.trace, self.gen = snap, trace, gen
        self.n, self.log, self.prev = n, snap.log, prev


class Gen:
    __slots__ = ('base', 'k', 'deltas', 'inv', 'ids')


def lin_delta(c, a, b):
    """b - a if that's constant, else None. Equal non-numbers give 0"""
    if a is b:
        return 0
    if isinstance(a, (int, Lin)) and isinstance(b, (int, Lin)):
        d = c.norm(sub(b, a))
        return d if isinstance(d, int) else None
    if isinstance(a, Chunk) and isinstance(b, Chunk):
        if a.src is b.src and lin_delta(c, a.off, b.off) == 0:
            return 0
        return None
    if type(a) is type(b) and a == b:
        return 0
    return None


def diff_pieces(c, a, b, key, out):
    """Difference between two values (scalars or pieces). False if not comparable"""
    if a is b:
        return True
    if isinstance(a, dict) and isinstance(b, dict):
        if a.keys() != b.keys():
            return False
        for o in a:
            (s1, x), (s2, y) = a[o], b[o]
            if s1 != s2:
                return False
            d = lin_delta(c, x, y)
            if d is None:
                return False
            if d:
                out[key + (o,)] = (d, s1)
        return True
    if isinstance(a, dict) or isinstance(b, dict) or a is None or b is None:
        return False
    d = lin_delta(c, a, b)
    if d is None:
        return False
    if d:
        out[key] = (d, 8)
    return True


def diff(E, fr0, s0, fr1, s1, live):
    """Deltas between two visits of a loop head. None if they differ by more than constants"""
    c = s1.cons
    out = {}
    if len(s0.frames) != len(s1.frames) or s0.unwinding != s1.unwinding:
        return None
    fn = fr1.fn
    for l in live:
        if fn.mem[l]:
            continue
        if not diff_pieces(c, fr0.locals[l], fr1.locals[l], ('l', l), out):
            return None
        if ('l', l) in out:
            out[('l', l)] = (out[('l', l)][0], E.p.types[fn.locals[l]]['size'])
    if fr0.regs != fr1.regs:
        a = {l: r for l, r in fr0.regs.items() if l in live or fr1.regs.get(l) == r}
        b = {l: r for l, r in fr1.regs.items() if l in live or fr0.regs.get(l) == r}
        if a != b:
            return None
    skip = {r for l, r in fr1.regs.items() if fr0.regs.get(l) != r}
    for rid, r1 in s1.regions.items():
        r0 = s0.regions.get(rid)
        if r0 is r1:
            continue
        if r0 is None:
            if r1.live and r1.kind not in ('static',) and rid not in skip:
                return None
            continue
        if r0.live != r1.live:
            if rid in [r for l, r in fr0.regs.items()] and not r1.live:
                continue
            return None
        if not r1.live:
            continue
        if r0.size is not r1.size and r0.size != r1.size or r0.ro != r1.ro or r0.log is not r1.log or r0.init is not r1.init and r0.init != r1.init:
            return None
        if (r0.cells is None) != (r1.cells is None):
            return None
        if r0.cells is not None and not diff_pieces(c, r0.cells, r1.cells, ('r', rid), out):
            return None
    for g in s1.ghost:
        d = lin_delta(c, s0.ghost.get(g, 0), s1.ghost[g])
        if d is None:
            return None
        if d:
            out[('g', g)] = (d, 8)
    if len(s0.panic_ok) != len(s1.panic_ok) or len(s0.snaps) != len(s1.snaps) or s0.flags != s1.flags or s0.asites is not s1.asites:
        return None
    return out


def value_at(st, fr, key):
    if key[0] == 'l':
        v = fr.locals[key[1]]
        return v[key[2]][1] if len(key) > 2 else v
    if key[0] == 'r':
        return st.regions[key[1]].cells[key[2]][1]
    return st.ghost.get(key[1], 0)


def set_value(E, st, fr, key, new):
    if key[0] == 'l':
        if len(key) > 2:
            d = dict(fr.locals[key[1]])
            d[key[2]] = (d[key[2]][0], new)
            fr.locals[key[1]] = d
        else:
            fr.locals[key[1]] = new
    elif key[0] == 'r':
        r = E.wreg(st, key[1])
        r.cells[key[2]] = (r.cells[key[2]][0], new)
    else:
        st.ghost[key[1]] = new


def decisions(trace, upto):
    out = []
    while trace is not None and trace is not upto:
        out.append(trace[1])
        trace = trace[2]
        if len(out) > 200:
            return []
    return out


def snapshot(st):
    s = st.clone()
    for f in s.frames:
        # Not compared, and would keep all earlier snapshots alive
        f.loops = None
    return s


def visit(E, st, fr, bb, src):
    """Called on every jump to a loop head. May generalise `st` in place"""
    back, live = fr.fn.loopinfo
    key = (fr.fn.id, bb)
    if key in E.bad_loops:
        return
    loops = fr.loops or {}
    rec = loops.get(bb)
    if (src, bb) not in back:
        # Entered afresh
        snap = snapshot(st)
        loops = {h: r for h, r in loops.items()}
        loops[bb] = Rec(snap, st.trace)
        fr.loops = loops
        return
    if rec is None:
        return
    if rec.gen is not None:
        check(E, st, fr, rec, key, live[bb])
        raise PathEnd()
    decs = decisions(st.trace, rec.trace)
    cur, known = None, None
    if rec.n >= PATIENCE - 1:
        # Goes on and on
        cur = tests(st.log, rec.log)
        if rec.n >= PATIENCE and rec.prev:
            known = paired(rec.prev, cur)
    if decs or known:
        depth = len(st.frames) - 1
        deltas = diff(E, rec.snap.frames[depth] if depth < len(rec.snap.frames) else fr, rec.snap, fr, st, live[bb])
        if deltas:
            gen = generalise(E, st, fr, key, deltas, decs, known or [])
            if gen is not None:
                loops = dict(loops)
                loops[bb] = Rec(snapshot(st), st.trace, gen)
                fr.loops = loops
                E.stats['loops'] += 1
                return
    loops = dict(loops)
    loops[bb] = Rec(snapshot(st), st.trace, None, rec.n + 1, cur)
    fr.loops = loops


def tests(log, upto):
    """What was tested since, with known result"""
    out = []
    while log is not None and log is not upto:
        out.append(log[:2])
        log = log[2]
        if len(out) > 20000:
            return None
    return out


def paired(prev, cur):
    """Tests of two iterations -> (what was tested in the later one, by how much it has changed)"""
    if not cur or len(prev) != len(cur):
        return []
    out = []
    for (o1, e1), (o2, e2) in zip(prev, cur):
        if o1 != o2:
            return []
        s = sub(e2, e1)
        if isinstance(s, int) and s and (o1, e2, s) not in out:
            out.append((o1, e2, s))
    return out[:50]


def generalise(E, st, fr, key, deltas, decs, known):
    c = st.cons
    slopes = sorted({d for d, _ in deltas.values()} | {-d for d, _ in deltas.values()})
    cands, powers = [], []
    for alt in decs:
        for op, e in alt:
            e = c.norm(e)
            if isinstance(e, int):
                continue
            # `e` was decided in previous iteration, so at current state it's `e + s`
            for s in slopes:
                if s >= 0:
                    continue
                if op == 'ge':
                    cands.append((e, s))
                elif op == 'ne':
                    cands.append((add(e, s), s))
                    cands.append((add(neg(e), s), s))
    bases = []
    for key2, (d, _) in deltas.items():
        x = value_at(st, fr, key2)
        if isinstance(x, Lin) and (x, d) not in bases:
            bases.append((x, d))
    for alt in decs:
        for op, e in alt:
            if op == 'ne' and isinstance(e, Lin):
                powers += stops(c, c.norm(e), bases)
    for op, e, s in known:
        if op == 'ge':
            if s < 0:
                cands.append((e, s))
        elif s < 0:
            cands.append((add(e, s), s))
        else:
            cands.append((sub(neg(e), s), -s))
            if isinstance(e, int) and e > 0 and s in [d for d, _ in deltas.values()]:
                # Remainder of something which grows
                j = (e + s - 1).bit_length()
                powers += [((1 << i) - e - s, -s, 1 << i) for i in range(j, j + 20)]
    invs, ids = [], []
    for i, x in list(enumerate(cands)) + [(('power', m), (e, s)) for e, s, m in powers]:
        i = (key, tuple(slopes), i)
        if x not in invs and i not in E.bad_invs and c.ge(x[0]):
            invs.append(x)
            ids.append(i)
    if not invs:
        return None
    g = Gen()
    g.ids = ids
    g.k = fresh('k', 0, K_MAX)
    g.base = {key: value_at(st, fr, key) for key in deltas}
    g.deltas = {key: d for key, (d, _) in deltas.items()}
    g.inv = invs
    # Values changed must stay within range of their type
    test = c.clone()
    for e, s in invs:
        test.add(add(e, mulc(g.k, s)))
    for key, (d, size) in deltas.items():
        v = add(g.base[key], mulc(g.k, d))
        top = 1 << (8 * size if key[0] != 'g' else 64)
        if not (test.ge(v) and test.ge(sub(top - 1, v))):
            return None
    for e, s in invs:
        c.add(add(e, mulc(g.k, s)))
    for key in deltas:
        set_value(E, st, fr, key, add(g.base[key], mulc(g.k, g.deltas[key])))
    return g


def stops(c, e, bases):
    """Going on until something is a multiple, it can't get beyond the next multiple"""
    out = []
    if isinstance(e, int):
        return out
    for i, k in e.t:
        m = abs(k)
        if ATOMS[i].kind != 'fdiv' or m < 2:
            continue
        for x, d in bases:
            v = sub(x, d)
            r = c.norm(sub(v, mulc(fdiv(v, m), m)))
            if r != e and r != neg(e):
                continue
            if d > 0:
                q = add(mulc(fdiv(sub(x, 1), m), m), m)
                out.append((c.norm(sub(q, x)), -d, ('stop', m, d)))
            else:
                q = mulc(fdiv(x, m), m)
                out.append((c.norm(sub(x, q)), d, ('stop', m, d)))
    return [x for x in out if isinstance(x[0], Lin)]


def counters(e):
    """Atoms within a form, and within arguments of others"""
    out = set()
    todo = [i for i, _ in e.t]
    while todo:
        i = todo.pop()
        if i in out:
            continue
        out.add(i)
        for a in ATOMS[i].args:
            if isinstance(a, Lin):
                todo += [j for j, _ in a.t]
    return out


def implied(c, e):
    return c.ge(e) or not isinstance(c.norm(e), int) and not c.possible([add(neg(e), -1)])


def check(E, st, fr, rec, key, live):
    """State after generic iteration must be generalised state for k + 1"""
    g = rec.gen
    c = st.cons
    k1 = add(g.k, 1)
    k = g.k.t[0][0]
    if k not in E.inexact:
        for _, e in tests(st.log, rec.log) or ():
            if isinstance(e, Lin) and any(i != k and k in counters(Lin(0, ((i, 1),))) for i, _ in e.t):
                E.inexact[k] = key
                break
    depth = len(st.frames) - 1
    bad = [i for (e, s), i in zip(g.inv, g.ids) if not implied(c, add(e, mulc(k1, s)))]
    if bad and c.feasible():
        # Again without those
        E.bad_invs.update(bad)
        raise Restart()
    ok = not bad
    if ok:
        d = diff(E, rec.snap.frames[depth], rec.snap, fr, st, live)
        ok = d is not None and {x: y for x, (y, _) in d.items()} == g.deltas
    if not ok and c.feasible():
        E.bad_loops.add(key)
        raise Restart()
