"""Thread-modular (rely/guarantee) treatment of shared variables.

__v_shared(p, n, lo, hi) declares [p,p+n) shared with any number of other threads.
Rely: between any two of this thread's accesses the others may replace its value by
an arbitrary one (ints: within [lo,hi], the stated precondition); while this thread
holds a mutex that guards it, by none.  Every step of this thread that writes the
variable is recorded as an event (old value, new value, memory order):
  atomic store / atomicrmw / successful compare-exchange: one event each,
  writes under a mutex: one event per critical section, seen as a whole.
A plain access without a mutex held, or under varying mutexes, is a data race.
A compare-exchange forks into success (the value was the expected one) and failure
(it was an arbitrary one); a retry loop is closed by induction: a path that comes
back to the same failure point in a state that is an instance of the state it was in
before (up to the names of the values other threads wrote) is not continued, since
everything it can do is what the earlier state can do.
"""
import z3
from . import rat
from .rat import Rat, rsub, radd, rmul, rdiv, rconst
from .llparse import UNDEF, Special, sgn
from .engine import Giveup, PathEnd, BitsOf, Packed, tobv, simp, is_sym, V

ORD = {'monotonic': 0, 'acquire': 2, 'release': 3, 'acq_rel': 4, 'seq_cst': 5}
MAXRETRY = 8

class Var:
    __slots__ = ('oid', 'lo', 'hi', 'layout', 'rlo', 'rhi', 'lockset')
    def __init__(self, oid, lo, hi, layout, rlo, rhi, lockset):
        self.oid = oid; self.lo = lo; self.hi = hi; self.layout = layout; self.rlo = rlo; self.rhi = rhi; self.lockset = lockset
    def __getitem__(self, k):
        return (self.lo, self.hi)[k]
    def key(self):
        return (self.oid, self.lo, self.hi, self.lockset)

def var(st, a):
    return st.shared[a >> 32]

def rely(E, st, w, v, size):
    if w.rlo <= w.rhi and size <= 8 and not isinstance(v, (BitsOf, Packed, Rat)) and v is not UNDEF:
        b = tobv(v, size * 8)
        c = simp(z3.And(b >= w.rlo, b <= w.rhi))
        if not is_sym(c) and c == 1:
            return
        st.pc.append(c if is_sym(c) else z3.BoolVal(False))

def refresh(E, st, w):
    """other threads act"""
    o = E.wobj(st, w.oid)
    E.clear(o, w.lo, w.hi - w.lo)
    if not hasattr(E, 'envsym'):
        E.envsym = {}
        E.envatom = set()
    for off, size, k in w.layout:
        E.fresh += 1
        if k == 'f':
            i = E.new_atom('env%d' % E.fresh, 'in')
            E.envatom.add(i)
            E.envsym[E.zatoms[i].get_id()] = E.zatoms[i]
            o.cells[off] = (size, rat.ratom(i))
        else:
            v = z3.BitVec('env!%d' % E.fresh, size * 8)
            E.envsym[v.get_id()] = v
            o.cells[off] = (size, v)
            rely(E, st, w, v, size)

def snap(E, st, w):
    o = st.mem[w.oid]
    out = []
    for off, size, k in w.layout:
        ty = ('f', {4: 32, 8: 64, 16: 80}[size]) if k == 'f' else ('i', size * 8)
        c = o.cells.get(off)
        v = E.conv(c[1], ty, size) if c is not None and c[0] == size else E.load_slow(o, off, size, ty)
        out.append((off - w.lo, size, v))
    return out

def seen(st, s):
    st.ghost['seen'] = s

def event(E, st, old, new, so, fo):
    st.log.append((old, new, so, fo))

def guarded(E, st, w):
    """mutexes held that other threads also see"""
    tls = getattr(E, 'tls', ())
    return frozenset(m for m in st.locks if (m >> 32) in E.m.glob_by_id and (m >> 32) not in tls)

def plain(E, st, w, what):
    held = guarded(E, st, w)
    ls = held if w.lockset is None else w.lockset & held
    if not ls:
        if held:
            E.failure(st, 'race', 'data race: %s of the shared variable is guarded by different mutexes' % what)
        else:
            E.failure(st, 'race', 'data race: plain %s of the shared variable with no mutex held that other threads would take' % what)
        raise PathEnd()
    E.ok('race')
    if ls != w.lockset:
        st.shared[w.oid] = Var(w.oid, w.lo, w.hi, w.layout, w.rlo, w.rhi, ls)

def load(E, st, a, ty, atomic):
    w = var(st, a)
    if not atomic:
        plain(E, st, w, 'read')
    elif not guarded(E, st, w):
        refresh(E, st, w)
        seen(st, snap(E, st, w))
    return E.load(st, a, ty)

def store(E, st, a, ty, v, atomic, order=5):
    w = var(st, a)
    if not atomic:
        plain(E, st, w, 'write')
        E.store(st, a, ty, v)
        return
    if guarded(E, st, w):
        E.store(st, a, ty, v)
        return
    refresh(E, st, w)
    old = snap(E, st, w)
    E.store(st, a, ty, v)
    event(E, st, old, snap(E, st, w), order, None)

def access(E, st, a, n, what):
    """memcpy / memset on shared bytes"""
    w = st.shared.get(a >> 32)
    if w is not None and (a & 0xffffffff) < w.hi and (a & 0xffffffff) + n > w.lo:
        plain(E, st, w, what)

def cmpxchg(E, st, fr, regs, ins):
    _, dst, ty, p, c, n, weak, orders = ins[:8]
    a, c, n = V(regs, p), V(regs, c), V(regs, n)
    if type(a) is not int:
        raise Giveup('compare-exchange on a symbolic address')
    so = ORD[orders[0]] if orders else 5
    fo = ORD[orders[1]] if len(orders) > 1 else so
    size = E.m.size(ty)
    if not (st.shared and E.is_shared(st, a)):
        cur = E.load(st, a, ty)
        eq = same(E, st, cur, c)
        if eq:
            E.store(st, a, ty, n)
        regs[dst] = [cur, 1 if eq else 0]
        return
    w = var(st, a)
    if guarded(E, st, w):
        raise Giveup('compare-exchange under a mutex')
    def succ(s):
        E.store(s, a, ty, c)
        old = snap(E, s, w)
        for off, sz, v in old:
            rely(E, s, w, v, sz)
        E.store(s, a, ty, n)
        event(E, s, old, snap(E, s, w), so, fo)
        s.frames[-1].regs[dst] = [c, 1]
    def fail(s):
        refresh(E, s, w)
        seen(s, snap(E, s, w))
        s.frames[-1].regs[dst] = [E.load(s, a, ty), 0]
    forkcas(E, st, succ, fail)

def same(E, st, x, y):
    """equality of two values at a compare-exchange of a private variable: decided or given up"""
    if type(x) is int and type(y) is int:
        return x == y
    if isinstance(x, BitsOf) and isinstance(y, BitsOf) and rsub(x.r, y.r).is_zero():
        return True
    if isinstance(x, Packed) and isinstance(y, Packed) and len(x.parts) == len(y.parts):
        return all(p[0] == q[0] and same(E, st, p[1], q[1]) for p, q in zip(x.parts, y.parts))
    if is_sym(x) and is_sym(y):
        if x.eq(y):
            return True
        r, _ = E.check(st.pc + [x != y], 1000)
        if r == 'unsat':
            return True
        r, _ = E.check(st.pc + [x == y], 1000)
        if r == 'unsat':
            return False
    raise Giveup('undecided compare-exchange of a private variable')

def forkcas(E, st, succ, fail):
    key = tuple((f.f.name, f.lab, f.ip) for f in st.frames)
    s2 = st.fork()
    succ(s2)
    E.push(s2)
    fail(st)
    prev = st.visits.get(key, ())
    cur = st.fork()
    cur.visits = {}
    for old in prev:
        if subsumes(E, old, st):
            E.ok('induction')
            raise PathEnd()
    if len(prev) >= MAXRETRY:
        raise Giveup('retry loop is not closed by induction after %d rounds' % MAXRETRY)
    st.visits[key] = prev + (cur,)

def atomicrmw(E, st, fr, regs, ins):
    _, dst, kind, ty, p, v, orders = ins[:7]
    a, v = V(regs, p), V(regs, v)
    if type(a) is not int:
        raise Giveup('atomicrmw on a symbolic address')
    sh = st.shared and E.is_shared(st, a)
    w = var(st, a) if sh else None
    if sh:
        if not guarded(E, st, w):
            refresh(E, st, w)
        old = snap(E, st, w)
    x = E.load(st, a, ty)
    n = ty[1] if ty[0] == 'i' else 64
    M = (1 << n) - 1
    if kind == 'xchg':
        r = v
    elif kind in ('fadd', 'fsub'):
        r = radd(x, v) if kind == 'fadd' else rsub(x, v)
    elif x is UNDEF or v is UNDEF:
        r = UNDEF
    elif type(x) is int and type(v) is int:
        r = {'add': lambda: x + v, 'sub': lambda: x - v, 'and': lambda: x & v, 'or': lambda: x | v, 'xor': lambda: x ^ v, 'nand': lambda: ~(x & v),
             'max': lambda: x if sgn(x, n) >= sgn(v, n) else v, 'min': lambda: x if sgn(x, n) <= sgn(v, n) else v, 'umax': lambda: max(x, v), 'umin': lambda: min(x, v)}[kind]() & M
    else:
        X, Y = tobv(x, n), tobv(v, n)
        r = simp({'add': lambda: X + Y, 'sub': lambda: X - Y, 'and': lambda: X & Y, 'or': lambda: X | Y, 'xor': lambda: X ^ Y, 'nand': lambda: ~(X & Y),
                  'max': lambda: z3.If(X >= Y, X, Y), 'min': lambda: z3.If(X <= Y, X, Y), 'umax': lambda: z3.If(z3.UGE(X, Y), X, Y), 'umin': lambda: z3.If(z3.ULE(X, Y), X, Y)}[kind]())
    E.store(st, a, ty, r)
    if sh and not guarded(E, st, w):
        event(E, st, old, snap(E, st, w), ORD[orders[0]] if orders else 5, None)
    regs[dst] = x

# ---------------------------------------------------------------------- mutexes
def lock(E, st, m):
    if type(m) is not int:
        raise Giveup('symbolic mutex')
    if m in st.locks:
        E.failure(st, 'lock', 'deadlock: the mutex is already held by this thread')
        raise PathEnd()
    st.locks = st.locks | {m}
    if len(guarded(E, st, None)) == 1 and (m in guarded(E, st, None)):
        d = {}
        for oid, w in st.shared.items():
            refresh(E, st, w)
            d[oid] = snap(E, st, w)
        st.ghost['section'] = d
    return 0

def unlock(E, st, m):
    if m not in st.locks:
        E.failure(st, 'lock', 'unlock of a mutex that is not held')
        raise PathEnd()
    was = guarded(E, st, None)
    st.locks = st.locks - {m}
    if was and not guarded(E, st, None):
        for oid, old in st.ghost.get('section', {}).items():
            w = st.shared.get(oid)
            if w is None:
                continue
            new = snap(E, st, w)
            seen(st, new)
            if w.lockset is not None:
                event(E, st, old, new, 5, None)
    return 0

# ---------------------------------------------------------------------- state subsumption
def esyms(E, v):
    """names of other threads' values in v"""
    if isinstance(v, Rat):
        out = set()
        for p in [v.n] + [rat.DENL[f] for f, e in v.d]:
            for mo in p:
                for i, e in rat.mon_vars(mo):
                    if i in E.envatom:
                        out.add(E.zatoms[i].get_id())
        return out
    if isinstance(v, z3.ExprRef):
        return {k for k in E.zvars(v) if k in E.envsym}
    if isinstance(v, BitsOf):
        return esyms(E, v.r)
    if isinstance(v, Packed):
        return set().union(*[esyms(E, x) for _, x in v.parts])
    if isinstance(v, (list, tuple)):
        return set().union(*[esyms(E, x) for x in v]) if v else set()
    return set()

def subst_rat(E, v, mp):
    at = {}
    for i in E.envatom:
        k = E.zatoms[i].get_id()
        if k in mp:
            at[i] = mp[k]
    def poly(p):
        r = rconst(0)
        for mo, c in p.items():
            t = rconst(c)
            for i, e in rat.mon_vars(mo):
                x = at.get(i)
                x = rat.ratom(i) if x is None else x
                for _ in range(e):
                    t = rmul(t, x)
            r = radd(r, t)
        return r
    r = poly(v.n)
    for f, e in v.d:
        for _ in range(e):
            r = rdiv(r, poly(rat.DENL[f]))
    return r

class No(Exception):
    pass

def subsumes(E, A, B):
    """state B is an instance of state A"""
    try:
        return subs(E, A, B)
    except No:
        return False

def subs(E, A, B):
    if len(A.frames) != len(B.frames) or A.locks != B.locks or len(A.log) != len(B.log):
        return False
    if {k: v.key() for k, v in A.shared.items()} != {k: v.key() for k, v in B.shared.items()} or A.exc != B.exc:
        return False
    omap = {}
    pairs = []
    todo = []
    def omatch(x, y):
        if x == y:
            return
        if omap.get(x, y) != y:
            raise No()
        if x not in omap:
            if x not in A.mem or y not in B.mem or A.mem[x].kind != 'stack' or B.mem[y].kind != 'stack' or A.mem[x].size != B.mem[y].size:
                raise No()
            omap[x] = y
            todo.append((x, y))
    def val(a, b):
        if a is UNDEF:
            return
        if type(a) is int:
            if type(b) is not int:
                raise No()
            if a != b:
                if a & 0xffffffff != b & 0xffffffff or a >> 32 == 0:
                    raise No()
                omatch(a >> 32, b >> 32)
            return
        if isinstance(a, (list, tuple)):
            if not isinstance(b, (list, tuple)) or len(a) != len(b):
                raise No()
            for x, y in zip(a, b):
                val(x, y)
            return
        if isinstance(a, BitsOf):
            if not isinstance(b, BitsOf):
                raise No()
            return val(a.r, b.r)
        if isinstance(a, Packed):
            if not isinstance(b, Packed) or len(a.parts) != len(b.parts):
                raise No()
            for x, y in zip(a.parts, b.parts):
                if x[0] != y[0]:
                    raise No()
                val(x[1], y[1])
            return
        if isinstance(a, (Rat, z3.ExprRef)):
            if isinstance(a, Rat) != isinstance(b, Rat):
                raise No()
            if type(b) is int and isinstance(a, z3.BitVecRef):
                b = z3.BitVecVal(b, a.size())
            elif type(b) is int and isinstance(a, z3.BoolRef):
                b = z3.BoolVal(bool(b))
            if not isinstance(b, (Rat, z3.ExprRef)) or (isinstance(a, z3.ExprRef) and a.sort() != b.sort()):
                raise No()
            pairs.append((a, b))
            return
        if isinstance(a, Special):
            if not isinstance(b, Special) or repr(a.x) != repr(b.x):
                raise No()
            return
        if a != b:
            raise No()
    for f, g in zip(A.frames, B.frames):
        if f.f is not g.f or f.lab != g.lab or f.ip != g.ip or f.dst != g.dst or f.unwind != g.unwind:
            return False
        if len(f.allocas) == len(g.allocas):
            for x, y in zip(f.allocas, g.allocas):
                if x in A.mem and y in B.mem:
                    omatch(x, y)
        for k, a in f.regs.items():
            if k in g.regs:
                val(a, g.regs[k])
    for x, y in zip(A.log, B.log):
        for s, t in zip(x[:2], y[:2]):
            val([v for _, _, v in s], [v for _, _, v in t])
        if x[2:] != y[2:]:
            return False
    ga, gb = A.ghost, B.ghost
    if set(ga) != set(gb):
        return False
    for k in ga:
        if k == 'seen':
            val([v for _, _, v in ga[k]], [v for _, _, v in gb[k]])
        elif k == 'section':
            pass
        elif ga[k] != gb[k]:
            return False
    def omem(x, y):
        o, p = A.mem[x], B.mem[y]
        if o is p:
            for off, (sz, v) in o.cells.items():
                if not isinstance(v, int) and v is not UNDEF:
                    val(v, v)
            return
        if o.alive != p.alive or o.size != p.size or o.fill != p.fill:
            raise No()
        for off, (sz, v) in o.cells.items():
            if v is UNDEF:
                continue
            c = p.cells.get(off)
            if c is None or c[0] != sz:
                raise No()
            val(v, c[1])
        if o.fill is not None and any(k not in o.cells for k in p.cells):
            raise No()
    for x in list(A.mem):
        if x in omap or any(x in f.allocas for f in A.frames):
            continue
        if x not in B.mem:
            return False
        omem(x, x)
    for f, g in zip(A.frames, B.frames):
        for x, y in zip(f.allocas, g.allocas):
            if x == y and x in A.mem and y in B.mem:
                omem(x, y)
    while todo:
        x, y = todo.pop()
        omem(x, y)
    # names of the other threads' values: infer, then verify
    mp = {}
    work = []
    for a, b in pairs:
        sa = esyms(E, a)
        if not sa:
            work.append((a, b, sa, None))
            continue
        pure = (a.get_id() in sa) if isinstance(a, z3.ExprRef) else (len(a.n) == 1 and not a.d and is_atom(a))
        if pure:
            k = next(iter(sa))
            if k in mp:
                if not eqv(mp[k], b):
                    return False
            else:
                mp[k] = b
        work.append((a, b, sa, esyms(E, b)))
    changed = True
    while changed:
        changed = False
        for a, b, sa, sb in work:
            un = [k for k in sa if k not in mp]
            if len(un) == 1:
                used = set()
                for k in sa:
                    if k in mp:
                        used |= esyms(E, mp[k])
                left = [k for k in sb if k not in used]
                if len(left) == 1:
                    z = E.envsym[left[0]]
                    mp[un[0]] = z if not isinstance(z, z3.ArithRef) else rat.ratom([i for i in E.envatom if E.zatoms[i].get_id() == left[0]][0])
                    changed = True
    zs = []
    for k, b in mp.items():
        z = E.envsym[k]
        zb = E.zrat(b) if isinstance(b, Rat) else b
        if not zb.eq(z):
            zs.append((z, zb))
    rmp = {k: b for k, b in mp.items() if isinstance(b, Rat)}
    for a, b, sa, sb in work:
        if isinstance(a, Rat):
            x = subst_rat(E, a, rmp) if sa else a
            if not rsub(x, b).is_zero():
                return False
        else:
            x = z3.substitute(a, *zs) if zs and sa else a
            if not x.eq(b):
                e = simp(x == b)
                if is_sym(e):
                    r, _ = E.check(B.pc + [z3.Not(e)], 1000)
                    if r != 'unsat':
                        return False
                elif e != 1:
                    return False
    have = {c.get_id() for c in B.pc if is_sym(c)}
    for c in A.pc:
        if not is_sym(c):
            continue
        x = z3.substitute(c, *zs) if zs else c
        if x.get_id() in have:
            continue
        r, _ = E.check(B.pc + [z3.Not(x)], 1000)
        if r != 'unsat':
            return False
    return True

def is_atom(a):
    (mo, c), = a.n.items()
    vs = list(rat.mon_vars(mo))
    return c == 1 and len(vs) == 1 and vs[0][1] == 1

def eqv(a, b):
    if isinstance(a, Rat):
        return isinstance(b, Rat) and rsub(a, b).is_zero()
    return isinstance(b, z3.ExprRef) and a.eq(b)

# ---------------------------------------------------------------------- intrinsics and libatomic
def register(S):
    def stub(n):
        def d(f):
            S['@' + n] = f
            return f
        return d

    @stub('__v_shared')
    def f(E, st, fr, ins, args, name):
        p, n, lo, hi = args
        oid, off = p >> 32, p & 0xffffffff
        o = st.mem[oid]
        lay = []
        pos = off
        while pos < off + n:
            c = o.cells.get(pos)
            if c is None or pos + c[0] > off + n:
                lay.append((pos, 1, 'i'))       # padding
                pos += 1
                continue
            lay.append((pos, c[0], 'f' if isinstance(c[1], (Rat, Special, BitsOf)) else 'i'))
            pos += c[0]
        st.shared[oid] = Var(oid, off, off + n, tuple(lay), sgn(lo, 64), sgn(hi, 64), None)
        st.log = []
        E.externals.add('rely: other threads write arbitrary values%s and only by atomic operations or under the same mutex' % (' within the stated range' if sgn(lo, 64) <= sgn(hi, 64) else ''))

    @stub('__v_unshare')
    def f(E, st, fr, ins, args, name):
        st.shared.pop(args[0] >> 32, None)

    @stub('__v_nev')
    def f(E, st, fr, ins, args, name):
        return len(st.log)

    def out(E, st, a, s):
        oid, off = a >> 32, a & 0xffffffff
        o = E.wobj(st, oid)
        for d, size, v in s:
            E.clear(o, off + d, size)
            o.cells[off + d] = (size, v)

    @stub('__v_ev')
    def f(E, st, fr, ins, args, name):
        k, a, b = args
        out(E, st, a, st.log[k][0])
        out(E, st, b, st.log[k][1])

    @stub('__v_evord')
    def f(E, st, fr, ins, args, name):
        x = st.log[args[0]]
        return ((x[2] if x[3] is None else x[2] * 16 + x[3] + 256)) & ((1 << 64) - 1)

    @stub('__v_seen')
    def f(E, st, fr, ins, args, name):
        s = st.ghost.get('seen')
        if s is None:
            return 0
        out(E, st, args[0], s)
        return 1

    @stub('__v_nlocks')
    def f(E, st, fr, ins, args, name):
        return len(st.locks)

    def sh(E, st, a):
        return st.shared and E.is_shared(st, a)

    @stub('__atomic_load')
    def f(E, st, fr, ins, args, name):
        n, p, d, o = args
        if sh(E, st, p):
            w = var(st, p)
            if not guarded(E, st, w):
                refresh(E, st, w)
                seen(st, snap(E, st, w))
        E.memcpy_raw(st, d, p, n)

    @stub('__atomic_store')
    def f(E, st, fr, ins, args, name):
        n, p, s, o = args
        if sh(E, st, p):
            w = var(st, p)
            refresh(E, st, w)
            old = snap(E, st, w)
            E.memcpy_raw(st, p, s, n)
            event(E, st, old, snap(E, st, w), o, None)
        else:
            E.memcpy_raw(st, p, s, n)

    @stub('__atomic_exchange')
    def f(E, st, fr, ins, args, name):
        n, p, s, d, o = args
        if sh(E, st, p):
            w = var(st, p)
            refresh(E, st, w)
            old = snap(E, st, w)
            E.memcpy_raw(st, d, p, n)
            E.memcpy_raw(st, p, s, n)
            event(E, st, old, snap(E, st, w), o, None)
        else:
            E.memcpy_raw(st, d, p, n)
            E.memcpy_raw(st, p, s, n)

    @stub('__atomic_compare_exchange')
    def f(E, st, fr, ins, args, name):
        n, p, e, d, so, fo = args
        if not sh(E, st, p):
            raise Giveup('compare-exchange (libatomic) of a private variable')
        w = var(st, p)
        dst = ins[1]
        def succ(s):
            E.memcpy_raw(s, p, e, n)
            old = snap(E, s, w)
            for off, sz, v in old:
                rely(E, s, w, v, sz)
            E.memcpy_raw(s, p, d, n)
            event(E, s, old, snap(E, s, w), so, fo)
            s.frames[-1].regs[dst] = 1
            if ins[0] == 'invoke':
                E.jump(s, s.frames[-1], ins[5])
        def fail(s):
            refresh(E, s, w)
            seen(s, snap(E, s, w))
            E.memcpy_raw(s, e, p, n)
        forkcas(E, st, succ, fail)
        return 0

    @stub('llvm.threadlocal.address.p0')
    def f(E, st, fr, ins, args, name):
        if not hasattr(E, 'tls'):
            E.tls = set()
        E.tls.add(args[0] >> 32)
        return args[0]
