"""Contracts assumed for functions outside /repo (libc, libm, C++ runtime) and
the specification intrinsics (__v_*) the contract files use."""
import re, math
from fractions import Fraction
import z3
from . import rat
from .rat import Rat, ZERO, ONE, rconst, radd, rsub, rmul, rdiv, rneg
from .llparse import UNDEF, Special, sgn, I8, PTR
from .engine import (Engine, Giveup, PathEnd, Thrown, NORET, FRAMED, BitsOf, tobv, simp, is_sym)

S = {}
PREFIX = []

def stub(*names):
    def d(f):
        for n in names:
            S['@' + n] = f
        return f
    return d

def prefix(*ps):
    def d(f):
        for p in ps:
            PREFIX.append(('@' + p, f))
        return f
    return d

def find(eng, name):
    h = S.get(name)
    if h is not None:
        return h
    for p, f in PREFIX:
        if name.startswith(p):
            return f
    return None

def argreg(ins, i):
    v = ins[4][i][1]
    return v if type(v) is str else None

def conc(E, st, ins, args, i, why):
    v = args[i]
    if type(v) is int:
        return v
    if v is UNDEF:
        E.failure(st, 'init', 'uninitialised value used as ' + why)
        raise PathEnd()
    r = argreg(ins, i)
    if r is None:
        raise Giveup('symbolic ' + why)
    v = E.concretize_int(st, r, v, why)
    args[i] = v
    return v

# ------------------------------------------------------------------ spec intrinsics
@stub('__v_real')
def v_real(E, st, fr, ins, args, name):
    n = E.cstr(st, args[0])
    i = E.new_atom('%s_%d' % (n, len(st.inputs)), 'in')
    st.inputs.append(('real', n, i, None))
    return rat.ratom(i)

def v_int(bits):
    def f(E, st, fr, ins, args, name):
        n = E.cstr(st, args[0])
        b = z3.BitVec('%s_%d' % (n, len(st.inputs)), bits)
        st.inputs.append(('i%d' % bits, n, b, None))
        return b
    return f
for _b in (8, 16, 32, 64):
    S['@__v_i%d' % _b] = v_int(_b)

@stub('__v_bool')
def v_bool(E, st, fr, ins, args, name):
    n = E.cstr(st, args[0])
    b = z3.Bool('%s_%d' % (n, len(st.inputs)))
    st.inputs.append(('bool', n, b, None))
    return b

@stub('__v_choose')
def v_choose(E, st, fr, ins, args, name):
    """case split over lo..hi: one state per value"""
    n = E.cstr(st, args[0])
    lo, hi = sgn(args[1], 64), sgn(args[2], 64)
    key = '%choose'
    for v in range(lo + 1, hi + 1):
        o = st.fork()
        o.inputs.append(('choose', n, v, None))
        o.frames[-1].regs[ins[1]] = v & (2**64 - 1)
        if ins[0] == 'invoke':
            E.jump(o, o.frames[-1], ins[5])
        E.push(o)
    st.inputs.append(('choose', n, lo, None))
    return lo & (2**64 - 1)

@stub('__v_range')
def v_range(E, st, fr, ins, args, name):
    n = E.cstr(st, args[0])
    lo, hi = sgn(args[1], 64), sgn(args[2], 64)
    bits = 64
    for k in (8, 16, 32):
        if -(1 << (k - 1)) <= lo and hi < (1 << (k - 1)):
            bits = k
            break
    b = z3.BitVec('%s_%d' % (n, len(st.inputs)), bits)
    st.inputs.append(('range%d' % bits, n, b, None))
    if not (lo == -(1 << (bits - 1)) and hi == (1 << (bits - 1)) - 1):
        st.pc.append(z3.And(b >= lo, b <= hi))
    return z3.SignExt(64 - bits, b) if bits < 64 else b

@stub('__v_assume')
def v_assume(E, st, fr, ins, args, name):
    c = args[0]
    if c is UNDEF:
        raise Giveup('assume of undefined value')
    if type(c) is int:
        if not c:
            raise PathEnd()
        return
    c = c if isinstance(c, z3.BoolRef) else c != 0
    if not E.feasible(st, c):
        raise PathEnd()
    st.pc.append(c)

@stub('__v_assert')
def v_assert(E, st, fr, ins, args, name):
    c = args[0]
    if is_sym(c) and not isinstance(c, z3.BoolRef):
        c = c != 0
    msg = E.cstr(st, args[1])
    E.prove(st, c, 'assert', msg)
    if isinstance(c, z3.BoolRef):
        st.pc.append(c)

@stub('__v_fresh')
def v_fresh(E, st, fr, ins, args, name):
    n = E.cstr(st, args[0])
    st.ghost['fresh'] = st.ghost.get('fresh', 0) + 1
    return rat.ratom(E.new_atom('%s~%d' % (n, st.ghost['fresh']), 'in'))

@stub('__v_eq', '__v_feq')
def v_eq(E, st, fr, ins, args, name):
    E.prove_eq(st, args[0], args[1], E.cstr(st, args[2]))

@stub('__v_nonzero')
def v_nz(E, st, fr, ins, args, name):
    a = args[0]
    c = a.const() if isinstance(a, Rat) else None
    if c is not None:
        if c == 0:
            raise PathEnd()
        return
    nz = set(st.ghost.get('nz') or ())
    nz.add(rat.pkey(a.n))
    # constant multiples
    i, k = rat.intern_den(a.n)
    nz.add(rat.pkey(rat.DENL[i]))
    st.ghost['nz'] = nz
    st.pc.append(E.cmp0(Rat(a.n), 'ne'))

@stub('__v_cover')
def v_cover(E, st, fr, ins, args, name):
    n = E.cstr(st, args[0])
    E.covers[n] = E.covers.get(n, 0) + 1

@stub('__v_bounded')
def v_bounded(E, st, fr, ins, args, name):
    E.bounded.add(E.cstr(st, args[0]))

@stub('__v_native_only')
def v_native(E, st, fr, ins, args, name):
    raise Giveup('outside the verifier: ' + E.cstr(st, args[0]))

@stub('__v_fail')
def v_fail(E, st, fr, ins, args, name):
    E.failure(st, 'assert', E.cstr(st, args[0]))
    raise PathEnd()

@stub('__v_diff')
def v_diff(E, st, fr, ins, args, name):
    """d(expr)/d(var): exact derivative of the first argument w.r.t. the input atom"""
    e, x = args
    (m, c), = x.n.items()
    vs = rat.mon_vars(m)
    assert c == 1 and len(vs) == 1 and vs[0][1] == 1
    i = vs[0][0]
    return rdiff(e, i)

def pdiff(p, i):
    out = {}
    sh = rat.FB * i
    for m, c in p.items():
        e = (m >> sh) & rat.FMASK
        if e:
            out[m - (1 << sh)] = c * e
    return out

def rdiff(r, i):
    # (n/D)' = n'/D - n * sum e_f f'/f / D
    t = Rat(pdiff(r.n, i), r.d)
    for f, e in r.d:
        df = pdiff(rat.DENL[f], i)
        if df:
            t = rsub(t, rmul(Rat(rat.pscale(r.n, e), r.d), rdiv(Rat(df), Rat(rat.DENL[f]))))
    return t

@stub('__v_subst')
def v_subst(E, st, fr, ins, args, name):
    """expression with atom x replaced by value v"""
    e, x, v = args
    (m, c), = x.n.items()
    i = rat.mon_vars(m)[0][0]
    return rsubst(e, i, v)

def psubst(p, i, v):
    sh = rat.FB * i
    by = {}
    for m, c in p.items():
        k = (m >> sh) & rat.FMASK
        by.setdefault(k, {})[m - (k << sh)] = c
    t = ZERO
    for k in sorted(by, reverse=True):
        term = Rat(by[k])
        for _ in range(k):
            term = rmul(term, v)
        t = radd(t, term)
    return t

def rsubst(r, i, v):
    n = psubst(r.n, i, v)
    for f, e in r.d:
        d = psubst(rat.DENL[f], i, v)
        for _ in range(e):
            n = rdiv(n, d)
    return n

@stub('__v_integrate')
def v_integrate(E, st, fr, ins, args, name):
    """definite integral over x in [a,b] of a polynomial"""
    e, x, a, b = args
    (m, c), = x.n.items()
    i = rat.mon_vars(m)[0][0]
    if e.d:
        raise Giveup('integral of a rational function')
    sh = rat.FB * i
    prim = {}
    for m, c in e.n.items():
        k = (m >> sh) & rat.FMASK
        prim[m + (1 << sh)] = rat.norm(Fraction(c) / (k + 1))
    return rsub(psubst(prim, i, b), psubst(prim, i, a))

# ------------------------------------------------------------------ no-ops
def nop(E, st, fr, ins, args, name):
    return UNDEF if ins[2][0] != 'void' else None

for n in ('__cxa_atexit', '_ZNSt8ios_base4InitC1Ev', '_ZNSt8ios_base4InitD1Ev', '__cxa_end_catch_dummy',
          'fflush', 'printf', 'puts', 'putchar', 'llvm.va_start', 'llvm.va_end'):
    def _z(E, st, fr, ins, args, name):
        return 0 if ins[2][0] in 'ip' else None
    S['@' + n] = _z
for p in ('llvm.lifetime', 'llvm.dbg', 'llvm.assume', 'llvm.stacksave', 'llvm.stackrestore', 'llvm.experimental.noalias', 'llvm.donothing', 'llvm.invariant', 'llvm.prefetch'):
    PREFIX.append(('@' + p, nop))

@prefix('llvm.is.constant')
def is_constant(E, st, fr, ins, args, name):
    return 0

def lst(E, st, a, v=None, off=0):
    if v is None:
        return E.load(st, a + off, PTR)
    E.store(st, a + off, PTR, v)

@stub('_ZNSt8__detail15_List_node_base7_M_hookEPS0_')
def list_hook(E, st, fr, ins, args, name):
    n, pos = args
    prev = lst(E, st, pos, None, 8)
    lst(E, st, n, pos, 0)
    lst(E, st, n, prev, 8)
    lst(E, st, prev, n, 0)
    lst(E, st, pos, n, 8)

@stub('_ZNSt8__detail15_List_node_base9_M_unhookEv')
def list_unhook(E, st, fr, ins, args, name):
    n = args[0]
    nx, pv = lst(E, st, n), lst(E, st, n, None, 8)
    lst(E, st, pv, nx, 0)
    lst(E, st, nx, pv, 8)

@prefix('llvm.expect')
def expect(E, st, fr, ins, args, name):
    return args[0]

# iostreams : assumed to have no effect on program state; insertion returns the stream
@prefix('_ZNSolsE', '_ZStlsI', '_ZSt4endlI', '_ZSt16__ostream_insert', '_ZNSo3put', '_ZNSo5flush', '_ZNSo9_M_insert', '_ZStlsISt11char_traits', '_ZSt5flushI', '_ZNSo5writeE')
def os_ins(E, st, fr, ins, args, name):
    E.externals.add('std::ostream insertion (no effect on program state)')
    return args[0]

# ------------------------------------------------------------------ libm
def unary(fn):
    def d(f):
        for n in fn:
            S['@' + n] = f
        return f
    return d

@unary(['sqrt', 'sqrtf', 'sqrtl', 'llvm.sqrt.f64', 'llvm.sqrt.f32', 'llvm.sqrt.f80'])
def f_sqrt(E, st, fr, ins, args, name):
    a = args[0]
    if a is UNDEF:
        return a
    E.externals.add('sqrt(x): result >= 0 and result^2 == x')
    if isinstance(a, Special):
        return a
    if a.const() is None and not a.d:
        c = rat.content(a.n)
        sq, r = rat.isq(c.numerator * c.denominator)
        if r == 1 and len(a.n) < 400:
            q = rat.psqrt(rat.pscale(a.n, 1 / c))
            if q is not None:
                E.ok('sqrt-domain', 'perfect square')
                return absfork(E, st, ins, Rat(rat.pscale(q, Fraction(sq, c.denominator))))
    if a.const() is None:
        # requires x >= 0 (definedness)
        key = ('sqrtdom', a.key())
        if key not in st.ghost:
            if a.nn:
                E.ok('sqrt-domain', 'sum of squares')
            else:
                c = E.cmp0(a, 'ge')
                r, model = E.check(st.pc + [z3.Not(c)], min(1000, E.opts['branch_ms']))
                if r == 'unsat':
                    E.ok('sqrt-domain', 'z3')
                else:
                    E.notes.setdefault('sqrt argument not shown >= 0', []).append([rat.show(a)[:120], E.where(st)])
                    st.pc.append(c)
            st.ghost[key] = True
    return E.sqrt(st, a)

@unary(['fabs', 'fabsf', 'fabsl', 'llvm.fabs.f64', 'llvm.fabs.f32', 'llvm.fabs.f80'])
def f_abs(E, st, fr, ins, args, name):
    a = args[0]
    if a is UNDEF:
        return a
    if isinstance(a, Special):
        return Special(abs(a.x))
    c = a.const()
    if c is not None:
        return rconst(abs(c))
    return absfork(E, st, ins, a)

def absfork(E, st, ins, a):
    """|a|, forking on the sign"""
    if a.nn:
        return a
    neg = E.cmp0(a, 'lt')
    vs = E.branch(st, neg)
    if len(vs) == 2:
        o = st.fork()
        o.pc.append(neg)
        ofr = o.frames[-1]
        ofr.regs[ins[1]] = rneg(a)
        if ins[0] == 'invoke':
            E.jump(o, ofr, ins[5])
        E.push(o)
        st.pc.append(z3.Not(neg))
        return a
    return rneg(a) if vs[0] == 1 else a

def minmax(mx):
    def f(E, st, fr, ins, args, name):
        a, b = args
        if a is UNDEF or b is UNDEF:
            return UNDEF
        lt = E.cmp0(rsub(a, b), 'lt')
        if isinstance(lt, bool):
            return (b if lt else a) if mx else (a if lt else b)
        vs = E.branch(st, lt)
        if len(vs) == 2:
            o = st.fork()
            o.pc.append(lt)
            o.frames[-1].regs[ins[1]] = b if mx else a
            if ins[0] == 'invoke':
                E.jump(o, o.frames[-1], ins[5])
            E.push(o)
            st.pc.append(z3.Not(lt))
            return a if mx else b
        return (b if vs[0] else a) if mx else (a if vs[0] else b)
    return f
for n in ('fmax', 'fmaxf', 'llvm.maxnum.f64', 'llvm.maxnum.f32', 'llvm.maximum.f64'):
    S['@' + n] = minmax(True)
for n in ('fmin', 'fminf', 'llvm.minnum.f64', 'llvm.minnum.f32', 'llvm.minimum.f64'):
    S['@' + n] = minmax(False)

@unary(['llvm.fmuladd.f64', 'llvm.fmuladd.f32', 'llvm.fma.f64', 'fma'])
def f_fma(E, st, fr, ins, args, name):
    if any(a is UNDEF for a in args):
        return UNDEF
    return radd(rmul(args[0], args[1]), args[2])

def transc(nm, pyf):
    def f(E, st, fr, ins, args, name):
        if any(a is UNDEF for a in args):
            return UNDEF
        if any(isinstance(a, Special) for a in args):
            xs = [a.x if isinstance(a, Special) else float(a.const()) for a in args]
            try:
                r = pyf(*xs)
            except (ValueError, OverflowError):
                r = float('nan')
            return Special(r) if r != r or abs(r) == math.inf else rconst(Fraction(r))
        cs = [a.const() for a in args]
        if all(c is not None for c in cs):
            try:
                r = pyf(*[float(c) for c in cs])
            except ValueError:
                r = float('nan') if cs[0] != 0 else -math.inf
            except OverflowError:
                r = math.inf
            if r != r or abs(r) == math.inf:
                return Special(r)
            s = rat.snap(r) if nm in ('floor', 'ceil', 'round', 'trunc') else Fraction(r)
            if nm in ('cos', 'sin') and abs(r) < 1e-15:
                s = Fraction(0)
            return rconst(s)
        if nm == 'pow' and cs[1] is not None and Fraction(cs[1]).denominator == 1 and abs(cs[1]) <= 40:
            k = int(cs[1])
            b = args[0]
            t = ONE
            for _ in range(abs(k)):
                t = rmul(t, b)
            if k < 0:
                E.nonzero(st, b)
                t = rdiv(ONE, t)
            return t
        if nm == 'pow' and cs[1] == Fraction(1, 2):
            return E.sqrt(st, args[0])
        E.externals.add('%s: deterministic function of its argument' % nm)
        return E.fn_atom(nm, *args)
    return f

for nm, pf in dict(cos=math.cos, sin=math.sin, tan=math.tan, exp=math.exp, log=math.log, log2=math.log2, log10=math.log10,
                   acos=math.acos, asin=math.asin, atan=math.atan, floor=math.floor, ceil=math.ceil, trunc=math.trunc,
                   round=lambda x: math.floor(abs(x) + .5) * (1 if x >= 0 else -1)).items():
    h = transc(nm, pf)
    for n in (nm, nm + 'f', nm + 'l', 'llvm.%s.f64' % nm, 'llvm.%s.f32' % nm):
        S['@' + n] = h
h = transc('pow', math.pow)
for n in ('pow', 'powf', 'powl', 'llvm.pow.f64', 'llvm.pow.f32'):
    S['@' + n] = h
h = transc('atan2', math.atan2)
S['@atan2'] = h

@unary(['llvm.powi.f64.i32', 'llvm.powi.f32.i32'])
def f_powi(E, st, fr, ins, args, name):
    k = sgn(conc(E, st, ins, args, 1, 'integer exponent'), 32)
    t = ONE
    for _ in range(abs(k)):
        t = rmul(t, args[0])
    if k < 0:
        E.nonzero(st, args[0])
        t = rdiv(ONE, t)
    return t

# integer intrinsics
def imm(pred):
    def f(E, st, fr, ins, args, name):
        a, b = args
        n = ins[2][1]
        if type(a) is int and type(b) is int:
            from .engine import ICMP
            return a if ICMP[pred](a, b, n) else b
        from .engine import ZCMP
        x, y = tobv(a, n), tobv(b, n)
        return simp(z3.If(ZCMP[pred](x, y), x, y))
    return f
for b in (8, 16, 32, 64):
    S['@llvm.smax.i%d' % b] = imm('sgt')
    S['@llvm.smin.i%d' % b] = imm('slt')
    S['@llvm.umax.i%d' % b] = imm('ugt')
    S['@llvm.umin.i%d' % b] = imm('ult')

@prefix('llvm.abs.i')
def i_abs(E, st, fr, ins, args, name):
    n = ins[2][1]
    a = args[0]
    if type(a) is int:
        return abs(sgn(a, n)) & ((1 << n) - 1)
    x = tobv(a, n)
    return simp(z3.If(x < 0, -x, x))
S['@abs'] = i_abs
S['@labs'] = i_abs
S['@llabs'] = i_abs

@prefix('llvm.ctlz.i')
def i_ctlz(E, st, fr, ins, args, name):
    n = ins[2][1]
    a = args[0]
    if type(a) is int:
        return n - a.bit_length()
    raise Giveup('ctlz')

@prefix('llvm.umul.with.overflow', 'llvm.uadd.with.overflow', 'llvm.usub.with.overflow', 'llvm.smul.with.overflow', 'llvm.sadd.with.overflow', 'llvm.ssub.with.overflow')
def i_ov(E, st, fr, ins, args, name):
    n = ins[4][0][0][1]
    a, b = args
    sg = '.s' in name[:8]
    opn = name.split('.')[1][1:]
    if type(a) is int and type(b) is int:
        if sg:
            a, b = sgn(a, n), sgn(b, n)
        r = a * b if opn == 'mul' else a + b if opn == 'add' else a - b
        lo, hi = (-(1 << (n - 1)), (1 << (n - 1)) - 1) if sg else (0, (1 << n) - 1)
        return [r & ((1 << n) - 1), 0 if lo <= r <= hi else 1]
    x, y = tobv(a, n), tobv(b, n)
    ext = z3.SignExt if sg else z3.ZeroExt
    X, Y = ext(n, x), ext(n, y)
    R = X * Y if opn == 'mul' else X + Y if opn == 'add' else X - Y
    r = z3.Extract(n - 1, 0, R)
    return [simp(r), simp(ext(n, r) != R)]

# ------------------------------------------------------------------ memory
@prefix('llvm.memcpy.', 'llvm.memmove.')
def m_cpy(E, st, fr, ins, args, name):
    n = conc(E, st, ins, args, 2, 'copy length')
    for i in (0, 1):
        if n and type(args[i]) is not int:
            args[i] = E.sym_addr(st, argreg(ins, i), args[i], n, 'copy')
    if n > (1 << 31):
        E.failure(st, 'mem', 'copy of %d bytes' % n)
        raise PathEnd()
    if n:
        E.memcpy(st, args[0], args[1], n)
    return args[0]
S['@memcpy'] = S['@memmove'] = m_cpy

@prefix('llvm.memset.')
def m_set(E, st, fr, ins, args, name):
    n = conc(E, st, ins, args, 2, 'fill length')
    if type(args[0]) is not int and n:
        args[0] = E.sym_addr(st, argreg(ins, 0), args[0], n, 'fill')
    v = args[1]
    if is_sym(v) and isinstance(v, z3.BitVecRef) and v.size() > 8:
        v = z3.Extract(7, 0, v)
    if n:
        E.memset(st, args[0], v, n)
    return args[0]
S['@memset'] = m_set

@stub('strlen')
def m_strlen(E, st, fr, ins, args, name):
    n = 0
    while True:
        b = E.load(st, args[0] + n, I8)
        if b is UNDEF:
            E.failure(st, 'init', 'strlen of uninitialised bytes')
            raise PathEnd()
        if type(b) is not int:
            r, _ = E.check(st.pc + [b == 0], E.opts['branch_ms'])
            if r != 'unsat':
                r2, _ = E.check(st.pc + [b != 0], E.opts['branch_ms'])
                if r2 != 'unsat':
                    o = st.fork()
                    o.pc.append(b == 0)
                    o.frames[-1].regs[ins[1]] = n
                    if ins[0] == 'invoke':
                        E.jump(o, o.frames[-1], ins[5])
                    E.push(o)
                    st.pc.append(b != 0)
                    n += 1
                    continue
                return n
            n += 1
            continue
        if b == 0:
            return n
        n += 1

def bytes_of(E, st, a, n):
    return [E.load(st, a + i, I8) for i in range(n)]

@stub('memcmp', 'bcmp', '__builtin_memcmp')
def m_cmp(E, st, fr, ins, args, name):
    n = conc(E, st, ins, args, 2, 'compare length')
    r = 0
    if n == 0:
        return 0
    x = bytes_of(E, st, args[0], n)
    y = bytes_of(E, st, args[1], n)
    res = z3.BitVecVal(0, 32)
    sym = False
    for p, q in reversed(list(zip(x, y))):
        if p is UNDEF or q is UNDEF:
            E.failure(st, 'init', 'comparison of uninitialised bytes')
            raise PathEnd()
        if type(p) is int and type(q) is int:
            if p != q:
                res = z3.BitVecVal(1 if p > q else -1, 32)
        else:
            P, Q = tobv(p, 8), tobv(q, 8)
            res = z3.If(P == Q, res, z3.If(z3.UGT(P, Q), z3.BitVecVal(1, 32), z3.BitVecVal(-1, 32)))
    return simp(res)

@stub('memchr', '__builtin_memchr')
def m_chr(E, st, fr, ins, args, name):
    n = conc(E, st, ins, args, 2, 'search length')
    c = args[1]
    c = c & 255 if type(c) is int else z3.Extract(7, 0, c)
    res = 0
    bs = bytes_of(E, st, args[0], n) if n else []
    for i in reversed(range(n)):
        b = bs[i]
        if b is UNDEF:
            E.failure(st, 'init', 'search in uninitialised bytes')
            raise PathEnd()
        if type(b) is int and type(c) is int:
            if b == c:
                res = args[0] + i
        else:
            res = z3.If(tobv(b, 8) == tobv(c, 8), z3.BitVecVal(args[0] + i, 64), tobv(res, 64))
    return simp(res) if is_sym(res) else res

@stub('strcmp')
def m_strcmp(E, st, fr, ins, args, name):
    i = 0
    terms = []
    while True:
        p, q = E.load(st, args[0] + i, I8), E.load(st, args[1] + i, I8)
        terms.append((p, q))
        if (type(p) is int and p == 0) or (type(q) is int and q == 0):
            break
        i += 1
    res = z3.BitVecVal(0, 32)
    for p, q in reversed(terms):
        P, Q = tobv(p, 8), tobv(q, 8)
        res = z3.If(P == Q, z3.If(P == 0, z3.BitVecVal(0, 32), res), z3.If(z3.UGT(P, Q), z3.BitVecVal(1, 32), z3.BitVecVal(-1, 32)))
    return simp(res)

@stub('strcpy')
def m_strcpy(E, st, fr, ins, args, name):
    i = 0
    while True:
        b = E.load(st, args[1] + i, I8)
        E.store(st, args[0] + i, I8, b)
        if type(b) is not int:
            raise Giveup('strcpy of symbolic bytes')
        if b == 0:
            return args[0]
        i += 1

@stub('strncpy')
def m_strncpy(E, st, fr, ins, args, name):
    n = conc(E, st, ins, args, 2, 'copy length')
    i = 0
    done = False
    while i < n:
        b = 0 if done else E.load(st, args[1] + i, I8)
        E.store(st, args[0] + i, I8, b)
        if type(b) is not int:
            raise Giveup('strncpy of symbolic bytes')
        if b == 0:
            done = True
        i += 1
    return args[0]

@stub('_Znwm', '_Znam', 'malloc', '_ZnwmSt11align_val_t', '_ZnwmRKSt9nothrow_t')
def m_new(E, st, fr, ins, args, name):
    n = conc(E, st, ins, args, 0, 'allocation size')
    if n > (1 << 31):
        raise Thrown(0, '_ZTISt9bad_alloc')
    return E.alloc(st, n, 'heap(%d bytes)' % n, 'heap')

@stub('_ZdlPv', '_ZdaPv', '_ZdlPvm', '_ZdaPvm', 'free', '_ZdlPvmSt11align_val_t', '_ZdlPvSt11align_val_t', '_ZdlPvRKSt9nothrow_t')
def m_del(E, st, fr, ins, args, name):
    p = args[0]
    if p == 0:
        return
    if type(p) is not int:
        if p is UNDEF:
            E.failure(st, 'init', 'delete of an uninitialised pointer'); raise PathEnd()
        raise Giveup('symbolic delete')
    o = st.mem.get(p >> 32)
    if o is None or o.kind != 'heap' or (p & 0xffffffff) or not o.alive:
        E.failure(st, 'mem', 'delete of a pointer that is not a live heap object')
        raise PathEnd()
    E.ok('mem')
    o = E.wobj(st, p >> 32)
    o.alive = False
    o.cells = {}

# ------------------------------------------------------------------ C++ runtime
@stub('__cxa_allocate_exception')
def x_alloc(E, st, fr, ins, args, name):
    return E.alloc(st, args[0], 'exception', 'heap')

@stub('__cxa_free_exception')
def x_free(E, st, fr, ins, args, name):
    pass

@stub('__cxa_throw')
def x_throw(E, st, fr, ins, args, name):
    raise Thrown(args[0], E.tyname(args[1]))

@stub('__cxa_rethrow')
def x_rethrow(E, st, fr, ins, args, name):
    o, t = st.exc[-1]
    raise Thrown(o, t)

@stub('__cxa_begin_catch')
def x_begin(E, st, fr, ins, args, name):
    st.exc.append(st.inflight)
    return args[0]

@stub('__cxa_end_catch')
def x_end(E, st, fr, ins, args, name):
    if st.exc:
        st.exc.pop()

@stub('__cxa_get_exception_ptr')
def x_get(E, st, fr, ins, args, name):
    return args[0]

@stub('llvm.eh.typeid.for', 'llvm.eh.typeid.for.p0')
def x_tid(E, st, fr, ins, args, name):
    return args[0] >> 32

@stub('_ZSt9terminatev', '__clang_call_terminate', 'abort', 'llvm.trap', '_ZSt10unexpectedv', '__assert_fail', 'exit', '_Exit', '_ZSt21__glibcxx_assert_failPKciS0_S0_', 'llvm.ubsantrap')
def x_term(E, st, fr, ins, args, name):
    E.failure(st, 'abort', 'the program terminates (%s)' % name[1:])
    raise PathEnd()

@stub('__cxa_guard_acquire')
def x_ga(E, st, fr, ins, args, name):
    return 0 if E.load(st, args[0], I8) == 1 else 1

@stub('__cxa_guard_release')
def x_gr(E, st, fr, ins, args, name):
    E.store(st, args[0], I8, 1)

@stub('__cxa_guard_abort', '__cxa_call_unexpected')
def x_gb(E, st, fr, ins, args, name):
    pass

@stub('__cxa_pure_virtual')
def x_pv(E, st, fr, ins, args, name):
    E.failure(st, 'abort', 'pure virtual call')
    raise PathEnd()

THROWERS = {
 '_ZSt20__throw_length_errorPKc': '_ZTISt12length_error', '_ZSt20__throw_out_of_rangePKc': '_ZTISt12out_of_range',
 '_ZSt24__throw_out_of_range_fmtPKcz': '_ZTISt12out_of_range', '_ZSt19__throw_logic_errorPKc': '_ZTISt11logic_error',
 '_ZSt17__throw_bad_allocv': '_ZTISt9bad_alloc', '_ZSt28__throw_bad_array_new_lengthv': '_ZTISt20bad_array_new_length',
 '_ZSt24__throw_invalid_argumentPKc': '_ZTISt16invalid_argument', '_ZSt25__throw_bad_function_callv': '_ZTISt17bad_function_call',
 '_ZSt16__throw_bad_castv': '_ZTISt8bad_cast',
}
for n, t in THROWERS.items():
    def mk(t):
        def f(E, st, fr, ins, args, name):
            o = E.alloc(st, 64, 'exception', 'heap')
            raise Thrown(o, t)
        return f
    S['@' + n] = mk(t)

# standard exception classes: construction/destruction carry only the dynamic type
@prefix('_ZNSt13runtime_errorC', '_ZNSt13runtime_errorD', '_ZNSt11logic_errorC', '_ZNSt11logic_errorD', '_ZNSt12out_of_rangeC', '_ZNSt12out_of_rangeD',
        '_ZNSt12domain_errorC', '_ZNSt12domain_errorD', '_ZNSt16invalid_argumentC', '_ZNSt16invalid_argumentD', '_ZNSt12length_errorC', '_ZNSt12length_errorD', '_ZNSt9exceptionD', '_ZNSt9exceptionC',
        '_ZNSt11range_errorC', '_ZNSt14overflow_errorC')
def x_ctor(E, st, fr, ins, args, name):
    E.externals.add('standard exception constructors (dynamic type only)')

@stub('_ZNKSt13runtime_error4whatEv', '_ZNKSt11logic_error4whatEv', '_ZNKSt9exception4whatEv')
def x_what(E, st, fr, ins, args, name):
    a = E.alloc(st, 1, 'what', 'heap')
    E.store(st, a, I8, 0)
    return a

@stub('__errno_location')
def x_errno(E, st, fr, ins, args, name):
    if 'errno' not in st.ghost:
        a = E.alloc(st, 8, 'errno', 'heap')
        E.store(st, a, ('i', 32), 0)
        st.ghost['errno'] = a
    return st.ghost['errno']

# threads
@stub('pthread_mutex_lock')
def t_lock(E, st, fr, ins, args, name):
    from . import shared
    return shared.lock(E, st, args[0])

@stub('pthread_mutex_unlock')
def t_unlock(E, st, fr, ins, args, name):
    from . import shared
    return shared.unlock(E, st, args[0])

@stub('__gthread_active_p', '_ZL18__gthread_active_pv')
def t_active(E, st, fr, ins, args, name):
    return 1

from . import shared as _sh
_sh.register(S)
