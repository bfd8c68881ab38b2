"""Symbolic executor / verification-condition generator over LLVM IR.

Every contract function vc_* of a contract file is executed on the IR clang
produced from /repo's current headers and sources.  Integers are bit-vectors,
floating point is real arithmetic (exact rational functions over the input
atoms), memory is checked access by access, control forks on undecided
conditions.  Each __v_assert/__v_eq, each memory access and each division is an
obligation; see discharge().
"""
import re, struct, time
from fractions import Fraction
import z3
from . import rat
from .rat import Rat, ZERO, ONE, rconst, radd, rsub, rmul, rdiv, rneg
from .llparse import Module, UNDEF, Unsupported, Special, sgn, I8, PTR, VOID
from . import llparse

M64 = (1 << 64) - 1
DBG = False

class Giveup(Exception):
    """engine cannot decide (resource limit / unsupported construct)"""

class PathEnd(Exception):
    pass

class BitsOf:
    """integer view of the bytes of a symbolic real"""
    __slots__ = ('r', 'bits')
    def __init__(self, r, bits):
        self.r = r
        self.bits = bits

class Packed:
    """integer made of pieces (low to high), some of them the bits of symbolic reals:
    what the ABI makes of a small struct mixing floats and ints"""
    __slots__ = ('parts',)
    def __init__(self, parts):
        self.parts = parts

def pk_parts(v, bits):
    return v.parts if isinstance(v, Packed) else [(bits, v)]

def pk_make(parts):
    out = []
    for b, v in parts:
        if out and type(v) is int and type(out[-1][1]) is int:
            b0, v0 = out[-1]
            out[-1] = (b0 + b, v0 | (v << b0))
        else:
            out.append((b, v))
    return out[0][1] if len(out) == 1 else Packed(out)

def pk_slice(v, bits, lo, n):
    """bits [lo, lo+n) as a part list"""
    out = []
    pos = 0
    for b, x in pk_parts(v, bits):
        a, e = max(pos, lo), min(pos + b, lo + n)
        if a < e:
            if a == pos and e == pos + b:
                out.append((b, x))
            elif type(x) is int:
                out.append((e - a, (x >> (a - pos)) & ((1 << (e - a)) - 1)))
            elif x is UNDEF:
                out.append((e - a, UNDEF))
            elif isinstance(x, z3.BitVecRef):
                out.append((e - a, simp(z3.Extract(e - 1 - pos, a - pos, x))))
            else:
                raise Giveup('part of the bits of a symbolic real')
        pos += b
    return out

def pk_binop(op, a, b, n):
    if op in ('shl', 'lshr') and type(b) is int:
        if b >= n:
            return 0
        if op == 'lshr':
            return pk_make(pk_slice(a, n, b, n - b) + ([(b, 0)] if b else []))
        return pk_make(([(b, 0)] if b else []) + pk_slice(a, n, 0, n - b))
    if op in ('or', 'and', 'add', 'xor'):
        cuts = {0, n}
        for v in (a, b):
            pos = 0
            for w, x in pk_parts(v, n):
                pos += w
                cuts.add(pos)
            if type(v) is int:
                # byte boundaries where the mask changes
                for k in range(8, n, 8):
                    if ((v >> (k - 1)) & 1) != ((v >> k) & 1):
                        cuts.add(k)
        cs = sorted(cuts)
        out = []
        for lo, hi in zip(cs, cs[1:]):
            x = pk_slice(a, n, lo, hi - lo)[0][1]
            y = pk_slice(b, n, lo, hi - lo)[0][1]
            full = (1 << (hi - lo)) - 1
            if type(x) is int:
                x, y = y, x
            if type(y) is int and y == 0:
                r = 0 if op == 'and' else x
            elif type(y) is int and y == full and op == 'and':
                r = x
            elif type(x) is int and type(y) is int:
                if op == 'add':
                    raise Giveup('addition on packed bits')
                r = x | y if op == 'or' else x & y if op == 'and' else x ^ y
            elif op == 'xor' and isinstance(x, BitsOf) and y == 1 << (hi - lo - 1):
                r = BitsOf(rneg(x.r), x.bits)
            elif op != 'add' and not isinstance(x, BitsOf) and not isinstance(y, BitsOf) and x is not UNDEF and y is not UNDEF:
                X, Y = tobv(x, hi - lo), tobv(y, hi - lo)
                r = simp(X | Y if op == 'or' else X & Y if op == 'and' else X ^ Y)
            else:
                raise Giveup('bit operation on a symbolic real')
            out.append((hi - lo, r))
        return pk_make(out)
    raise Giveup('bit operation on a symbolic real')

class Obj:
    __slots__ = ('size', 'cells', 'alive', 'name', 'owner', 'kind', 'fill')
    def __init__(self, size, name, owner, kind):
        self.size = size
        self.cells = {}
        self.alive = True
        self.name = name
        self.owner = owner
        self.kind = kind
        self.fill = None
    def clone(self, owner):
        o = Obj(self.size, self.name, owner, self.kind)
        o.cells = dict(self.cells)
        o.alive = self.alive
        o.fill = self.fill
        return o

class Frame:
    __slots__ = ('f', 'blk', 'ip', 'regs', 'prev', 'allocas', 'dst', 'onret', 'unwind', 'lab')
    def copy(self):
        n = Frame()
        n.f = self.f; n.blk = self.blk; n.ip = self.ip; n.regs = dict(self.regs); n.prev = self.prev
        n.allocas = list(self.allocas); n.dst = self.dst; n.onret = self.onret; n.unwind = self.unwind; n.lab = self.lab
        return n

class State:
    def __init__(self):
        self.frames = []
        self.mem = {}
        self.pc = []
        self.tok = object()
        self.next = 0
        self.exc = []          # caught exception stack
        self.inflight = None
        self.log = []          # shared-memory events
        self.shared = {}       # obj id -> (lo,hi,scheme)
        self.locks = frozenset()
        self.f2i = frozenset()
        self.nfork = 0
        self.inputs = []
        self.ghost = {}
        self.covers = set()
        self.visits = {}
    def fork(self):
        s = State()
        s.frames = [f.copy() for f in self.frames]
        s.mem = dict(self.mem)
        s.pc = list(self.pc)
        s.tok = object()
        self.tok = object()
        s.next = self.next
        s.exc = list(self.exc)
        s.inflight = self.inflight
        s.log = list(self.log)
        s.shared = dict(self.shared)
        s.locks = self.locks
        s.f2i = self.f2i
        s.nfork = self.nfork + 1
        s.inputs = list(self.inputs)
        s.ghost = dict(self.ghost)
        s.visits = dict(self.visits)
        return s

def is_sym(v):
    return isinstance(v, z3.ExprRef)

def tobv(v, bits):
    if isinstance(v, int):
        return z3.BitVecVal(v, bits)
    if isinstance(v, z3.BoolRef):
        return z3.If(v, z3.BitVecVal(1, bits), z3.BitVecVal(0, bits))
    if isinstance(v, z3.BitVecRef):
        return v
    raise Giveup('not an integer: %r' % (v,))

def simp(e):
    e = z3.simplify(e)
    if z3.is_bv_value(e):
        return e.as_long()
    if z3.is_true(e):
        return 1
    if z3.is_false(e):
        return 0
    return e

STD_BASES = {
 '_ZTISt12out_of_range': '_ZTISt11logic_error', '_ZTISt12length_error': '_ZTISt11logic_error',
 '_ZTISt16invalid_argument': '_ZTISt11logic_error', '_ZTISt12domain_error': '_ZTISt11logic_error',
 '_ZTISt11logic_error': '_ZTISt9exception', '_ZTISt13runtime_error': '_ZTISt9exception',
 '_ZTISt11range_error': '_ZTISt13runtime_error', '_ZTISt14overflow_error': '_ZTISt13runtime_error',
 '_ZTISt9bad_alloc': '_ZTISt9exception', '_ZTISt8bad_cast': '_ZTISt9exception',
 '_ZTISt17bad_function_call': '_ZTISt9exception',
 '_ZTISt20bad_array_new_length': '_ZTISt9bad_alloc',
}

class Failure:
    def __init__(self, kind, msg, where, model=None, detail='', inputs=None):
        self.kind = kind; self.msg = msg; self.where = where; self.model = model; self.detail = detail; self.inputs = inputs
    def to_json(self):
        return {'kind': self.kind, 'obligation': self.msg, 'where': self.where, 'model': self.model, 'detail': self.detail}

ALLS = frozenset((-1, 0, 1))
SIGNS = {'lt': frozenset((-1,)), 'le': frozenset((-1, 0)), 'gt': frozenset((1,)), 'ge': frozenset((0, 1)), 'eq': frozenset((0,)), 'ne': frozenset((-1, 1))}

def resign(e):
    """e with z3's expansion of sign extension (concat of copies of the sign bit) folded back"""
    memo = {}
    def go(x):
        k = x.get_id()
        r = memo.get(k)
        if r is not None:
            return r[1]
        if x.num_args() == 0:
            r = x
        else:
            ch = x.children()
            r = None
            if x.decl().kind() == z3.Z3_OP_CONCAT and len(ch) > 2:
                last = ch[-1]
                n = last.size()
                if all(c.decl().kind() == z3.Z3_OP_EXTRACT and c.params() == [n - 1, n - 1] and c.arg(0).eq(last) for c in ch[:-1]):
                    r = z3.SignExt(len(ch) - 1, go(last))
            if r is None:
                nc = [go(c) for c in ch]
                r = x if all(a.eq(b) for a, b in zip(ch, nc)) else x.decl()(*nc)
        memo[k] = (x, r)
        return r
    try:
        return go(e)
    except Exception:
        return e

class Engine:
    def __init__(self, mod, opts=None):
        self.m = mod
        self.opts = dict(max_steps=30_000_000, time=600, solver_ms=8000, branch_ms=2500, maxfail=6, max_paths=200000, tol=1e-9)
        if opts:
            self.opts.update(opts)
        self.fail = []
        self.signinfo = {}
        self.unknown = []
        self.notes = {}
        self.ob = {}           # kind -> count discharged
        self.ob_backend = {}
        self.solver_time = 0.0
        self.steps = 0
        self.paths = 0
        self.funcs_seen = set()
        self.covers = {}
        self.work = []
        self.zatoms = {}
        self.fresh = 0
        self.f2i = {}
        self.def_of = []
        self.zvc = {}
        self.atom_defs = []    # z3 side constraints of atoms
        self.messages = {}
        self.externals = set()
        self.fmemo = {}
        self.replaced = set()
        self.bounded = set()
        self.t0 = time.time()
        self.init_mem = None

    # ------------------------------------------------------------------ atoms
    def new_atom(self, name, kind='in', info=None):
        i = rat.CTX.atom(name, kind, info)
        self.zatoms[i] = z3.Real('%s@%d' % (name, i))
        return i

    def zpoly(self, p):
        if not p:
            return z3.RealVal(0)
        ts = []
        for m, c in p.items():
            c = Fraction(c)
            t = None
            for i, e in rat.mon_vars(m):
                v = self.zatoms[i]
                for _ in range(e):
                    t = v if t is None else t * v
            cv = z3.RealVal('%d/%d' % (c.numerator, c.denominator)) if c.denominator != 1 else z3.RealVal(c.numerator)
            ts.append(cv if t is None else (t if c == 1 else cv * t))
        return z3.Sum(*ts) if len(ts) > 1 else ts[0]

    def sqrt(self, st, a):
        c = a.const()
        if c is not None:
            c = Fraction(c)
            if c < 0:
                return Special(float('nan'))
            import math
            n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
            if n * n == c.numerator and d * d == c.denominator:
                return rconst(Fraction(n, d))
            return rconst(Fraction(math.sqrt(float(c))))
        k = ONE
        if not a.d:
            c = rat.content(a.n)
            sq, r = rat.isq(c.numerator * c.denominator)
            k = rconst(Fraction(sq, c.denominator))
            n0 = rat.pscale(a.n, Fraction(r) / c)
            a = Rat(n0)
        key = ('sqrt', a.key())
        memo = rat.CTX.memo
        if key in memo:
            return rmul(k, memo[key])
        i = self.new_atom('sqrt', 'sqrt', a)
        s = self.zatoms[i]
        zn = self.zpoly(a.n)
        if a.d:
            zd = self.zden(a.d)
            self.add_def(i, s * s * zd == zn)
        else:
            self.add_def(i, s * s == zn)
            rat.CTX.sqrt_rules[i] = a.n
        self.add_def(i, s >= 0)
        r = rat.ratom(i)
        memo[key] = r
        return rmul(k, r)

    def add_def(self, i, c):
        """defining fact of atom i"""
        self.atom_defs.append(c)
        self.def_of.append((self.zatoms[i].get_id(), c))

    def zvars(self, e):
        """ids of the free constants of e (cached)"""
        r = self.zvc.get(e.get_id())
        if r is not None:
            return r[1]
        out = set()
        seen = set()
        todo = [e]
        while todo:
            x = todo.pop()
            k = x.get_id()
            if k in seen:
                continue
            seen.add(k)
            if x.num_args() == 0:
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    out.add(k)
            else:
                todo.extend(x.children())
        out = frozenset(out)
        self.zvc[e.get_id()] = (e, out)
        return out

    def defs_for(self, cs):
        if not self.atom_defs:
            return []
        need = set()
        for c in cs:
            if isinstance(c, z3.ExprRef):
                need |= self.zvars(c)
        out = []
        rest = list(self.def_of)
        while True:
            nx = []
            hit = False
            for i, c in rest:
                if i in need:
                    out.append(c)
                    need |= self.zvars(c)
                    hit = True
                else:
                    nx.append((i, c))
            rest = nx
            if not hit:
                return out

    def perfect_square(self, a):
        return None

    def zden(self, d):
        t = None
        for f, e in d:
            z = self.zpoly(rat.DENL[f])
            for _ in range(e):
                t = z if t is None else t * z
        return z3.RealVal(1) if t is None else t

    def fn_atom(self, name, *args):
        key = (name,) + tuple(a.key() for a in args)
        memo = rat.CTX.memo
        if key not in memo:
            memo[key] = rat.ratom(self.new_atom(name, 'fn', (name, args)))
        return memo[key]

    def zrat(self, a):
        z = self.zpoly(a.n)
        if a.d:
            z = z / self.zden(a.d)
        return z

    def cmp0(self, a, op):
        """z3 / concrete truth of  a op 0"""
        c = a.const()
        if c is not None:
            return {'lt': c < 0, 'le': c <= 0, 'gt': c > 0, 'ge': c >= 0, 'eq': c == 0, 'ne': c != 0}[op]
        i, k = rat.intern_den(a.n)
        if op in ('eq', 'ne'):
            z = self.zpoly(a.n)
            r = z == 0 if op == 'eq' else z != 0
            self.signinfo[r.get_id()] = (r, (i,), SIGNS[op])
            return r
        z = self.zpoly(a.n)
        fs = [i]
        for f, e in a.d:
            if e % 2:
                z = z * self.zpoly(rat.DENL[f])
                fs.append(f)
        r = {'lt': z < 0, 'le': z <= 0, 'gt': z > 0, 'ge': z >= 0}[op]
        sg = SIGNS[op]
        if k < 0:
            sg = frozenset(-x for x in sg)
        self.signinfo[r.get_id()] = (r, tuple(sorted(fs)), sg)
        return r

    def sinfo(self, c):
        neg = False
        while z3.is_not(c):
            c = c.arg(0)
            neg = not neg
        t = self.signinfo.get(c.get_id())
        if t is None:
            return None
        return t[1], (ALLS - t[2] if neg else t[2])

    def known_signs(self, st, key):
        ks = ALLS
        fac = {f: ALLS for f in key}
        for c in st.pc:
            t = self.sinfo(c)
            if t is None:
                continue
            if t[0] == key:
                ks = ks & t[1]
            if len(t[0]) == 1 and t[0][0] in fac:
                fac[t[0][0]] = fac[t[0][0]] & t[1]
        prod = frozenset((1,))
        for f in key:
            prod = frozenset(x * y for x in prod for y in fac[f])
        return ks & prod

    # ------------------------------------------------------------------ solver
    def check(self, cs, ms):
        s = z3.Solver()
        s.set('timeout', ms)
        defs = self.defs_for(cs)
        for c in defs:
            s.add(c)
        for c in cs:
            s.add(c)
        t = time.time()
        r = s.check()
        self.solver_time += time.time() - t
        if r == z3.unknown:
            t = time.time()
            try:
                s2 = z3.Tactic('qfnra-nlsat').solver()
                s2.set('timeout', ms)
                for c in defs:
                    s2.add(c)
                for c in cs:
                    s2.add(c)
                r = s2.check()
                s = s2
            except z3.Z3Exception:
                r = z3.unknown
            self.solver_time += time.time() - t
        if r == z3.sat:
            return 'sat', s.model()
        if r == z3.unsat:
            return 'unsat', None
        return 'unknown', None

    def feasible(self, st, c):
        if c is True:
            return True
        if c is False:
            return False
        t = self.sinfo(c)
        if t is not None:
            k = self.known_signs(st, t[0])
            if not (k & t[1]):
                return False
            if k <= t[1]:
                return True
        if self.has_div(c) and self.cvc5_check(st.pc + [c], self.opts['branch_ms'], True) == 'unsat':
            return False
        r, _ = self.check(st.pc + [c], self.opts['branch_ms'])
        if r == 'unknown':
            r = self.cvc5_check(st.pc + [c], self.opts['branch_ms'], True)
        return r != 'unsat'

    def relevant(self, pc, c):
        return True

    def model_inputs(self, st, model):
        out = []
        for kind, name, sym, meta in st.inputs:
            v = None
            if kind == 'choose':
                v = sym
            elif model is not None:
                try:
                    if kind == 'real':
                        z = model.eval(self.zatoms[sym], model_completion=True)
                        if z3.is_algebraic_value(z):
                            z = z.approx(30)
                        v = '%d/%d' % (z.numerator_as_long(), z.denominator_as_long())
                    else:
                        z = model.eval(sym, model_completion=True)
                        if z3.is_true(z):
                            v = 1
                        elif z3.is_false(z):
                            v = 0
                        elif kind.startswith('range'):
                            v = z.as_signed_long()
                        else:
                            v = z.as_long()
                except Exception:
                    v = None
            out.append([kind, name, v])
        return out

    def ok(self, kind, backend='eval'):
        self.ob[kind] = self.ob.get(kind, 0) + 1
        self.ob_backend[backend] = self.ob_backend.get(backend, 0) + 1

    def failure(self, st, kind, msg, model=None, detail=''):
        w = self.where(st)
        if model is None:
            r, mm = self.check(st.pc, self.opts['solver_ms'])
            if r == 'unsat':
                self.ok(kind, 'z3')
                return
            if r == 'unknown':
                r = self.cvc5_check(st.pc)
                if r == 'unsat':
                    self.ok(kind, 'cvc5')
                    return
                if r != 'sat':
                    # the path itself could not be shown feasible: no alarm from it, the contract is left undecided
                    self.unknown.append(Failure(kind, msg, w, None, 'solver could not decide whether the path is feasible. ' + detail))
                    return
            model = mm
        self.fail.append(Failure(kind, msg, w, self.model_inputs(st, model), detail))
        if len(self.fail) >= self.opts['maxfail']:
            raise StopIteration()

    def prove(self, st, cond, kind, msg, detail=''):
        """cond: python bool / int / z3 Bool"""
        if cond is True or (not is_sym(cond) and cond is not UNDEF and cond == 1):
            self.ok(kind)
            return True
        if cond is UNDEF:
            self.failure(st, kind, msg + ' (value is uninitialised)', None, detail)
            return False
        if cond is False or (isinstance(cond, int) and cond == 0):
            self.failure(st, kind, msg, None, detail)
            return False
        t = self.sinfo(cond)
        if t is not None and self.known_signs(st, t[0]) <= t[1]:
            self.ok(kind, 'path condition')
            return True
        if self.has_div(cond) and self.cvc5_check(st.pc + [z3.Not(cond)], None, True) == 'unsat':
            self.ok(kind, 'cvc5')
            return True
        r, model = self.check(st.pc + [z3.Not(cond)], self.opts['solver_ms'])
        if r == 'unsat':
            self.ok(kind, 'z3')
            return True
        if r == 'unknown':
            r2 = self.cvc5_check(st.pc + [z3.Not(cond)])
            if r2 == 'unsat':
                self.ok(kind, 'cvc5')
                return True
            self.unknown.append(Failure(kind, msg, self.where(st), None, 'solver gave no answer. ' + detail))
            return False
        self.failure(st, kind, msg, model, detail)
        return False

    DIVS = frozenset((z3.Z3_OP_BSDIV, z3.Z3_OP_BUDIV, z3.Z3_OP_BSREM, z3.Z3_OP_BUREM, z3.Z3_OP_BSDIV_I, z3.Z3_OP_BUDIV_I, z3.Z3_OP_BSREM_I, z3.Z3_OP_BUREM_I))
    def has_div(self, e):
        """a wide bit-vector division occurs in e"""
        seen = set()
        todo = [e]
        while todo:
            x = todo.pop()
            k = x.get_id()
            if k in seen:
                continue
            seen.add(k)
            if len(seen) > 400:
                return False
            if x.num_args() and x.decl().kind() in self.DIVS and x.size() >= 32:
                return True
            todo.extend(x.children())
        return False

    def cvc5_check(self, cs, ms=None, intonly=False):
        try:
            import subprocess, tempfile, os
            s = z3.Solver()
            for c in self.defs_for(cs):
                s.add(c)
            for c in cs:
                s.add(resign(c) if intonly and is_sym(c) else c)
            txt = '(set-logic ALL)\n' + s.sexpr() + '\n(check-sat)\n'
            txt = re.sub(r'\b(bv[us](?:div|rem|mod))_i\b', r'\1', txt)   # z3's internal names (divisor known non-zero)
            ms = ms or self.opts['solver_ms']
            t = time.time()
            r = ''
            # bit-vectors as integers first (decides division chains), then bit-blasting / reals
            for o in (['--solve-bv-as-int=sum'] if 'bv' in txt else []) + ([] if intonly else [None]):
                x = subprocess.run(['cvc5', '--tlimit=%d' % ms, '--lang=smt2'] + ([o] if o else []) + ['-'], input=txt, capture_output=True, text=True, timeout=ms / 1000 + 10)
                r = x.stdout.strip().split('\n')[0]
                if r == 'unsat' or (r == 'sat' and not o):
                    break
                r = 'unknown'
            self.solver_time += time.time() - t
            return r
        except Exception as e:
            return 'unknown'

    def prove_eq(self, st, a, b, msg):
        if a is UNDEF or b is UNDEF:
            self.failure(st, 'eq', msg + ' (value is uninitialised)')
            return
        if isinstance(a, Special) or isinstance(b, Special):
            if isinstance(a, Special) and isinstance(b, Special) and repr(a.x) == repr(b.x):
                self.ok('eq')
            else:
                self.failure(st, 'eq', msg + ' (%r vs %r)' % (a, b))
            return
        d = rsub(a, b)
        if d.is_zero():
            self.ok('eq', 'polynomial-identity')
            return
        # coefficients produced by rounded literals
        if self.tiny(d, a, b):
            self.ok('eq', 'polynomial-identity(literal rounding)')
            return
        c = d.const()
        detail = 'difference = ' + rat.show(d)[:600]
        if c is not None:
            self.failure(st, 'eq', msg, None, detail)
            return
        # under path conditions
        i, _ = rat.intern_den(d.n)
        if self.known_signs(st, (i,)) <= frozenset((0,)):
            self.ok('eq', 'path condition')
            return
        z = self.zpoly(d.n) == 0
        if st.pc or self.atom_defs:
            r, model = self.check(st.pc + [z3.Not(z)], self.opts['solver_ms'])
            if r == 'unsat':
                self.ok('eq', 'z3')
                return
            if r == 'unknown':
                if self.cvc5_check(st.pc + [z3.Not(z)]) == 'unsat':
                    self.ok('eq', 'cvc5')
                    return
                self.unknown.append(Failure('eq', msg, self.where(st), None, 'solver gave no answer; ' + detail))
                return
            self.failure(st, 'eq', msg, model, detail)
        else:
            r, model = self.check([z3.Not(z)], self.opts['solver_ms'])
            self.failure(st, 'eq', msg, model, detail)

    def tiny(self, d, a, b):
        if not d.n:
            return True
        mx = max(abs(c) for c in d.n.values())
        if d.d:
            # compare with the numerators over the common denominator
            na = rat._bring(a.n, a.d, d.d) if set(dict(a.d)) <= set(dict(d.d)) else a.n
            nb = rat._bring(b.n, b.d, d.d) if set(dict(b.d)) <= set(dict(d.d)) else b.n
        else:
            na, nb = a.n, b.n
        sc = max([abs(c) for c in na.values()] + [abs(c) for c in nb.values()] + [Fraction(1, 10**6)])
        return float(mx) <= self.opts['tol'] * float(sc)

    # ------------------------------------------------------------------ memory
    def alloc(self, st, size, name, kind):
        i = st.next
        st.next += 1
        st.mem[i] = Obj(size, name, st.tok, kind)
        return i << 32

    def wobj(self, st, oid):
        o = st.mem[oid]
        if o.owner is not st.tok:
            o = o.clone(st.tok)
            st.mem[oid] = o
        return o

    def obj(self, st, addr, size, what):
        oid = addr >> 32
        off = addr & 0xffffffff
        o = st.mem.get(oid)
        if o is None:
            o = self.lazy_global(st, oid)
            if o is None:
                if oid in self.m.func_by_id:
                    self.failure(st, 'mem', '%s of %d bytes through a function pointer' % (what, size))
                else:
                    self.failure(st, 'mem', '%s of %d bytes through a null or wild pointer 0x%x' % (what, size, addr))
                raise PathEnd()
        if not o.alive:
            self.failure(st, 'mem', '%s of %d bytes in dead object %s' % (what, size, o.name))
            raise PathEnd()
        if off + size > o.size:
            self.failure(st, 'mem', '%s of %d bytes at offset %d of %s (size %d): out of bounds' % (what, size, off if off < 2**31 else off - 2**32, o.name, o.size))
            raise PathEnd()
        return oid, off, o

    def lazy_global(self, st, oid):
        g = self.m.glob_by_id.get(oid)
        if g is None:
            return None
        ty, toks, const = self.m.globals[g]
        init = self.m.ginit(g)
        if init is None:
            sz = max(self.m.size(ty), 4096)
            o = Obj(sz, g, st.tok, 'extern')
            o.fill = 0
            if g.lstrip('@').startswith('_ZTI'):        # type_info of a fundamental type: its mangled name
                o.cells[8] = (8, (oid << 32) + 64)
                for j, ch in enumerate(g.lstrip('@')[4:].encode()):
                    o.cells[64 + j] = (1, ch)
        else:
            o = Obj(self.m.size(ty), g, st.tok, 'global')
            for off, t, v in init:
                o.cells[off] = (self.m.size(t), v)
            o.fill = 0
        st.mem[oid] = o
        return o

    def load(self, st, addr, ty):
        k = ty[0]
        if k in ('s', 'a', 'v'):
            if k == 's':
                offs = self.m.offsets(ty)
                return [self.load(st, addr + o, t) for o, t in zip(offs, ty[1])]
            es = self.m.size(ty[2])
            return [self.load(st, addr + j * es, ty[2]) for j in range(ty[1])]
        size = (ty[1] + 7) // 8 if k == 'i' else self.m.size(ty)
        oid, off, o = self.obj(st, addr, size, 'read')
        self.ob['mem'] = self.ob.get('mem', 0) + 1
        c = o.cells.get(off)
        if c is not None and c[0] == size:
            return self.conv(c[1], ty, size)
        return self.load_slow(o, off, size, ty)

    def conv(self, v, ty, size):
        k = ty[0]
        if v is UNDEF:
            return v
        if k == 'f':
            if isinstance(v, (Rat, Special)):
                return v
            if isinstance(v, BitsOf):
                return v.r
            if isinstance(v, int):
                return self.bits2f(v, ty)
            if isinstance(v, Packed):
                raise Giveup('packed bits read as floating point')
            raise Giveup('symbolic integer bits read as floating point')
        if isinstance(v, Rat):
            c = v.const()
            bits = size * 8
            if c is not None:
                return self.f2bits(Fraction(c), bits)
            return BitsOf(v, bits)
        if isinstance(v, Special):
            return struct.unpack('<Q', struct.pack('<d', v.x))[0] if size == 8 else UNDEF
        if k == 'i' and ty[1] == 1:
            if isinstance(v, int):
                return v & 1
            if isinstance(v, z3.BitVecRef):
                return simp(z3.Extract(0, 0, v) == 1)
        if isinstance(v, (BitsOf, Packed)):
            return v
        if k == 'i' and ty[1] < size * 8 and isinstance(v, int):
            return v & ((1 << ty[1]) - 1)
        return v

    def f2bits(self, c, bits):
        try:
            if bits == 64:
                return struct.unpack('<Q', struct.pack('<d', float(c)))[0]
            if bits == 32:
                return struct.unpack('<I', struct.pack('<f', float(c)))[0]
        except OverflowError:
            pass
        raise Giveup('float bits %d' % bits)

    def bits2f(self, v, ty):
        if v == 0:
            return ZERO
        if ty[1] == 64:
            x = struct.unpack('<d', struct.pack('<Q', v))[0]
        elif ty[1] == 32:
            x = struct.unpack('<f', struct.pack('<I', v))[0]
        else:
            raise Giveup('fp80 bits')
        s = rat.snapf(x) if ty[1] == 32 else rat.snap(x)
        return rconst(s) if s is not None else Special(x)

    def byte_at(self, o, pos):
        """byte value at pos: int | z3 BV8 | UNDEF | ('part',v,size,j)"""
        c = o.cells.get(pos)
        if c is not None and c[0] == 1:
            return c[1]
        for back in range(0, 16):
            q = pos - back
            if q < 0:
                break
            c = o.cells.get(q)
            if c is not None:
                if q + c[0] > pos:
                    v = c[1]
                    j = pos - q
                    if v is UNDEF:
                        return UNDEF
                    if isinstance(v, Rat):
                        cc = v.const()
                        if cc is None:
                            return ('part', v, c[0], j)
                        v = self.f2bits(Fraction(cc), c[0] * 8)
                    if isinstance(v, Special):
                        v = struct.unpack('<Q', struct.pack('<d', v.x))[0]
                    if isinstance(v, BitsOf):
                        return ('part', v.r, c[0], j)
                    if isinstance(v, int):
                        return (v >> (8 * j)) & 255
                    if isinstance(v, z3.BoolRef):
                        v = tobv(v, c[0] * 8)
                    return simp(z3.Extract(8 * j + 7, 8 * j, v))
                break
        if o.fill is not None:
            return o.fill
        return UNDEF

    def load_slow(self, o, off, size, ty):
        bs = [self.byte_at(o, off + j) for j in range(size)]
        if ty[0] == 'f' and ty[1] == 80:
            bs = bs[:10]
        if any(b is UNDEF for b in bs) and not (ty[0] == 'i' and any(isinstance(b, tuple) for b in bs)):
            return UNDEF
        if any(isinstance(b, tuple) for b in bs):
            b0 = bs[0]
            if isinstance(b0, tuple) and all(isinstance(b, tuple) and b[1] is b0[1] and b[3] == j for j, b in enumerate(bs)):
                return self.conv(b0[1], ty, size)
            if ty[0] == 'i':
                parts = []
                j = 0
                while j < size:
                    b = bs[j]
                    if isinstance(b, tuple):
                        if b[3] != 0 or j + b[2] > size or any(not isinstance(bs[j + q], tuple) or bs[j + q][1] is not b[1] or bs[j + q][3] != q for q in range(b[2])):
                            raise Giveup('partial read of a symbolic real')
                        parts.append((b[2] * 8, BitsOf(b[1], b[2] * 8)))
                        j += b[2]
                    else:
                        k = j
                        while k < size and not isinstance(bs[k], tuple):
                            k += 1
                        seg = bs[j:k]
                        if any(x is UNDEF for x in seg):
                            sv = UNDEF
                        elif all(type(x) is int for x in seg):
                            sv = sum(x << (8 * q) for q, x in enumerate(seg))
                        else:
                            sv = simp(z3.Concat(*[tobv(x, 8) for x in reversed(seg)])) if len(seg) > 1 else seg[0]
                        parts.append(((k - j) * 8, sv))
                        j = k
                return pk_make(parts)
            raise Giveup('partial read of a symbolic real')
        if all(isinstance(b, int) for b in bs):
            v = 0
            for j, b in enumerate(bs):
                v |= b << (8 * j)
            return self.conv(v, ty, size)
        parts = [tobv(b, 8) for b in reversed(bs)]
        v = simp(z3.Concat(*parts) if len(parts) > 1 else parts[0])
        return self.conv(v, ty, size)

    def store(self, st, addr, ty, v):
        k = ty[0]
        if k in ('s', 'a', 'v'):
            if v is UNDEF:
                v = self.m.undef(ty)
            if k == 's':
                for o, t, e in zip(self.m.offsets(ty), ty[1], v):
                    self.store(st, addr + o, t, e)
            else:
                es = self.m.size(ty[2])
                for j in range(ty[1]):
                    self.store(st, addr + j * es, ty[2], v[j])
            return
        size = (ty[1] + 7) // 8 if k == 'i' else self.m.size(ty)
        if type(v) is Packed:
            pos = 0
            for b, x in v.parts:
                if b % 8:
                    raise Giveup('packed bits not byte aligned')
                self.store(st, addr + pos, ('i', b), x)
                pos += b // 8
            return
        oid, off, o = self.obj(st, addr, size, 'write')
        if o.kind == 'const':
            self.failure(st, 'mem', 'write to read-only %s' % o.name)
            raise PathEnd()
        self.ob['mem'] = self.ob.get('mem', 0) + 1
        o = self.wobj(st, oid)
        if isinstance(v, z3.BoolRef):
            v = tobv(v, size * 8)
        elif isinstance(v, z3.BitVecRef) and v.size() < size * 8:
            v = z3.ZeroExt(size * 8 - v.size(), v)
        self.put(o, off, size, v)

    def put(self, o, off, size, v):
        cells = o.cells
        c = cells.get(off)
        if c is not None and c[0] == size:
            cells[off] = (size, v)
            return
        self.clear(o, off, size)
        cells[off] = (size, v)

    def clear(self, o, off, size):
        """remove/split the cells overlapping [off,off+size)"""
        cells = o.cells
        if len(cells) > 64 and size <= 64:
            cand = [q for q in range(max(0, off - 15), off + size) if q in cells]
        else:
            cand = [q for q in cells if q < off + size and q + cells[q][0] > off]
        for q in cand:
            s, v = cells[q]
            if not (q < off + size and q + s > off):
                continue
            if q >= off and q + s <= off + size:
                del cells[q]
                continue
            keep = []
            for j in range(s):
                p = q + j
                if p < off or p >= off + size:
                    keep.append((p, self.byte_at(o, p)))
            del cells[q]
            for p, b in keep:
                if isinstance(b, tuple):
                    b = UNDEF
                cells[p] = (1, b)
        if o.fill is not None and o.kind != 'global':
            pass

    def memcpy(self, st, d, s, n):
        if st.shared:
            from . import shared
            shared.access(self, st, s, n, 'read')
            shared.access(self, st, d, n, 'write')
        self.memcpy_raw(st, d, s, n)

    def memcpy_raw(self, st, d, s, n):
        if n == 0:
            return
        soid, soff, so = self.obj(st, s, n, 'read')
        doid, doff, do = self.obj(st, d, n, 'write')
        self.ob['mem'] = self.ob.get('mem', 0) + 2
        moved = []
        sc = so.cells
        pos = soff
        end = soff + n
        while pos < end:
            c = sc.get(pos)
            if c is not None and pos + c[0] <= end:
                moved.append((pos - soff, c[0], c[1]))
                pos += c[0]
            else:
                b = self.byte_at(so, pos)
                if isinstance(b, tuple):
                    raise Giveup('memcpy splits a symbolic real')
                moved.append((pos - soff, 1, b))
                pos += 1
        do = self.wobj(st, doid)
        self.clear(do, doff, n)
        for o, sz, v in moved:
            do.cells[doff + o] = (sz, v)

    def memset(self, st, d, b, n):
        if n == 0:
            return
        oid, off, o = self.obj(st, d, n, 'write')
        self.ob['mem'] = self.ob.get('mem', 0) + 1
        o = self.wobj(st, oid)
        self.clear(o, off, n)
        if isinstance(b, int):
            b &= 255
        j = 0
        while j < n:
            if isinstance(b, int) and n - j >= 8 and (off + j) % 8 == 0:
                v = int.from_bytes(bytes([b]) * 8, 'little')
                o.cells[off + j] = (8, v)
                j += 8
            elif isinstance(b, int) and n - j >= 4 and (off + j) % 4 == 0 and (n - j) % 8 == 4:
                o.cells[off + j] = (4, int.from_bytes(bytes([b]) * 4, 'little'))
                j += 4
            else:
                o.cells[off + j] = (1, b)
                j += 1

    def cstr(self, st, addr):
        r = self.messages.get(addr)
        if r is not None:
            return r
        out = []
        while True:
            b = self.load(st, addr + len(out), I8)
            if not isinstance(b, int):
                out.append(ord('?'))
                if len(out) > 200:
                    break
                continue
            if b == 0:
                break
            out.append(b)
        r = bytes(out).decode('latin1')
        if (addr >> 32) in self.m.glob_by_id:
            self.messages[addr] = r
        return r

    # ------------------------------------------------------------------ debug locations
    def where(self, st):
        out = []
        for fr in reversed(st.frames):
            ins = None
            try:
                ins = fr.blk[max(0, fr.ip - 1)]
            except Exception:
                pass
            loc = None
            if ins is not None and ins[-1] is not None:
                loc = self.loc(ins[-1])
            out.append(loc or self.dem(fr.f.name))
            if len(out) >= 6:
                break
        for l in out:
            if isinstance(l, str) and '/repo/' in l:
                return l
        return out[0] if out else '?'

    def dem(self, n):
        return n

    def loc(self, d, depth=0):
        s = self.m.meta.get(d)
        if not s:
            return None
        m = re.match(r'!DILocation\(line: (\d+)(?:, column: \d+)?, scope: !(\d+)', s)
        if not m:
            return None
        f = self.scope_file(int(m.group(2)))
        return '%s:%s' % (f, m.group(1))

    def scope_file(self, d):
        for _ in range(40):
            s = self.m.meta.get(d, '')
            m = re.search(r'file: !(\d+)', s)
            if m:
                fs = self.m.meta.get(int(m.group(1)), '')
                mm = re.search(r'filename: "([^"]*)", directory: "([^"]*)"', fs)
                if mm:
                    fn = mm.group(1)
                    return fn if fn.startswith('/') else mm.group(2) + '/' + fn
            m = re.search(r'scope: !(\d+)', s)
            if not m:
                break
            d = int(m.group(1))
        return '?'

    # ------------------------------------------------------------------ forking
    def fork_bool(self, st, cond):
        """returns concrete truth for st, pushing the other branch if feasible.
        The instruction is re-executed in the other state through st.ghost choice."""
        raise NotImplementedError

    def branch(self, st, c):
        """c: z3 bool. returns list of feasible truth values"""
        ft = self.feasible(st, c)
        if not ft:
            return [0]
        ff = self.feasible(st, z3.Not(c))
        if not ff:
            return [1]
        return [1, 0]

    def concretize_bool(self, st, reg, c):
        """operand register reg holds symbolic bool c at the current instruction"""
        vs = self.branch(st, c)
        fr = st.frames[-1]
        if len(vs) == 2:
            o = st.fork()
            o.pc.append(z3.Not(c))
            ofr = o.frames[-1]
            ofr.ip -= 1
            if reg is not None:
                ofr.regs[reg] = 0
            self.push(o)
            st.pc.append(c)
            fr.regs[reg] = 1
            return 1
        fr.regs[reg] = vs[0]
        if self.opts.get('keep_implied'):
            st.pc.append(c if vs[0] else z3.Not(c))
        return vs[0]

    def concretize_int(self, st, reg, v, why, limit=300):
        """fork over all feasible values of symbolic integer v held in register reg"""
        vals = []
        s = z3.Solver()
        s.set('timeout', self.opts['solver_ms'])
        for c in self.defs_for(st.pc + [v]):
            s.add(c)
        for c in st.pc:
            s.add(c)
        t = time.time()
        while True:
            r = s.check()
            if r == z3.unknown:
                raise Giveup('cannot enumerate values: ' + why)
            if r == z3.unsat:
                break
            x = s.model().eval(v, model_completion=True).as_long()
            vals.append(x)
            if len(vals) > limit:
                raise Giveup('too many values: ' + why)
            s.add(v != x)
        self.solver_time += time.time() - t
        if not vals:
            raise PathEnd()
        fr = st.frames[-1]
        vals.sort()
        for x in vals[1:]:
            o = st.fork()
            o.pc.append(v == x)
            ofr = o.frames[-1]
            ofr.ip -= 1
            ofr.regs[reg] = x
            self.push(o)
        st.pc.append(v == vals[0])
        fr.regs[reg] = vals[0]
        return vals[0]

    def check_sym_access(self, st, a, size, what):
        """a symbolic address: obligation that it stays inside the object of one of its values"""
        r, model = self.check(st.pc, self.opts['solver_ms'])
        if r != 'sat':
            if r == 'unsat':
                raise PathEnd()
            raise Giveup('symbolic address')
        x = model.eval(a, model_completion=True).as_long()
        oid = x >> 32
        o = st.mem.get(oid) or self.lazy_global(st, oid)
        if o is None:
            return
        base = oid << 32
        inb = z3.And(z3.UGE(a, base), z3.ULE(a, base + o.size - size))
        r, model = self.check(st.pc + [z3.Not(inb)], self.opts['solver_ms'])
        if r == 'unsat':
            self.ok('mem', 'z3')
            return
        if r == 'sat':
            # might point into another valid object
            y = model.eval(a, model_completion=True).as_long()
            o2 = st.mem.get(y >> 32)
            if o2 is not None and o2.alive and (y & 0xffffffff) + size <= o2.size:
                return
            self.failure(st, 'mem', '%s of %d bytes out of the bounds of %s (size %d) for some index' % (what, size, o.name, o.size), model)
            st.pc.append(inb)
        else:
            raise Giveup('symbolic address bounds')

    def push(self, st):
        self.work.append(st)

    # ------------------------------------------------------------------ run
    def start(self, fname):
        """set up initial state: run global constructors, then call fname"""
        st = State()
        st.next = self.m.next_id
        self.fname = fname
        ctors = []
        if '@llvm.global_ctors' in self.m.globals:
            ty, toks, _ = self.m.globals['@llvm.global_ctors']
            p = llparse.P(self.m, toks)
            for e in p.const(ty):
                ctors.append((e[0], self.m.func_by_id[e[1] >> 32]))
        st.pending = None
        for _, f in sorted(ctors, key=lambda t: t[0]):
            self.call_function(st, f, [], None)
            self.run_single(st)
        f = self.m.funcs[fname]
        self.ob = {}
        self.ob_backend = {}
        self.call_function(st, f, [], None)
        self.push(st)

    def run_single(self, st):
        """run a deterministic prefix (constructors)"""
        while st.frames:
            self.step_block(st)

    def run(self, fname):
        try:
            self.start(fname)
        except PathEnd:
            return
        except StopIteration:
            return
        while self.work:
            st = self.work.pop()
            try:
                while st.frames:
                    self.step_block(st)
                self.paths += 1
                self.end_path(st)
            except PathEnd:
                self.paths += 1
            except StopIteration:
                return
            if self.paths > self.opts['max_paths']:
                raise Giveup('too many paths')

    def end_path(self, st):
        for c in st.covers:
            self.covers[c] = self.covers.get(c, 0) + 1
        self.covers['<end>'] = self.covers.get('<end>', 0) + 1

    def call_function(self, st, f, args, dst, unwind=None):
        blocks = self.m.decode(f)
        fr = Frame()
        fr.f = f
        fr.lab = f.entry
        fr.blk = blocks[f.entry]
        fr.ip = 0
        fr.regs = dict(zip(f.params, args))
        fr.prev = None
        fr.allocas = []
        fr.dst = dst
        fr.onret = None
        fr.unwind = unwind
        st.frames.append(fr)
        self.funcs_seen.add(f.name)
        if len(st.frames) > 3000:
            raise Giveup('recursion too deep')

    def jump(self, st, fr, lab):
        fr.prev = fr.lab
        fr.lab = lab
        blk = self.m.decode(fr.f)[lab]
        fr.blk = blk
        ip = 0
        if blk[0][0] == 'phi':
            regs = fr.regs
            new = []
            prev = fr.prev
            while blk[ip][0] == 'phi':
                ins = blk[ip]
                v = ins[3][prev]
                new.append((ins[1], regs[v] if type(v) is str else v))
                ip += 1
            for k, v in new:
                regs[k] = v
        fr.ip = ip

    def step_block(self, st):
        """execute until control leaves the current straight-line run"""
        fr = st.frames[-1]
        regs = fr.regs
        blk = fr.blk
        m = self.m
        while True:
            ins = blk[fr.ip]
            fr.ip += 1
            self.steps += 1
            op = ins[0]
            if self.steps & 4095 == 0:
                if self.steps > self.opts['max_steps']:
                    raise Giveup('step limit')
                if time.time() - self.t0 > self.opts['time']:
                    raise Giveup('time limit')
            if op == 'load':
                a = ins[3]
                if type(a) is str:
                    a = regs[a]
                if type(a) is not int:
                    a = self.sym_addr(st, ins[3], a, m.size(ins[2]), 'read')
                if st.shared and self.is_shared(st, a):
                    regs[ins[1]] = self.shared_load(st, a, ins[2], ins[4])
                else:
                    regs[ins[1]] = self.load(st, a, ins[2])
            elif op == 'store':
                a = ins[4]
                if type(a) is str:
                    a = regs[a]
                if type(a) is not int:
                    a = self.sym_addr(st, ins[4], a, m.size(ins[2]), 'write')
                v = ins[3]
                if type(v) is str:
                    v = regs[v]
                if st.shared and self.is_shared(st, a):
                    self.shared_store(st, a, ins[2], v, ins[5], ins[6])
                else:
                    self.store(st, a, ins[2], v)
            elif op == 'gep':
                b = ins[2]
                if type(b) is str:
                    b = regs[b]
                off = ins[3]
                symb = None
                for v, bits, stride in ins[4]:
                    x = regs[v]
                    if type(x) is int:
                        off += (x - (1 << bits) if x >> (bits - 1) else x) * stride
                    else:
                        if x is UNDEF:
                            symb = UNDEF
                            break
                        x = tobv(x, bits)
                        if bits < 64:
                            x = z3.SignExt(64 - bits, x)
                        t = x * stride
                        symb = t if symb is None else symb + t
                if symb is None and type(b) is int:
                    regs[ins[1]] = (b + off) & M64
                elif symb is UNDEF or b is UNDEF:
                    regs[ins[1]] = UNDEF
                else:
                    e = tobv(b, 64) + z3.BitVecVal(off & M64, 64)
                    if symb is not None:
                        e = e + symb
                    regs[ins[1]] = simp(e)
            elif op == 'br':
                self.jump(st, fr, ins[2])
                blk = fr.blk
            elif op == 'cbr':
                c = ins[2]
                if type(c) is str:
                    c = regs[c]
                if type(c) is int:
                    pass
                elif c is UNDEF:
                    self.failure(st, 'init', 'a branch depends on an uninitialised value')
                    raise PathEnd()
                else:
                    c = self.loop_guard(st, fr, ins, c)
                self.jump(st, fr, ins[3] if c else ins[4])
                blk = fr.blk
            elif op == 'call':
                r = self.do_call(st, fr, ins, None)
                if r:
                    return
            elif op == 'ret':
                v = ins[3]
                if type(v) is str:
                    v = regs[v]
                self.do_ret(st, fr, v)
                return
            elif op == 'invoke':
                r = self.do_call(st, fr, ins, ins[6])
                if r:
                    return
                self.jump(st, fr, ins[5])
                blk = fr.blk
            else:
                h = HAND.get(op)
                if h is None:
                    raise Giveup('instruction ' + op)
                r = h(self, st, fr, regs, ins)
                if r:
                    return
                blk = fr.blk

    def loop_guard(self, st, fr, ins, c):
        return self.concretize_bool(st, ins[2], c)

    def sym_addr(self, st, reg, a, size, what):
        if a is UNDEF:
            self.failure(st, 'init', '%s through an uninitialised pointer' % what)
            raise PathEnd()
        if not isinstance(a, z3.BitVecRef):
            raise Giveup('address %r' % (a,))
        self.check_sym_access(st, a, size, what)
        return self.concretize_int(st, reg, a, 'symbolic address')

    def do_ret(self, st, fr, v):
        st.frames.pop()
        for oid in fr.allocas:
            o = st.mem.get(oid)
            if o is not None:
                del st.mem[oid]
        if st.frames:
            cal = st.frames[-1]
            if fr.onret is not None:
                v = fr.onret(self, st, v)
            if fr.dst is not None:
                cal.regs[fr.dst] = v
            if fr.unwind is not None:
                self.jump(st, cal, fr.unwind[0])

    # ------------------------------------------------------------------ calls
    def do_call(self, st, fr, ins, unwind):
        callee = ins[3]
        regs = fr.regs
        if callee.__class__ is str and callee[0] == '@':
            f = self.m.funcs[callee]
        else:
            a = regs[callee] if type(callee) is str else callee
            if type(a) is not int:
                if a is UNDEF:
                    self.failure(st, 'init', 'call through an uninitialised function pointer')
                    raise PathEnd()
                raise Giveup('symbolic function pointer')
            f = self.m.func_by_id.get(a >> 32)
            if f is None:
                self.failure(st, 'mem', 'call through a bad function pointer')
                raise PathEnd()
        name = f.name
        m = self.m.funcs.get('@__vm_' + name[1:]) if f.isdecl else None
        if m is not None and not m.isdecl:      # reference body of an external function (contracts/libc.h)
            self.externals.add(name[1:])
            f = m
            h = None
        else:
            h = self.stub(name)
        args = []
        for at, v, byval in ins[4]:
            if type(v) is str:
                v = regs[v]
            if byval is not None and h is None:
                n = self.m.size(byval)
                p = self.alloc(st, n, 'byval', 'stack')
                self.memcpy(st, p, v, n)
                v = p
            args.append(v)
        if h is not None:
            try:
                r = h(self, st, fr, ins, args, name)
            except Thrown as t:
                self.unwind(st, t.obj, t.ty, (unwind if ins[0] == 'invoke' else None))
                return True
            if ins[1] is not None and r is not NORET:
                regs[ins[1]] = r
            if r is FRAMED:
                if ins[0] == 'invoke':
                    st.frames[-1].unwind = (ins[5], ins[6])
                return True
            return False
        if f.isdecl:
            raise Giveup('external function ' + name)
        self.call_function(st, f, args, ins[1], (ins[5], ins[6]) if ins[0] == 'invoke' else None)
        return True

    def stub(self, name):
        h = self.fmemo.get(name, 0)
        if h != 0:
            return h
        from . import stubs
        h = stubs.find(self, name)
        if h is stubs.os_ins and '@__vm_iosmodel' in self.m.funcs:      # contracts/model: streams with bodies
            h = None
        self.fmemo[name] = h
        if h is not None and not name.startswith(('@__v_', '@llvm.')):
            self.externals.add(name[1:])
        return h

    # ------------------------------------------------------------------ exceptions
    def unwind(self, st, obj, ty, first_unwind):
        """exception (obj,ty) leaves the current call of the top frame"""
        st.inflight = (obj, ty)
        if first_unwind is not None:
            fr = st.frames[-1]
            self.jump(st, fr, first_unwind)
            return
        while st.frames:
            fr = st.frames.pop()
            for oid in fr.allocas:
                st.mem.pop(oid, None)
            if fr.unwind is not None:
                self.jump(st, st.frames[-1], fr.unwind[1])
                return
        self.uncaught(st, ty)

    def uncaught(self, st, ty):
        self.failure(st, 'throw', 'exception %s leaves the contract' % ty)
        raise PathEnd()

    def tyname(self, addr):
        g = self.m.glob_by_id.get(addr >> 32)
        return g[1:] if g else None

    def type_matches(self, st, thrown, clause):
        if clause == 0:
            return True
        want = self.tyname(clause)
        seen = 0
        t = thrown
        while t is not None and seen < 20:
            if t == want:
                return True
            if t in STD_BASES:
                t = STD_BASES[t]
            elif '@' + t in self.m.globals:
                g = '@' + t
                ty, toks, _ = self.m.globals[g]
                nxt = None
                if toks is not None:
                    a = self.m.gaddr(g)
                    if self.m.size(ty) >= 24:
                        b = self.load(st, a + 16, PTR)
                        nxt = self.tyname(b) if isinstance(b, int) else None
                t = nxt
            else:
                t = None
            seen += 1
        return False

    # ------------------------------------------------------------------ shared memory (thread-modular)
    def is_shared(self, st, a):
        r = st.shared.get(a >> 32)
        return r is not None and r[0] <= (a & 0xffffffff) < r[1]

    def fresh_val(self, ty, name):
        self.fresh += 1
        if ty[0] == 'f':
            return rat.ratom(self.new_atom('%s%d' % (name, self.fresh), 'in'))
        bits = ty[1] if ty[0] == 'i' else 64
        return z3.BitVec('%s!%d' % (name, self.fresh), bits)

    def shared_load(self, st, a, ty, atomic):
        from . import shared
        return shared.load(self, st, a, ty, atomic)

    def shared_store(self, st, a, ty, v, atomic, toks=None):
        from . import shared
        o = [shared.ORD[t] for t in toks or () if t in shared.ORD]
        return shared.store(self, st, a, ty, v, atomic, o[0] if o else 5)

class Thrown(Exception):
    def __init__(self, obj, ty):
        self.obj = obj
        self.ty = ty

NORET = object()
FRAMED = object()

# ---------------------------------------------------------------------- handlers
HAND = {}

def hand(*names):
    def d(f):
        for n in names:
            HAND[n] = f
        return f
    return d

def V(regs, x):
    return regs[x] if type(x) is str else x

PYBIN = {
 'add': lambda a, b, n: a + b, 'sub': lambda a, b, n: a - b, 'mul': lambda a, b, n: a * b,
 'and': lambda a, b, n: a & b, 'or': lambda a, b, n: a | b, 'xor': lambda a, b, n: a ^ b,
 'shl': lambda a, b, n: a << b if b < n else None, 'lshr': lambda a, b, n: a >> b if b < n else None,
 'ashr': lambda a, b, n: sgn(a, n) >> b if b < n else None,
}
ZBIN = {
 'add': lambda a, b: a + b, 'sub': lambda a, b: a - b, 'mul': lambda a, b: a * b,
 'and': lambda a, b: a & b, 'or': lambda a, b: a | b, 'xor': lambda a, b: a ^ b,
 'shl': lambda a, b: a << b, 'lshr': lambda a, b: z3.LShR(a, b), 'ashr': lambda a, b: a >> b,
 'udiv': lambda a, b: z3.UDiv(a, b), 'urem': lambda a, b: z3.URem(a, b), 'sdiv': lambda a, b: a / b, 'srem': lambda a, b: z3.SRem(a, b),
}

def vec(f):
    def g(self, st, fr, regs, ins):
        ty = ins[2]
        if ty[0] == 'v':
            a, b = V(regs, ins[3]), V(regs, ins[4])
            out = []
            for x, y in zip(a, b):
                sub = (ins[0], '%__vec', ty[2], x, y, None)
                f(self, st, fr, regs, sub)
                out.append(regs['%__vec'])
            regs[ins[1]] = out
            return
        return f(self, st, fr, regs, ins)
    return g

@hand('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr')
@vec
def h_bin(self, st, fr, regs, ins):
    op, dst, ty, a, b = ins[:5]
    a = V(regs, a)
    b = V(regs, b)
    n = ty[1]
    if type(a) is int and type(b) is int:
        r = PYBIN[op](a, b, n)
        regs[dst] = UNDEF if r is None else r & ((1 << n) - 1)
        return
    if (a is UNDEF or b is UNDEF) and op in ('and', 'or') and n >= 16 and (type(a) in (int, Packed, BitsOf) or type(b) in (int, Packed, BitsOf)):
        try:
            regs[dst] = pk_binop(op, a, b, n)
            return
        except Giveup:
            pass
    if a is UNDEF or b is UNDEF:
        if op == 'and' and (a == 0 or b == 0) and not is_sym(a) and not is_sym(b):
            regs[dst] = 0
        else:
            regs[dst] = UNDEF
        return
    if n == 1:
        x = a if is_sym(a) else z3.BoolVal(bool(a))
        y = b if is_sym(b) else z3.BoolVal(bool(b))
        if isinstance(x, z3.BitVecRef): x = x == 1
        if isinstance(y, z3.BitVecRef): y = y == 1
        r = {'xor': lambda: z3.Xor(x, y), 'add': lambda: z3.Xor(x, y), 'sub': lambda: z3.Xor(x, y), 'and': lambda: z3.And(x, y), 'mul': lambda: z3.And(x, y), 'or': lambda: z3.Or(x, y)}[op]()
        regs[dst] = simp(r)
        return
    if isinstance(a, (BitsOf, Packed)) or isinstance(b, (BitsOf, Packed)):
        regs[dst] = pk_binop(op, a, b, n)
        return
    if isinstance(a, (Rat, Special)) or isinstance(b, (Rat, Special)):
        raise Giveup('int op on real')
    regs[dst] = simp(ZBIN[op](tobv(a, n), tobv(b, n)))

DIVK = {'udiv': (z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I), 'sdiv': (z3.Z3_OP_BSDIV, z3.Z3_OP_BSDIV_I)}

def const_div(a, op):
    # a = x op c with a positive constant c: (x, c)
    if isinstance(a, z3.BitVecRef) and z3.is_app(a) and a.decl().kind() in DIVK[op] and z3.is_bv_value(a.arg(1)):
        c = a.arg(1).as_long()
        if c > 0 and not c >> (a.size() - 1):
            return a.arg(0), c
    return None

@hand('udiv', 'sdiv', 'urem', 'srem')
@vec
def h_div(self, st, fr, regs, ins):
    op, dst, ty, a, b = ins[:5]
    a = V(regs, a)
    b = V(regs, b)
    n = ty[1]
    if a is UNDEF or b is UNDEF:
        regs[dst] = UNDEF
        return
    if type(b) is int:
        if b == 0:
            self.failure(st, 'div', 'integer division by zero')
            raise PathEnd()
    else:
        self.prove(st, tobv(b, n) != 0, 'div', 'integer division by zero')
        st.pc.append(tobv(b, n) != 0)
    if type(a) is int and type(b) is int:
        if op in ('udiv', 'urem'):
            r = a // b if op == 'udiv' else a % b
        else:
            x, y = sgn(a, n), sgn(b, n)
            q = abs(x) // abs(y)
            if (x < 0) != (y < 0):
                q = -q
            r = q if op == 'sdiv' else x - q * y
        regs[dst] = r & ((1 << n) - 1)
        return
    if op in ('udiv', 'sdiv') and type(b) is int and b > 1 and not b >> (n - 1):
        # (x / c) / b = x / (c * b) for positive constants, truncating in both
        q = const_div(a, op)
        if q is not None:
            c = q[1] * b
            if c >> (n - 1):
                if op == 'udiv' and not c >> n:
                    a, b = q[0], c
                else:
                    pass
            else:
                a, b = q[0], c
    regs[dst] = simp(ZBIN[op](tobv(a, n), tobv(b, n)))

ICMP = {
 'eq': lambda a, b, n: a == b, 'ne': lambda a, b, n: a != b,
 'ugt': lambda a, b, n: a > b, 'uge': lambda a, b, n: a >= b, 'ult': lambda a, b, n: a < b, 'ule': lambda a, b, n: a <= b,
 'sgt': lambda a, b, n: sgn(a, n) > sgn(b, n), 'sge': lambda a, b, n: sgn(a, n) >= sgn(b, n),
 'slt': lambda a, b, n: sgn(a, n) < sgn(b, n), 'sle': lambda a, b, n: sgn(a, n) <= sgn(b, n),
}
ZCMP = {
 'eq': lambda a, b: a == b, 'ne': lambda a, b: a != b,
 'ugt': z3.UGT, 'uge': z3.UGE, 'ult': z3.ULT, 'ule': z3.ULE,
 'sgt': lambda a, b: a > b, 'sge': lambda a, b: a >= b, 'slt': lambda a, b: a < b, 'sle': lambda a, b: a <= b,
}

@hand('icmp')
def h_icmp(self, st, fr, regs, ins):
    _, dst, pred, ty, a, b = ins[:6]
    a = V(regs, a)
    b = V(regs, b)
    n = ty[1] if ty[0] == 'i' else 64
    if type(a) is int and type(b) is int:
        regs[dst] = 1 if ICMP[pred](a, b, n) else 0
        return
    if a is UNDEF or b is UNDEF:
        regs[dst] = UNDEF
        return
    if isinstance(a, BitsOf) or isinstance(b, BitsOf):
        x = a.r if isinstance(a, BitsOf) else self.bits2f(a, ('f', b.bits))
        y = b.r if isinstance(b, BitsOf) else self.bits2f(b, ('f', a.bits))
        if pred not in ('eq', 'ne'):
            raise Giveup('ordering of real bits')
        c = self.cmp0(rsub(x, y), pred)
        regs[dst] = int(c) if isinstance(c, bool) else c
        return
    if n == 1:
        x = a if is_sym(a) else z3.BoolVal(bool(a))
        y = b if is_sym(b) else z3.BoolVal(bool(b))
        regs[dst] = simp(x == y if pred == 'eq' else x != y) if pred in ('eq', 'ne') else simp(ZCMP[pred](tobv(x, 2), tobv(y, 2)))
        return
    if not isinstance(a, (int, z3.ExprRef)) or not isinstance(b, (int, z3.ExprRef)):
        raise Giveup('icmp on %r %r' % (type(a), type(b)))
    if b == 0 and type(b) is int and pred in ('eq', 'ne'):
        # x / c == 0 iff x is below c in magnitude
        q = const_div(a, 'udiv')
        if q is not None:
            r = z3.ULT(q[0], q[1])
        else:
            q = const_div(a, 'sdiv')
            if q is not None:
                r = z3.And(q[0] < q[1], q[0] > -q[1])
        if q is not None:
            regs[dst] = simp(r if pred == 'eq' else z3.Not(r))
            return
    regs[dst] = simp(ZCMP[pred](tobv(a, n), tobv(b, n)))

def sp2f(v):
    if isinstance(v, Special):
        return v.x
    c = v.const()
    return None if c is None else float(c)

def fop(self, st, op, a, b, ty):
    if a is UNDEF or b is UNDEF:
        return UNDEF
    if isinstance(a, Special) or isinstance(b, Special):
        x, y = sp2f(a), sp2f(b)
        if x is None or y is None:
            if op == 'fmul' or op == 'fdiv' or op in ('fadd', 'fsub'):
                raise Giveup('infinity/NaN meets a symbolic real')
        try:
            r = {'fadd': lambda: x + y, 'fsub': lambda: x - y, 'fmul': lambda: x * y, 'fdiv': lambda: x / y, 'frem': lambda: float('nan')}[op]()
        except ZeroDivisionError:
            r = float('nan')
        if r != r or r in (float('inf'), float('-inf')):
            return Special(r)
        return rconst(Fraction(r))
    if op == 'fadd':
        r = radd(a, b)
        if a.nn and b.nn:
            r.nn = True
        return r
    if op == 'fsub':
        return rsub(a, b)
    if op == 'fmul':
        r = rmul(a, b)
        if r.n and (a is b or (a.nn and b.nn) or (len(a.n) == len(b.n) and a.d == b.d and a.n == b.n)):
            r.nn = True
        elif r.n and (a.nn or b.nn):
            c = b.const() if a.nn else a.const()
            if c is not None and c > 0:
                r.nn = True
        return r
    if op == 'fdiv':
        c = b.const()
        if c is not None:
            if c == 0:
                ac = a.const()
                if ac is None:
                    self.failure(st, 'fdiv', 'floating-point division by zero')
                    raise PathEnd()
                return Special(float('nan') if ac == 0 else (float('inf') if ac > 0 else float('-inf')))
        else:
            self.nonzero(st, b)
        r = rdiv(a, b)
        if a.nn and c is not None and c > 0 and r.n:
            r.nn = True
        return r
    raise Giveup(op)

def _nonzero(self, st, b):
    fs, _ = None, None
    key = rat.pkey(b.n)
    nz = st.ghost.get('nz')
    if nz is not None and key in nz:
        return
    mono = len(b.n) == 1
    r, model = self.check(st.pc + [self.zpoly(b.n) == 0], self.opts['branch_ms'])
    if r == 'unsat':
        self.ok('fdiv', 'z3')
    else:
        if r == 'sat':
            self.notes.setdefault('possible zero divisor', []).append([rat.show(b)[:120], self.where(st), self.model_inputs(st, model)])
        else:
            self.notes.setdefault('divisor not shown non-zero', []).append([rat.show(b)[:120], self.where(st)])
    nz = set(nz or ())
    nz.add(key)
    st.ghost['nz'] = nz
    st.pc.append(self.zpoly(b.n) != 0)
Engine.nonzero = _nonzero

@hand('fadd', 'fsub', 'fmul', 'fdiv', 'frem')
@vec
def h_f(self, st, fr, regs, ins):
    op, dst, ty, a, b = ins[:5]
    regs[dst] = fop(self, st, op, V(regs, a), V(regs, b), ty)

@hand('fneg')
def h_fneg(self, st, fr, regs, ins):
    def neg(a):
        if a is UNDEF:
            return a
        return Special(-a.x) if isinstance(a, Special) else rneg(a)
    a = V(regs, ins[3])
    regs[ins[1]] = [neg(x) for x in a] if isinstance(a, list) else neg(a)

@hand('fcmp')
def h_fcmp(self, st, fr, regs, ins):
    _, dst, pred, ty, a, b = ins[:6]
    a = V(regs, a)
    b = V(regs, b)
    if a is UNDEF or b is UNDEF:
        regs[dst] = UNDEF
        return
    if isinstance(a, Special) or isinstance(b, Special):
        x, y = sp2f(a), sp2f(b)
        if x is None or y is None:
            sp = x if x is not None else y
            if sp != sp:
                regs[dst] = 1 if pred[0] == 'u' else 0
                return
            # finite real against +-inf
            if x is None:
                x = 0.0
            else:
                y = 0.0
        nan = x != x or y != y
        o = {'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}
        if pred == 'ord':
            r = not nan
        elif pred == 'uno':
            r = nan
        elif pred[0] == 'o':
            r = (not nan) and o[pred[1:]]
        else:
            r = nan or o[pred[1:]]
        regs[dst] = int(r)
        return
    if pred == 'ord' or pred == 'true':
        regs[dst] = 1
        return
    if pred == 'uno' or pred == 'false':
        regs[dst] = 0
        return
    c = self.cmp0(rsub(a, b), pred[1:])
    regs[dst] = int(c) if isinstance(c, bool) else c

@hand('trunc', 'zext', 'sext')
def h_ext(self, st, fr, regs, ins):
    op, dst, ty, v, t2 = ins[:5]
    v = V(regs, v)
    if ty[0] == 'v':
        raise Giveup('vector cast')
    n, k = ty[1], t2[1]
    if v is UNDEF:
        regs[dst] = UNDEF
        return
    if type(v) is int:
        if op == 'sext':
            v = sgn(v, n)
        regs[dst] = v & ((1 << k) - 1)
        return
    if isinstance(v, (BitsOf, Packed)):
        if op == 'trunc':
            regs[dst] = pk_make(pk_slice(v, n, 0, k))
        elif op == 'zext':
            regs[dst] = pk_make(pk_parts(v, n) + [(k - n, 0)])
        else:
            raise Giveup('cast of real bits')
        return
    if op == 'trunc':
        if k == 1:
            regs[dst] = simp(z3.Extract(0, 0, tobv(v, n)) == 1)
        else:
            regs[dst] = simp(z3.Extract(k - 1, 0, tobv(v, n)))
    elif op == 'zext':
        if n == 1:
            regs[dst] = simp(tobv(v if isinstance(v, z3.BoolRef) else v == 1, k))
        else:
            regs[dst] = simp(z3.ZeroExt(k - n, tobv(v, n)))
    else:
        if n == 1:
            b = v if isinstance(v, z3.BoolRef) else v == 1
            regs[dst] = simp(z3.If(b, z3.BitVecVal(-1, k), z3.BitVecVal(0, k)))
        else:
            regs[dst] = simp(z3.SignExt(k - n, tobv(v, n)))

@hand('fptrunc', 'fpext')
def h_fpc(self, st, fr, regs, ins):
    regs[ins[1]] = V(regs, ins[3])

@hand('sitofp', 'uitofp')
def h_i2f(self, st, fr, regs, ins):
    op, dst, ty, v, t2 = ins[:5]
    v = V(regs, v)
    if v is UNDEF:
        regs[dst] = UNDEF
        return
    if type(v) is int:
        regs[dst] = rconst(sgn(v, ty[1]) if op == 'sitofp' else v)
        return
    n = ty[1]
    e = tobv(v, n)
    key = ('i2r', op, e.get_id())
    memo = rat.CTX.memo
    if key not in memo:
        i = self.new_atom('real(%s)' % str(e)[:30], 'i2r', (op, e))
        self.add_def(i, self.zatoms[i] == z3.ToReal(z3.BV2Int(e, is_signed=(op == 'sitofp'))))
        memo[key] = (rat.ratom(i), e)
    regs[dst] = memo[key][0]

@hand('fptosi', 'fptoui')
def h_f2i(self, st, fr, regs, ins):
    op, dst, ty, v, t2 = ins[:5]
    v = V(regs, v)
    if v is UNDEF:
        regs[dst] = UNDEF
        return
    n = t2[1]
    if isinstance(v, Special):
        self.failure(st, 'cast', 'conversion of %r to an integer (undefined behaviour)' % v)
        raise PathEnd()
    c = v.const()
    if c is not None:
        x = int(c)  # truncation toward zero
        lo, hi = (-(1 << (n - 1)), (1 << (n - 1)) - 1) if op == 'fptosi' else (0, (1 << n) - 1)
        if not lo <= x <= hi:
            self.failure(st, 'cast', 'conversion of %s to an integer out of range (undefined behaviour)' % x)
            raise PathEnd()
        regs[dst] = x & ((1 << n) - 1)
        return
    # real atom that is exactly an integer-valued atom ?
    if len(v.n) == 1 and not v.d:
        (mm, cc), = v.n.items()
        vs = rat.mon_vars(mm)
        if cc == 1 and len(vs) == 1 and vs[0][1] == 1 and rat.CTX.kind[vs[0][0]] == 'i2r':
            o, e = rat.CTX.info[vs[0][0]]
            k = e.size()
            regs[dst] = e if k == n else (z3.Extract(n - 1, 0, e) if k > n else (z3.SignExt(n - k, e) if o == 'sitofp' else z3.ZeroExt(n - k, e)))
            return
    k = (op, n, v.key())
    b = self.f2i.get(k)
    if b is None:
        self.fresh += 1
        b = self.f2i[k] = z3.BitVec('f2i!%d' % self.fresh, n)
    regs[dst] = b
    if k in st.f2i:
        return
    st.f2i = st.f2i | {k}
    zi = z3.ToReal(z3.BV2Int(b, is_signed=(op == 'fptosi')))
    zv = self.zrat(v)
    st.pc.append(z3.If(zv >= 0, z3.And(zi <= zv, zv < zi + 1, zi >= 0), z3.And(zi >= zv, zv > zi - 1, zi <= 0)))

@hand('ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast')
def h_bc(self, st, fr, regs, ins):
    op, dst, ty, v, t2 = ins[:5]
    v = V(regs, v)
    if op == 'bitcast' and ty[0] != t2[0]:
        if ty[0] in 'if' and t2[0] in 'if':
            v = self.conv(v, t2, self.m.size(t2))
        else:
            raise Giveup('bitcast %r %r' % (ty, t2))
    elif op == 'bitcast' and ty[0] == 'v' and ty != t2:
        raise Giveup('vector bitcast')
    if t2[0] == 'i' and type(v) is int:
        v &= (1 << t2[1]) - 1
    regs[dst] = v

@hand('freeze')
def h_freeze(self, st, fr, regs, ins):
    regs[ins[1]] = V(regs, ins[3])

@hand('alloca')
def h_alloca(self, st, fr, regs, ins):
    n = V(regs, ins[3])
    if type(n) is not int:
        n = self.concretize_int(st, ins[3], n, 'alloca size')
    a = self.alloc(st, self.m.size(ins[2]) * n, ins[1], 'stack')
    fr.allocas.append(a >> 32)
    regs[ins[1]] = a

@hand('switch')
def h_switch(self, st, fr, regs, ins):
    ty, v, d, cases = ins[2:6]
    x = V(regs, v)
    if x is UNDEF:
        self.failure(st, 'init', 'a switch depends on an uninitialised value')
        raise PathEnd()
    if type(x) is not int:
        # fork over cases
        n = ty[1]
        e = tobv(x, n)
        outs = []
        for cv, lab in cases:
            if self.feasible(st, e == cv):
                outs.append((e == cv, lab))
        dn = z3.And(*[e != cv for cv, _ in cases]) if cases else z3.BoolVal(True)
        if self.feasible(st, dn):
            outs.append((dn, d))
        if not outs:
            raise PathEnd()
        for c, lab in outs[1:]:
            o = st.fork()
            o.pc.append(c)
            self.jump(o, o.frames[-1], lab)
            self.push(o)
        st.pc.append(outs[0][0])
        self.jump(st, fr, outs[0][1])
        return
    for cv, lab in cases:
        if cv == x:
            self.jump(st, fr, lab)
            return
    self.jump(st, fr, d)

@hand('unreachable')
def h_unr(self, st, fr, regs, ins):
    self.failure(st, 'unreachable', 'control reaches an unreachable point (missing return or undefined behaviour)')
    raise PathEnd()

@hand('select')
def h_select(self, st, fr, regs, ins):
    _, dst, ty, c, a, b, ct = ins[:7]
    cv = V(regs, c)
    if isinstance(cv, list):
        a, b = V(regs, a), V(regs, b)
        if any(type(x) is not int for x in cv):
            raise Giveup('vector select')
        regs[dst] = [x if k else y for k, x, y in zip(cv, a, b)]
        return
    if type(cv) is int:
        regs[dst] = V(regs, a) if cv else V(regs, b)
        return
    if cv is UNDEF:
        regs[dst] = UNDEF
        return
    av, bv = V(regs, a), V(regs, b)
    if ty[0] == 'i' and not isinstance(av, (BitsOf, Packed)) and not isinstance(bv, (BitsOf, Packed)) and av is not UNDEF and bv is not UNDEF:
        n = ty[1]
        if n == 1:
            x = av if is_sym(av) else z3.BoolVal(bool(av))
            y = bv if is_sym(bv) else z3.BoolVal(bool(bv))
            regs[dst] = simp(z3.If(cv, x, y))
        else:
            regs[dst] = simp(z3.If(cv, tobv(av, n), tobv(bv, n)))
        return
    if isinstance(av, Rat) and isinstance(bv, Rat) and av.key() == bv.key():
        regs[dst] = av
        return
    k = self.concretize_bool(st, c, cv)
    regs[dst] = av if k else bv

@hand('extractvalue')
def h_ev(self, st, fr, regs, ins):
    v = V(regs, ins[2])
    for i in ins[3]:
        v = v if v is UNDEF else v[i]
    regs[ins[1]] = v

@hand('insertvalue')
def h_iv(self, st, fr, regs, ins):
    v = V(regs, ins[2])
    e = V(regs, ins[3])
    def rec(v, idx):
        r = list(v) if v is not UNDEF else None
        if r is None:
            raise Giveup('insertvalue undef')
        if len(idx) == 1:
            r[idx[0]] = e
        else:
            r[idx[0]] = rec(r[idx[0]], idx[1:])
        return r
    regs[ins[1]] = rec(v, ins[4])

@hand('extractelement')
def h_ee(self, st, fr, regs, ins):
    regs[ins[1]] = V(regs, ins[2])[V(regs, ins[3])]

@hand('insertelement')
def h_ie(self, st, fr, regs, ins):
    r = list(V(regs, ins[2]))
    r[V(regs, ins[4])] = V(regs, ins[3])
    regs[ins[1]] = r

@hand('shufflevector')
def h_sv(self, st, fr, regs, ins):
    a = list(V(regs, ins[2])) + list(V(regs, ins[3]))
    regs[ins[1]] = [UNDEF if k is UNDEF else a[k] for k in V(regs, ins[4])]

@hand('landingpad')
def h_lp(self, st, fr, regs, ins):
    obj, ty = st.inflight
    sel = 0
    hit = False
    for k, c in ins[3]:
        if k == 'catch' and self.type_matches(st, ty, c):
            sel = (c >> 32) if c else 1
            hit = True
            break
    if not hit and not ins[2]:
        # no clause applies, not a cleanup: continue unwinding past this frame
        f = st.frames.pop()
        for oid in f.allocas:
            st.mem.pop(oid, None)
        if f.unwind is not None:
            self.jump(st, st.frames[-1], f.unwind[1])
            return True
        self.unwind(st, obj, ty, None)
        return True
    regs[ins[1]] = [obj, sel]

@hand('resume')
def h_resume(self, st, fr, regs, ins):
    obj, ty = st.inflight
    f = st.frames.pop()
    for oid in f.allocas:
        st.mem.pop(oid, None)
    if not st.frames:
        self.uncaught(st, ty)
    if f.unwind is not None:
        self.jump(st, st.frames[-1], f.unwind[1])
        return True
    self.unwind(st, obj, ty, None)
    return True

@hand('fence')
def h_fence(self, st, fr, regs, ins):
    pass

@hand('cmpxchg')
def h_cx(self, st, fr, regs, ins):
    from . import shared
    return shared.cmpxchg(self, st, fr, regs, ins)

@hand('atomicrmw')
def h_rmw(self, st, fr, regs, ins):
    from . import shared
    return shared.atomicrmw(self, st, fr, regs, ins)
