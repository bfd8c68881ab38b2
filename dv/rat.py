"""Exact arithmetic on rational functions over named real atoms.

Poly  : {monomial:int -> coeff (int|Fraction)}; a monomial packs one exponent
        field of FB bits per atom, so multiplying monomials is adding ints.
Rat   : numerator Poly over a product of interned denominator factors.
Atoms may carry a square rewriting rule (sqrt atoms: s*s -> radicand).
"""
from fractions import Fraction
import math

FB = 12
FMASK = (1 << FB) - 1

class PolyTooBig(Exception):
    pass

MAXTERMS = 60000

class Ctx:
    """Atom table of one verification run."""
    def __init__(self):
        self.names = []
        self.kind = []       # 'in' | 'sqrt' | 'fn' ...
        self.info = []       # for sqrt: Rat radicand ; fn: (name,args)
        self.memo = {}
        self.sqrt_rules = {} # atom index -> Poly radicand (only polynomial ones)

    def atom(self, name, kind='in', info=None):
        i = len(self.names)
        self.names.append(name)
        self.kind.append(kind)
        self.info.append(info)
        return i

CTX = Ctx()

def reset():
    global CTX
    CTX.__init__()
    DEN.clear(); DENL.clear()

def padd(a, b):
    if len(a) < len(b):
        a, b = b, a
    r = dict(a)
    for m, c in b.items():
        v = r.get(m)
        if v is None:
            r[m] = c
        else:
            v = v + c
            if v:
                r[m] = v
            else:
                del r[m]
    return r

def pneg(a):
    return {m: -c for m, c in a.items()}

def psub(a, b):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m)
        if v is None:
            r[m] = -c
        else:
            v = v - c
            if v:
                r[m] = v
            else:
                del r[m]
    return r

def norm(c):
    if type(c) is Fraction and c.denominator == 1:
        return c.numerator
    return c

def pscale(a, k):
    if not k:
        return {}
    return {m: norm(c * k) for m, c in a.items()}

def pmul(a, b):
    if len(a) > len(b):
        a, b = b, a
    if len(a) * len(b) > 8000000:
        raise PolyTooBig()
    if len(a) == 1:
        (m, c), = a.items()
        if m == 0:
            if c == 1:
                return b
            return pscale(b, c)
        r = {m + m2: c * c2 for m2, c2 in b.items()}
    else:
        r = {}
        get = r.get
        for m, c in a.items():
            for m2, c2 in b.items():
                k = m + m2
                v = get(k)
                if v is None:
                    r[k] = c * c2
                else:
                    r[k] = v + c * c2
        r = {m: norm(c) for m, c in r.items() if c}
        if len(r) > MAXTERMS:
            raise PolyTooBig()
    if CTX.sqrt_rules:
        r = reduce_sqrt(r)
    return r

def reduce_sqrt(p):
    for idx, rad in CTX.sqrt_rules.items():
        sh = FB * idx
        hit = False
        for m in p:
            if ((m >> sh) & FMASK) >= 2:
                hit = True
                break
        if not hit:
            continue
        out = {}
        for m, c in p.items():
            e = (m >> sh) & FMASK
            if e >= 2:
                k, rest = divmod(e, 2)
                m2 = m - ((e - rest) << sh)
                q = {m2: c}
                for _ in range(k):
                    q = pmul_raw(q, rad)
                out = padd(out, q)
            else:
                out = padd(out, {m: c})
        return reduce_sqrt(out)
    return p

def pmul_raw(a, b):
    r = {}
    for m, c in a.items():
        for m2, c2 in b.items():
            k = m + m2
            r[k] = r.get(k, 0) + c * c2
    return {m: norm(c) for m, c in r.items() if c}

def pconst(p):
    """value if p is constant else None"""
    if not p:
        return 0
    if len(p) == 1 and 0 in p:
        return p[0]
    return None

def pkey(p):
    return tuple(sorted(p.items()))

def mon_vars(m):
    r = []
    i = 0
    while m:
        e = m & FMASK
        if e:
            r.append((i, e))
        m >>= FB
        i += 1
    return r

# interned denominators -------------------------------------------------------
DEN = {}
DENL = []

def intern_den(p):
    """returns (factor id, scale) with p = scale * DENL[id], DENL monic-ish"""
    lead = max(p)
    k = p[lead]
    q = p if k == 1 else pscale(p, Fraction(1) / Fraction(k))
    key = pkey(q)
    i = DEN.get(key)
    if i is None:
        i = len(DENL)
        DEN[key] = i
        DENL.append(q)
    return i, k

class Rat:
    __slots__ = ('n', 'd', 'nn')   # nn: known >= 0; d: tuple of sorted (factor id, exp)

    def __init__(self, n, d=()):
        self.n = n
        self.d = d
        self.nn = False

    def const(self):
        if self.d:
            if not self.n:
                return 0
            return None
        return pconst(self.n)

    def is_zero(self):
        return not self.n

    def key(self):
        return (pkey(self.n), self.d)

    def __repr__(self):
        return show(self)

ZERO = Rat({})
ZERO.nn = True
ONE = Rat({0: 1})
ONE.nn = True

def rconst(c):
    c = norm(c)
    if not c:
        return ZERO
    r = Rat({0: c})
    r.nn = c > 0
    return r

def ratom(i):
    return Rat({1 << (FB * i): 1})

def snapf(x):
    """the same for a float (32 bit) literal"""
    if x != x or x in (math.inf, -math.inf):
        return None
    f = Fraction(x)
    if f.denominator <= 4096:
        return norm(f)
    g = f.limit_denominator(720)
    import struct
    if struct.unpack('<f', struct.pack('<f', g.numerator / g.denominator))[0] == x:
        return norm(g)
    return f

def isq(n):
    """(s, r) with n = s*s*r, r square-free as far as small factors go"""
    s, r = 1, n
    q = math.isqrt(n)
    if q * q == n:
        return q, 1
    f = 2
    while f <= 1000 and f * f <= r:
        while r % (f * f) == 0:
            r //= f * f
            s *= f
        f += 1
    q = math.isqrt(r)
    if q * q == r:
        return s * q, 1
    return s, r

def content(p):
    """positive rational c with p/c integer primitive"""
    g, l = 0, 1
    for c in p.values():
        c = Fraction(c)
        l = l * c.denominator // math.gcd(l, c.denominator)
    for c in p.values():
        g = math.gcd(g, abs(int(c * l)))
    return Fraction(g, l)

def psqrt(p):
    """q with q*q == p, or None"""
    lead = max(p)
    c = Fraction(p[lead])
    if c < 0:
        return None
    n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
    if n * n != c.numerator or d * d != c.denominator:
        return None
    m = lead
    k = 0
    lm = 0
    while m:
        e = m & FMASK
        if e % 2:
            return None
        lm |= (e // 2) << k
        m >>= FB
        k += FB
    q = {lm: norm(Fraction(n, d))}
    lc = Fraction(n, d) * 2
    r = psub(p, pmul_raw(q, q))
    steps = 0
    while r:
        steps += 1
        if steps > 4 * len(p) + 4:
            return None
        t = max(r)
        if not _divm(t, lm):
            return None
        nm = t - lm
        if nm >= lm:
            return None
        nc = norm(Fraction(r[t]) / lc)
        # (q + t)^2 = q^2 + 2 q t + t^2
        term = {nm: nc}
        r = psub(r, padd(pmul_raw(pscale(q, 2), term), pmul_raw(term, term)))
        q = padd(q, term)
    return q

def snap(x):
    """Rational a double literal stands for (1./3. -> 1/3), else its exact value."""
    if x != x or x in (math.inf, -math.inf):
        return None
    f = Fraction(x)
    if f.denominator <= 4096:
        return norm(f)
    g = f.limit_denominator(5040)
    try:
        if g.numerator / g.denominator == x:
            return norm(g)
    except OverflowError:
        pass
    return f

def _bring(a, da, target):
    """multiply numerator a (over da) to common denominator target"""
    have = dict(da)
    for f, e in target:
        k = e - have.get(f, 0)
        for _ in range(k):
            a = pmul(a, DENL[f])
    return a

def _lcm(d1, d2):
    if d1 == d2:
        return d1
    m = dict(d1)
    for f, e in d2:
        if m.get(f, 0) < e:
            m[f] = e
    return tuple(sorted(m.items()))

def radd(a, b):
    if a.d == b.d:
        n = padd(a.n, b.n)
        return Rat(n, a.d if n else ())
    t = _lcm(a.d, b.d)
    n = padd(_bring(a.n, a.d, t), _bring(b.n, b.d, t))
    return Rat(n, t if n else ())

def rneg(a):
    return Rat(pneg(a.n), a.d)

def rsub(a, b):
    return radd(a, rneg(b))

def _cancel(n, d):
    """drop denominator factors equal to the whole numerator (cheap)"""
    if not n:
        return {}, ()
    if not d:
        return n, d
    out = []
    ch = False
    for f, e in d:
        q = DENL[f]
        while e and len(q) == len(n) or (e and len(q) == 1):
            if len(q) == 1:
                # monomial denominator: cancel common monomial powers
                (m, c), = q.items()
                ok = all(_divm(mm, m) for mm in n)
                if not ok:
                    break
                n = {mm - m: norm(Fraction(cc) / Fraction(c)) if c != 1 else cc for mm, cc in n.items()}
                e -= 1
                ch = True
                continue
            lead = max(n)
            if lead != max(q):
                break
            k = n[lead]
            qq = pscale(q, k)
            if qq == n:
                n = {0: norm(k)}
                e -= 1
                ch = True
            else:
                break
        if e:
            out.append((f, e))
    return n, tuple(out)

def _divm(a, m):
    while m:
        if (a & FMASK) < (m & FMASK):
            return False
        a >>= FB
        m >>= FB
    return True

def rmul(a, b):
    if not a.n or not b.n:
        return ZERO
    if not a.d and not b.d:
        return Rat(pmul(a.n, b.n))
    # cross-cancel
    an, bd = _cancel(a.n, b.d)
    bn, ad = _cancel(b.n, a.d)
    m = dict(ad)
    for f, e in bd:
        m[f] = m.get(f, 0) + e
    n = pmul(an, bn)
    n, d = _cancel(n, tuple(sorted(m.items())))
    return Rat(n, d)

def rinv(a):
    """1/a, a not identically zero"""
    c = pconst(a.n)
    num = {0: 1}
    for f, e in a.d:
        for _ in range(e):
            num = pmul(num, DENL[f])
    if c is not None:
        return Rat(pscale(num, Fraction(1) / Fraction(c)))
    # split off monomial content
    mons = list(a.n)
    i, k = intern_den(a.n)
    n = pscale(num, Fraction(1) / Fraction(k))
    n, d = _cancel(n, ((i, 1),))
    return Rat(n, d)

def rdiv(a, b):
    c = b.const()
    if c is not None:
        return Rat(pscale(a.n, Fraction(1) / Fraction(c)), a.d)
    return rmul(a, rinv(b))

def rscale(a, k):
    n = pscale(a.n, k)
    return Rat(n, a.d if n else ())

def show_poly(p, lim=12):
    if not p:
        return '0'
    out = []
    for m, c in list(sorted(p.items(), key=lambda t: -t[0]))[:lim]:
        vs = '*'.join(CTX.names[i] + ('^%d' % e if e > 1 else '') for i, e in mon_vars(m))
        cs = str(c) if not (isinstance(c, Fraction) and len(str(c)) > 24) else repr(float(c))
        out.append((cs + ('*' + vs if vs else '')))
    s = ' + '.join(out)
    if len(p) > lim:
        s += ' + ... (%d terms)' % len(p)
    return s

def show(r):
    s = show_poly(r.n)
    if r.d:
        s = '(' + s + ') / (' + ' * '.join('(' + show_poly(DENL[f], 6) + ')' + ('^%d' % e if e > 1 else '') for f, e in r.d) + ')'
    return s

def peval(p, env):
    """env: atom index -> Fraction/float"""
    t = 0
    for m, c in p.items():
        v = c
        for i, e in mon_vars(m):
            v = v * env[i] ** e
        t = t + v
    return t

def reval(r, env):
    n = peval(r.n, env)
    for f, e in r.d:
        n = n / (peval(DENL[f], env) ** e)
    return n
