"""Parser for textual LLVM IR (clang 18, opaque pointers) -> decoded functions."""
import re, struct
from . import rat

class Undef:
    def __repr__(self): return 'UNDEF'
UNDEF = Undef()

class Unsupported(Exception):
    pass

TOK = re.compile(r'''
   c"(?:[^"\\]|\\[0-9A-Fa-f]{2})*"      # c-string
 | [%@$]"(?:[^"\\]|\\.)*"               # quoted name
 | [%@$][-a-zA-Z$._0-9]+                # name
 | !"(?:[^"\\]|\\.)*" | ![-a-zA-Z$._0-9]* | \#[0-9]+
 | "(?:[^"\\]|\\.)*"
 | 0x[KLMHR]?[0-9A-Fa-f]+
 | -?[0-9]+\.[0-9]+(?:[eE][-+]?[0-9]+)?
 | -?[0-9]+
 | \.\.\.
 | [a-zA-Z_][-a-zA-Z0-9_.]*
 | [\[\]{}<>(),=*:|]
''', re.X)

VOID = ('void',)
PTR = ('p',)
I1 = ('i', 1); I8 = ('i', 8); I32 = ('i', 32); I64 = ('i', 64)

PATTRS = set('''noundef nonnull noalias nocapture readonly writeonly readnone returned signext zeroext
inreg nest dead_on_unwind writable immarg swiftself noalias nofree noreturn nounwind allocptr allocalign'''.split())
PATTRS_ARG = {'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'align', 'memory', 'elementtype', 'preallocated', 'inalloca', 'byref', 'nofpclass', 'range'}

class Func:
    __slots__ = ('name', 'params', 'ptypes', 'ret', 'blocks', 'order', 'isdecl', 'vararg', 'attrs', 'raw', 'decoded', 'module', 'entry', 'subprogram')

class Module:
    def __init__(self, text):
        self.structs = {}
        self.globals = {}    # name -> (type, inittokens|None, const)
        self.funcs = {}
        self.aliases = {}
        self.addr = {}
        self.meta = {}
        self.layout_memo = {}
        self._parse(text)

    # ---------------------------------------------------------------- top level
    def _parse(self, text):
        lines = text.split('\n')
        i = 0
        n = len(lines)
        while i < n:
            ln = lines[i]
            i += 1
            if not ln or ln[0] == ';':
                continue
            c = ln[0]
            if c == '%':
                name, rest = ln.split(' = type ', 1)
                self.structs[name] = rest
            elif c == '@':
                self._global(ln)
            elif ln.startswith('define'):
                body = []
                while lines[i] != '}':
                    body.append(lines[i])
                    i += 1
                i += 1
                self._func(ln, body)
            elif ln.startswith('declare'):
                self._func(ln, None)
            elif c == '!':
                m = re.match(r'!(\d+) = (?:distinct )?(.*)$', ln)
                if m:
                    self.meta[int(m.group(1))] = m.group(2)
        # allocate ids : functions and globals get object ids 1..
        self.objs = []        # index -> ('f',func) | ('g',name)
        nid = 16
        self.idof = {}
        self.func_by_id = {}
        self.glob_by_id = {}
        for name, f in self.funcs.items():
            self.idof[name] = nid
            self.func_by_id[nid] = f
            nid += 1
        for name in self.globals:
            self.idof[name] = nid
            self.glob_by_id[nid] = name
            nid += 1
        self.next_id = nid
        self._ginit = {}

    def gaddr(self, name):
        if name in self.aliases:
            return self.gaddr(self.aliases[name])
        return self.idof[name] << 32

    def _global(self, ln):
        m = re.match(r'(@"(?:[^"\\]|\\.)*"|@[-a-zA-Z$._0-9]+) = (.*)$', ln)
        name, rest = m.group(1), m.group(2)
        toks = TOK.findall(rest)
        p = P(self, toks)
        isalias = False
        ext = False
        while True:
            t = p.peek()
            if t in ('global', 'constant'):
                const = t == 'constant'
                p.i += 1
                break
            if t == 'alias':
                isalias = True
                p.i += 1
                break
            if t in ('external', 'extern_weak', 'available_externally'):
                ext = True
            if t in ('thread_local', 'addrspace', 'unnamed_addr') or True:
                p.i += 1
                if p.peek() == '(':
                    p.skip_paren()
        ty = p.type()
        if isalias:
            p.expect(',')
            p.type()
            self.aliases[name] = p.next()
            return
        if ext:
            self.globals[name] = (ty, None, const)
        else:
            self.globals[name] = (ty, p.toks[p.i:], const)

    def ginit(self, name):
        """list of (offset, type, value) scalars"""
        r = self._ginit.get(name)
        if r is None:
            ty, toks, _ = self.globals[name]
            if toks is None:
                r = None
            else:
                p = P(self, toks)
                v = p.const(ty)
                r = []
                self.flatten(ty, v, 0, r)
            self._ginit[name] = r
        return r

    def flatten(self, ty, v, off, out):
        k = ty[0]
        if k == 'a':
            es = self.size(ty[2])
            if isinstance(v, bytes):
                for j, b in enumerate(v):
                    out.append((off + j, I8, b))
                return
            for j in range(ty[1]):
                self.flatten(ty[2], v[j], off + j * es, out)
        elif k == 's':
            offs = self.offsets(ty)
            for j, t in enumerate(ty[1]):
                self.flatten(t, v[j], off + offs[j], out)
        elif k == 'v':
            es = self.size(ty[2])
            for j in range(ty[1]):
                self.flatten(ty[2], v[j], off + j * es, out)
        else:
            out.append((off, ty, v))

    def struct(self, name):
        v = self.structs[name]
        if isinstance(v, str):
            if v.startswith('opaque'):
                v = ('s', (), False)
            else:
                p = P(self, TOK.findall(v))
                v = p.type()
            self.structs[name] = v
        return v

    # ---------------------------------------------------------------- layout
    def layout(self, ty):
        r = self.layout_memo.get(ty)
        if r is None:
            r = self._layout(ty)
            self.layout_memo[ty] = r
        return r

    def _layout(self, ty):
        k = ty[0]
        if k == 'i':
            b = ty[1]
            s = 1
            while s * 8 < b:
                s *= 2
            return (s, min(s, 16), None)
        if k == 'f':
            return {32: (4, 4, None), 64: (8, 8, None), 80: (16, 16, None), 16: (2, 2, None), 128: (16, 16, None)}[ty[1]]
        if k == 'p':
            return (8, 8, None)
        if k == 'a':
            s, a, _ = self.layout(ty[2])
            return (s * ty[1], a, None)
        if k == 'v':
            s, a, _ = self.layout(ty[2])
            t = s * ty[1]
            return (t, t, None)
        if k == 's':
            off = 0
            al = 1
            offs = []
            for t in ty[1]:
                s, a, _ = self.layout(t)
                if ty[2]:
                    a = 1
                off = (off + a - 1) // a * a
                offs.append(off)
                off += s
                al = max(al, a)
            off = (off + al - 1) // al * al
            return (off, al, offs)
        raise Unsupported('layout %r' % (ty,))

    def size(self, ty):
        return self.layout(ty)[0]

    def offsets(self, ty):
        return self.layout(ty)[2]

    def zero(self, ty):
        k = ty[0]
        if k in 'ip':
            return 0
        if k == 'f':
            return rat.ZERO
        if k in ('a', 'v'):
            return [self.zero(ty[2]) for _ in range(ty[1])]
        if k == 's':
            return [self.zero(t) for t in ty[1]]
        raise Unsupported('zero %r' % (ty,))

    def undef(self, ty):
        k = ty[0]
        if k in ('a', 'v'):
            return [self.undef(ty[2]) for _ in range(ty[1])]
        if k == 's':
            return [self.undef(t) for t in ty[1]]
        return UNDEF

    # ---------------------------------------------------------------- functions
    def _func(self, ln, body):
        f = Func()
        f.module = self
        m = re.search(r' (@"(?:[^"\\]|\\.)*"|@[-a-zA-Z$._0-9]+)\(', ln)
        f.name = m.group(1)
        f.isdecl = body is None
        head = ln[:m.start()]
        f.raw = body
        f.decoded = None
        # return type : last type tokens of the head
        toks = TOK.findall(head)
        f.ret = None
        p = P(self, toks)
        p.i = 1
        while p.i < len(toks):
            save = p.i
            t = p.peek()
            if t in PATTRS_ARG:
                p.i += 1
                if p.peek() == '(':
                    p.skip_paren()
                elif t == 'align':
                    p.i += 1
                continue
            try:
                ty = p.type()
                f.ret = ty
                break
            except Unsupported:
                p.i = save + 1
                if p.i < len(toks) and p.peek() == '(':
                    p.skip_paren()
        rest = TOK.findall(ln[m.end() - 1:])
        p = P(self, rest)
        p.expect('(')
        f.params = []
        f.ptypes = []
        f.vararg = False
        n = 0
        while p.peek() != ')':
            if p.peek() == '...':
                f.vararg = True
                p.i += 1
                continue
            ty = p.type()
            byval = None
            while p.peek() not in (',', ')'):
                t = p.next()
                if t in PATTRS_ARG:
                    if p.peek() == '(':
                        if t == 'byval':
                            p.i += 1
                            byval = p.type()
                            p.expect(')')
                        else:
                            p.skip_paren()
                    elif t == 'align':
                        p.i += 1
                elif t[0] == '%':
                    f.params.append(t)
            if len(f.params) <= n:
                f.params.append('%' + str(n))
            f.ptypes.append((ty, byval))
            n += 1
            if p.peek() == ',':
                p.i += 1
        f.subprogram = None
        m2 = re.search(r'!dbg !(\d+)', ln)
        if m2:
            f.subprogram = int(m2.group(1))
        self.funcs[f.name] = f

    def decode(self, f):
        """-> blocks: {label: [instr,...]}"""
        if f.decoded is not None:
            return f.decoded
        blocks = {}
        cur = []
        nparams = len(f.params)
        unnamed = sum(1 for p in f.params if re.fullmatch(r'%\d+', p))
        label = '%' + str(unnamed)
        f.entry = label
        blocks[label] = cur
        first = True
        body = f.raw
        i = 0
        n = len(body)
        while i < n:
            ln = body[i]
            i += 1
            if not ln or ln.isspace():
                continue
            if ln[0] not in ' \t':
                m = re.match(r'("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+):', ln)
                lab = '%' + m.group(1)
                if first and not cur:
                    del blocks[label]
                    f.entry = lab
                cur = []
                blocks[lab] = cur
                first = False
                continue
            first = False
            s = ln.strip()
            if s[0] == ';':
                continue
            if s[0] == '#' :
                continue
            # multi-line: switch, landingpad, invoke
            if s.startswith('switch') and ']' not in s:
                while True:
                    s += ' ' + body[i].strip()
                    i += 1
                    if ']' in body[i - 1]:
                        break
            elif ' landingpad ' in s or s.startswith('invoke') or ' = invoke ' in s:
                while i < n and (body[i].startswith('          ')):
                    s += ' ' + body[i].strip()
                    i += 1
            cur.append(self.instr(s))
        f.decoded = blocks
        return blocks

    def instr(self, s):
        dbg = None
        k = s.find(', !dbg !')
        if k >= 0:
            m = re.match(r', !dbg !(\d+)', s[k:])
            dbg = int(m.group(1))
            s = s[:k] + s[k + m.end():]
        toks = TOK.findall(s)
        p = P(self, toks)
        dst = None
        if len(toks) > 1 and toks[1] == '=':
            dst = toks[0]
            p.i = 2
        op = p.next()
        h = getattr(p, 'i_' + op, None)
        if h is None:
            raise Unsupported('instr ' + op + ' : ' + s)
        return h(op, dst) + (dbg,)

FLT = {'double': ('f', 64), 'float': ('f', 32), 'x86_fp80': ('f', 80), 'half': ('f', 16), 'fp128': ('f', 128)}

class P:
    def __init__(self, mod, toks):
        self.m = mod
        self.toks = toks
        self.i = 0

    def peek(self):
        return self.toks[self.i] if self.i < len(self.toks) else None

    def next(self):
        t = self.toks[self.i]
        self.i += 1
        return t

    def expect(self, t):
        if self.next() != t:
            raise Unsupported('expected %s at %r' % (t, self.toks[max(0, self.i - 5):self.i + 3]))

    def accept(self, t):
        if self.peek() == t:
            self.i += 1
            return True
        return False

    def skip_paren(self):
        d = 0
        while True:
            t = self.next()
            if t == '(':
                d += 1
            elif t == ')':
                d -= 1
                if d == 0:
                    return

    # ---- types
    def type(self):
        t = self.next()
        if t == 'ptr':
            ty = PTR
        elif t[0] == 'i' and t[1:].isdigit():
            ty = ('i', int(t[1:]))
        elif t in FLT:
            ty = FLT[t]
        elif t == 'void':
            ty = VOID
        elif t == '[':
            n = int(self.next())
            self.expect('x')
            e = self.type()
            self.expect(']')
            ty = ('a', n, e)
        elif t == '{':
            ty = ('s', self._tylist('}'), False)
        elif t == '<':
            if self.peek() == '{':
                self.i += 1
                ty = ('s', self._tylist('}'), True)
                self.expect('>')
            else:
                n = int(self.next())
                self.expect('x')
                e = self.type()
                self.expect('>')
                ty = ('v', n, e)
        elif t[0] == '%':
            ty = self.m.struct(t)
        elif t in ('label', 'metadata', 'token'):
            ty = (t,)
        else:
            self.i -= 1
            raise Unsupported('type ' + t)
        if self.peek() == '(' and ty[0] != 'label':
            # function type
            save = self.i
            self.skip_paren()
            return ('fn', ty)
        return ty

    def _tylist(self, end):
        r = []
        while self.peek() != end:
            r.append(self.type())
            if self.peek() == ',':
                self.i += 1
        self.i += 1
        return tuple(r)

    def attrs(self):
        """skip parameter attributes, return byval type if any"""
        byval = None
        while True:
            t = self.peek()
            if t in PATTRS:
                self.i += 1
            elif t in PATTRS_ARG:
                self.i += 1
                if self.peek() == '(':
                    if t == 'byval':
                        self.i += 1
                        byval = self.type()
                        self.expect(')')
                    else:
                        self.skip_paren()
                elif t == 'align':
                    self.i += 1
            else:
                return byval

    # ---- operands
    def val(self, ty):
        t = self.peek()
        if t[0] == '%':
            self.i += 1
            return t
        return self.const(ty)

    def tval(self):
        ty = self.type()
        self.attrs()
        return ty, self.val(ty)

    def const(self, ty):
        t = self.next()
        k = ty[0]
        c0 = t[0]
        if t == 'true':
            return 1
        if t == 'false':
            return 0
        if t == 'null':
            return 0
        if t in ('undef', 'poison'):
            return self.m.undef(ty)
        if t in ('zeroinitializer', 'none'):
            return self.m.zero(ty)
        if c0 == '@':
            return self.m.gaddr(t)
        if t == 'c' or t.startswith('c"'):
            return self._cstr(t)
        if k == 'i' and (c0.isdigit() or c0 == '-'):
            return int(t) & ((1 << ty[1]) - 1)
        if k == 'f':
            return self.fconst(t, ty)
        if t == '[':
            r = []
            while self.peek() != ']':
                et = self.type()
                r.append(self.const(et))
                self.accept(',')
            self.i += 1
            return r
        if t == '{':
            r = []
            while self.peek() != '}':
                et = self.type()
                r.append(self.const(et))
                self.accept(',')
            self.i += 1
            return r
        if t == '<':
            pk = self.peek() == '{'
            if pk:
                self.i += 1
            r = []
            while self.peek() not in ('}', '>'):
                et = self.type()
                r.append(self.const(et))
                self.accept(',')
            self.i += 1
            if pk:
                self.expect('>')
            return r
        if t == 'getelementptr':
            while self.peek() in ('inbounds', 'nuw', 'nusw'):
                self.i += 1
            if self.peek() == 'inrange':
                self.i += 1; self.skip_paren()
            self.expect('(')
            bt = self.type()
            self.expect(',')
            self.type()
            base = self.const(PTR)
            idx = []
            while self.accept(','):
                self.accept('inrange')
                it = self.type()
                v = self.const(it)
                if v >= 1 << (it[1] - 1):
                    v -= 1 << it[1]
                idx.append(v)
            self.expect(')')
            return (base + self.gep_off(bt, idx)) & (2**64 - 1)
        if t in ('bitcast', 'ptrtoint', 'inttoptr', 'addrspacecast', 'trunc', 'zext', 'sext'):
            self.expect('(')
            st = self.type()
            v = self.const(st)
            self.expect('to')
            dt = self.type()
            self.expect(')')
            if dt[0] == 'i':
                v &= (1 << dt[1]) - 1
            return v
        if t in ('add', 'sub', 'mul', 'xor', 'and', 'or', 'shl'):
            while self.peek() in ('nsw', 'nuw'):
                self.i += 1
            self.expect('(')
            at, a = self.tval()
            self.expect(',')
            bt, b = self.tval()
            self.expect(')')
            r = {'add': a + b, 'sub': a - b, 'mul': a * b, 'xor': a ^ b, 'and': a & b, 'or': a | b, 'shl': a << b}[t]
            return r & ((1 << at[1]) - 1)
        raise Unsupported('const %s of %r' % (t, ty))

    def gep_off(self, bt, idx):
        off = idx[0] * self.m.size(bt)
        ty = bt
        for v in idx[1:]:
            if ty[0] in ('a', 'v'):
                ty = ty[2]
                off += v * self.m.size(ty)
            elif ty[0] == 's':
                off += self.m.offsets(ty)[v]
                ty = ty[1][v]
            else:
                raise Unsupported('gep into %r' % (ty,))
        return off

    def _cstr(self, t):
        s = t[2:-1]
        out = bytearray()
        i = 0
        while i < len(s):
            if s[i] == '\\':
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
            else:
                out.append(ord(s[i]))
                i += 1
        return bytes(out)

    def fconst(self, t, ty):
        if t.startswith('0xK'):
            h = int(t[3:], 16)
            sign = h >> 79
            e = (h >> 64) & 0x7fff
            mant = h & (2**64 - 1)
            from fractions import Fraction
            if e == 0x7fff:
                return ('nanf', t)
            v = Fraction(mant) * Fraction(2) ** (e - 16383 - 63)
            return rat.rconst(-v if sign else v)
        if t.startswith('0x'):
            b = int(t, 16)
            x = struct.unpack('<d', struct.pack('<Q', b))[0]
        else:
            x = float(t)
        s = rat.snapf(x) if ty[1] == 32 else rat.snap(x)
        if s is None:
            return special(x)
        return rat.rconst(s)

    # ---- instructions
    FM = {'nsw', 'nuw', 'exact', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'disjoint', 'nneg'}

    def flags(self):
        while self.peek() in self.FM:
            self.i += 1

    def _bin(self, op, dst):
        self.flags()
        ty = self.type()
        a = self.val(ty)
        self.expect(',')
        b = self.val(ty)
        return (op, dst, ty, a, b)
    i_add = i_sub = i_mul = i_udiv = i_sdiv = i_urem = i_srem = i_shl = i_lshr = i_ashr = i_and = i_or = i_xor = _bin
    i_fadd = i_fsub = i_fmul = i_fdiv = i_frem = _bin

    def i_fneg(self, op, dst):
        self.flags()
        ty = self.type()
        return (op, dst, ty, self.val(ty))

    def i_freeze(self, op, dst):
        ty = self.type()
        return (op, dst, ty, self.val(ty))

    def i_icmp(self, op, dst):
        pred = self.next()
        ty = self.type()
        a = self.val(ty)
        self.expect(',')
        b = self.val(ty)
        return ('icmp', dst, pred, ty, a, b)

    def i_fcmp(self, op, dst):
        self.flags()
        pred = self.next()
        ty = self.type()
        a = self.val(ty)
        self.expect(',')
        b = self.val(ty)
        return ('fcmp', dst, pred, ty, a, b)

    def _cast(self, op, dst):
        self.flags()
        ty, v = self.tval()
        self.expect('to')
        t2 = self.type()
        return (op, dst, ty, v, t2)
    i_trunc = i_zext = i_sext = i_fptrunc = i_fpext = i_fptosi = i_fptoui = i_sitofp = i_uitofp = i_ptrtoint = i_inttoptr = i_bitcast = i_addrspacecast = _cast

    def i_alloca(self, op, dst):
        self.accept('inalloca')
        ty = self.type()
        n = 1
        if self.accept(','):
            if self.peek() == 'align':
                pass
            else:
                it, n = self.tval()
        return ('alloca', dst, ty, n)

    def i_load(self, op, dst):
        at = self.accept('atomic')
        self.accept('volatile')
        ty = self.type()
        self.expect(',')
        _, pv = self.tval()
        return ('load', dst, ty, pv, at, self.toks[self.i:] if at else None)

    def i_store(self, op, dst):
        at = self.accept('atomic')
        self.accept('volatile')
        ty, v = self.tval()
        self.expect(',')
        _, pv = self.tval()
        return ('store', None, ty, v, pv, at, self.toks[self.i:] if at else None)

    def i_getelementptr(self, op, dst):
        while self.peek() in ('inbounds', 'nuw', 'nusw'):
            self.i += 1
        bt = self.type()
        self.expect(',')
        _, base = self.tval()
        idx = []
        while self.accept(','):
            idx.append(self.tval())
        # precompute constant offset, and list of (index operand, bits, stride)
        off = 0
        var = []
        ty = bt
        for j, (it, v) in enumerate(idx):
            if j == 0:
                st = self.m.size(bt)
                if isinstance(v, str):
                    var.append((v, it[1], st))
                else:
                    off += sgn(v, it[1]) * st
            elif ty[0] in ('a', 'v'):
                ty = ty[2]
                st = self.m.size(ty)
                if isinstance(v, str):
                    var.append((v, it[1], st))
                else:
                    off += sgn(v, it[1]) * st
            else:
                off += self.m.offsets(ty)[v]
                ty = ty[1][v]
        return ('gep', dst, base, off, tuple(var))

    def i_br(self, op, dst):
        if self.accept('label'):
            return ('br', None, self.next())
        ty = self.type()
        c = self.val(ty)
        self.expect(',')
        self.expect('label')
        a = self.next()
        self.expect(',')
        self.expect('label')
        b = self.next()
        return ('cbr', None, c, a, b)

    def i_switch(self, op, dst):
        ty, v = self.tval()
        self.expect(',')
        self.expect('label')
        d = self.next()
        self.expect('[')
        cases = []
        while self.peek() != ']':
            ct = self.type()
            cv = self.const(ct)
            self.expect(',')
            self.expect('label')
            cases.append((cv, self.next()))
        return ('switch', None, ty, v, d, tuple(cases))

    def i_ret(self, op, dst):
        ty = self.type()
        if ty == VOID:
            return ('ret', None, None, None)
        return ('ret', None, ty, self.val(ty))

    def i_unreachable(self, op, dst):
        return ('unreachable', None)

    def i_phi(self, op, dst):
        self.flags()
        ty = self.type()
        inc = {}
        while True:
            self.expect('[')
            v = self.val(ty)
            self.expect(',')
            inc[self.next()] = v
            self.expect(']')
            if not self.accept(','):
                break
        return ('phi', dst, ty, inc)

    def i_select(self, op, dst):
        self.flags()
        ct, c = self.tval()
        self.expect(',')
        ty, a = self.tval()
        self.expect(',')
        _, b = self.tval()
        return ('select', dst, ty, c, a, b, ct)

    def i_extractvalue(self, op, dst):
        ty, v = self.tval()
        idx = []
        while self.accept(','):
            idx.append(int(self.next()))
        return ('extractvalue', dst, v, tuple(idx))

    def i_insertvalue(self, op, dst):
        ty, v = self.tval()
        self.expect(',')
        t2, e = self.tval()
        idx = []
        while self.accept(','):
            idx.append(int(self.next()))
        return ('insertvalue', dst, v, e, tuple(idx))

    def i_extractelement(self, op, dst):
        ty, v = self.tval()
        self.expect(',')
        _, i = self.tval()
        return ('extractelement', dst, v, i)

    def i_insertelement(self, op, dst):
        ty, v = self.tval()
        self.expect(',')
        _, e = self.tval()
        self.expect(',')
        _, i = self.tval()
        return ('insertelement', dst, v, e, i)

    def i_shufflevector(self, op, dst):
        t1, a = self.tval()
        self.expect(',')
        t2, b = self.tval()
        self.expect(',')
        t3, mk = self.tval()
        return ('shufflevector', dst, a, b, mk, t1[1])

    def i_landingpad(self, op, dst):
        ty = self.type()
        cleanup = self.accept('cleanup')
        clauses = []
        while self.peek() in ('catch', 'filter'):
            k = self.next()
            _, v = self.tval()
            clauses.append((k, v))
        return ('landingpad', dst, cleanup, tuple(clauses))

    def i_resume(self, op, dst):
        ty, v = self.tval()
        return ('resume', None, v)

    def i_fence(self, op, dst):
        return ('fence', None, tuple(self.toks[self.i:]))

    def i_cmpxchg(self, op, dst):
        weak = self.accept('weak')
        self.accept('volatile')
        _, pv = self.tval()
        self.expect(',')
        ty, a = self.tval()
        self.expect(',')
        _, b = self.tval()
        return ('cmpxchg', dst, ty, pv, a, b, weak, tuple(t for t in self.toks[self.i:] if t in ('monotonic', 'acquire', 'release', 'acq_rel', 'seq_cst')))

    def i_atomicrmw(self, op, dst):
        self.accept('volatile')
        kind = self.next()
        _, pv = self.tval()
        self.expect(',')
        ty, a = self.tval()
        return ('atomicrmw', dst, kind, ty, pv, a, tuple(t for t in self.toks[self.i:] if t in ('monotonic', 'acquire', 'release', 'acq_rel', 'seq_cst')))

    CC = {'fastcc', 'ccc', 'coldcc'}

    def i_tail(self, op, dst):
        self.expect('call')
        return self.i_call('call', dst)
    i_musttail = i_notail = i_tail

    def i_call(self, op, dst):
        return self._call(op, dst)

    def _call(self, op, dst):
        self.flags()
        while self.peek() in self.CC:
            self.i += 1
        self.attrs()
        ty = self.type()
        if ty[0] == 'fn':
            ty = ty[1]
        if self.peek() == 'asm':
            raise Unsupported('inline asm')
        callee = self.val(PTR) if self.peek()[0] != '@' else self.next()
        if isinstance(callee, str) and callee[0] == '@':
            callee = self.m.aliases.get(callee, callee)
        self.expect('(')
        args = []
        while self.peek() != ')':
            at = self.type()
            byval = self.attrs()
            if at[0] == 'metadata':
                # skip the metadata operand
                d = 0
                while not (d == 0 and self.peek() in (',', ')')):
                    t = self.next()
                    if t == '(':
                        d += 1
                    elif t == ')':
                        d -= 1
                args.append((at, None, None))
            else:
                args.append((at, self.val(at), byval))
            self.accept(',')
        self.i += 1
        return ('call', dst, ty, callee, tuple(args))

    def i_invoke(self, op, dst):
        c = self._call(op, dst)
        while self.peek() != 'to':
            self.i += 1
        self.expect('to')
        self.expect('label')
        a = self.next()
        self.expect('unwind')
        self.expect('label')
        b = self.next()
        return ('invoke',) + c[1:] + (a, b)

class Special:
    __slots__ = ('x',)
    def __init__(self, x): self.x = x
    def __repr__(self): return 'fp:%r' % self.x

def special(x):
    return Special(x)

def sgn(v, b):
    return v - (1 << b) if v >> (b - 1) else v
