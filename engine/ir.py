"""Parser for the textual LLVM IR (clang 18, opaque pointers) of a harness plus the
/repo templates it instantiates.  Produces pre-decoded functions for engine.symex."""

import re
import struct
from fractions import Fraction

TOK = re.compile(r'''
    (?P<ws>[ \t]+|;.*)
  | (?P<cstr>c"(?:[^"\\]|\\[0-9A-Fa-f]{2}|\\\\)*")
  | (?P<name>[%@$!](?:"[^"]*"|[-a-zA-Z$._0-9]+))
  | (?P<str>"(?:[^"])*")
  | (?P<hex>0x[KMLHR]?[0-9A-Fa-f]+)
  | (?P<num>-?[0-9]+(?:\.[0-9]*(?:[eE][-+]?[0-9]+)?)?)
  | (?P<word>[a-zA-Z_][-a-zA-Z0-9_.$]*:?)
  | (?P<attr>\#[0-9]+)
  | (?P<dots>\.\.\.)
  | (?P<punct>[\[\](){}<>,=*!:|])
''', re.X)


class IRError(Exception):
    pass


def tokenize(line):
    out = []
    pos = 0
    n = len(line)
    while pos < n:
        m = TOK.match(line, pos)
        if not m:
            raise IRError('cannot tokenize: ' + line[pos:pos + 60])
        pos = m.end()
        if m.lastgroup != 'ws':
            out.append(m.group())
    return out


# ---- types ----------------------------------------------------------------
class Ty:
    __slots__ = ('k', 'n', 'sub', 'packed', 'name', '_size', '_align', '_offs')

    def __init__(self, k, n=0, sub=None, packed=False, name=None):
        self.k = k
        self.n = n
        self.sub = sub
        self.packed = packed
        self.name = name
        self._size = None
        self._align = None
        self._offs = None

    def __repr__(self):
        if self.k == 'i':
            return 'i%d' % self.n
        if self.k == 'f':
            return self.name
        if self.k in ('arr', 'vec'):
            return '[%d x %r]' % (self.n, self.sub)
        return self.name or self.k


I = {n: Ty('i', n) for n in (1, 8, 16, 24, 32, 48, 64, 128)}
F = {n: Ty('f', b, name=n) for n, b in
     (('half', 2), ('float', 4), ('double', 8), ('x86_fp80', 16), ('bfloat', 2))}
PTR = Ty('ptr')
VOID = Ty('void')
META = Ty('meta')


def int_ty(n):
    if n not in I:
        I[n] = Ty('i', n)
    return I[n]


FLAGS = {'noundef', 'nonnull', 'signext', 'zeroext', 'inreg', 'noalias', 'nocapture',
         'readonly', 'writeonly', 'readnone', 'returned', 'nofree', 'immarg', 'nest',
         'noreturn', 'nounwind', 'dead_on_unwind', 'writable', 'swiftself', 'allocalign',
         'allocptr'}


class Module:
    def __init__(self):
        self.types = {}
        self.globals = {}      # name -> (Ty, init or None, is_const)
        self.funcs = {}        # name -> Func
        self.declared = set()

    # -- layout
    def resolve(self, t):
        while t.k == 'named':
            if t.name not in self.types:
                raise IRError('unknown type ' + t.name)
            t = self.types[t.name]
        return t

    def align(self, t):
        t = self.resolve(t)
        if t._align is None:
            k = t.k
            if k == 'i':
                s = (t.n + 7) // 8
                a = 1
                while a < s:
                    a *= 2
                t._align = min(a, 16)
            elif k == 'f':
                t._align = t.n
            elif k == 'ptr':
                t._align = 8
            elif k == 'arr':
                t._align = self.align(t.sub)
            elif k == 'vec':
                s = t.n * self.size(t.sub)
                a = 1
                while a < s:
                    a *= 2
                t._align = a
            elif k == 'struct':
                t._align = 1 if t.packed else max([self.align(x) for x in t.sub] or [1])
            else:
                t._align = 1
        return t._align

    def size(self, t):
        t = self.resolve(t)
        if t._size is None:
            k = t.k
            if k == 'i':
                s = (t.n + 7) // 8
                a = self.align(t)
                t._size = (s + a - 1) // a * a
            elif k == 'f':
                t._size = t.n
            elif k == 'ptr':
                t._size = 8
            elif k == 'arr':
                t._size = t.n * self.size(t.sub)
            elif k == 'vec':
                t._size = t.n * self.size(t.sub)
            elif k == 'struct':
                self.offsets(t)
            else:
                raise IRError('size of ' + k)
        return t._size

    def offsets(self, t):
        t = self.resolve(t)
        if t._offs is None:
            off = 0
            offs = []
            for x in t.sub:
                if not t.packed:
                    a = self.align(x)
                    off = (off + a - 1) // a * a
                offs.append(off)
                off += self.size(x)
            if not t.packed:
                a = self.align(t)
                off = (off + a - 1) // a * a
            t._offs = offs
            t._size = off
        return t._offs


class Func:
    def __init__(self, name, ret, params, vararg):
        self.name = name
        self.ret = ret
        self.params = params          # list of (Ty, regname)
        self.blocks = []              # list of list of Instr
        self.labels = {}
        self.ninstr = 0


class Parser:
    """Token-stream parser for one line/instruction."""

    def __init__(self, mod, toks):
        self.m = mod
        self.t = toks
        self.p = 0

    def peek(self, k=0):
        i = self.p + k
        return self.t[i] if i < len(self.t) else None

    def next(self):
        x = self.t[self.p]
        self.p += 1
        return x

    def accept(self, x):
        if self.p < len(self.t) and self.t[self.p] == x:
            self.p += 1
            return True
        return False

    def expect(self, x):
        y = self.next()
        if y != x:
            raise IRError('expected %s got %s in %s' % (x, y, ' '.join(self.t)))

    # types
    def is_type(self):
        t = self.peek()
        if t is None:
            return False
        if t in ('ptr', 'void', '[', '{', '<', 'float', 'double', 'half', 'x86_fp80',
                 'bfloat', 'metadata', 'label'):
            return True
        if re.fullmatch(r'i[0-9]+', t):
            return True
        return t[0] == '%'

    def type(self):
        t = self.next()
        if re.fullmatch(r'i[0-9]+', t):
            ty = int_ty(int(t[1:]))
        elif t in F:
            ty = F[t]
        elif t == 'ptr':
            if self.accept('addrspace'):
                self.expect('(')
                self.next()
                self.expect(')')
            ty = PTR
        elif t == 'void':
            ty = VOID
        elif t in ('metadata', 'label', 'token'):
            ty = META
        elif t == '[':
            n = int(self.next())
            self.expect('x')
            sub = self.type()
            self.expect(']')
            ty = Ty('arr', n, sub)
        elif t == '{':
            ty = self._struct('}', False)
        elif t == '<':
            if self.accept('{'):
                ty = self._struct('}', True)
                self.expect('>')
            else:
                n = int(self.next())
                self.expect('x')
                sub = self.type()
                self.expect('>')
                ty = Ty('vec', n, sub)
        elif t[0] == '%':
            ty = Ty('named', name=t)
        else:
            raise IRError('bad type token %s in %s' % (t, ' '.join(self.t)))
        # function type suffix:  ty (args)
        if self.peek() == '(' and ty is not None:
            save = self.p
            self.p += 1
            ok = True
            depth = 1
            while depth:
                x = self.next()
                if x == '(':
                    depth += 1
                elif x == ')':
                    depth -= 1
            # only a function type if followed by @name / %name (call with explicit fnty)
            if ok and self.peek() and self.peek()[0] in '@%':
                return Ty('func', sub=ty)
            self.p = save
        return ty

    def _struct(self, close, packed):
        sub = []
        while not self.accept(close):
            sub.append(self.type())
            self.accept(',')
        return Ty('struct', len(sub), sub, packed)

    def skip_attrs(self):
        while True:
            t = self.peek()
            if t is None:
                return
            if t in FLAGS or t.startswith('#'):
                self.p += 1
            elif t == 'align':
                self.p += 1
                if self.accept('('):
                    self.next()
                    self.expect(')')
                else:
                    self.next()
            elif t in ('dereferenceable', 'dereferenceable_or_null', 'sret', 'byval',
                       'range', 'memory', 'nofpclass', 'elementtype', 'captures', 'initializes',
                       'byref', 'inalloca', 'preallocated'):
                self.p += 1
                depth = 0
                while True:
                    x = self.next()
                    if x == '(':
                        depth += 1
                    elif x == ')':
                        depth -= 1
                        if depth == 0:
                            break
            else:
                return

    # values -> ('r', regname) | ('c', const)
    def value(self, ty):
        t = self.next()
        if t[0] == '%':
            return ('r', t)
        return ('c', self.const(ty, t))

    def const(self, ty, t=None):
        if t is None:
            t = self.next()
        rt = self.m.resolve(ty)
        if t[0] == '@':
            return ('global', t)
        if t in ('undef', 'poison'):
            return ('undef', ty)
        if t == 'zeroinitializer':
            return ('zero', ty)
        if t == 'null':
            return ('null',)
        if t == 'true':
            return ('int', 1)
        if t == 'false':
            return ('int', 0)
        if t.startswith('c"'):
            s = t[2:-1]
            out = bytearray()
            i = 0
            while i < len(s):
                if s[i] == '\\':
                    if s[i + 1] == '\\':
                        out.append(92)
                        i += 2
                    else:
                        out.append(int(s[i + 1:i + 3], 16))
                        i += 3
                else:
                    out.append(ord(s[i]))
                    i += 1
            return ('bytes', bytes(out))
        if rt.k == 'i' and re.fullmatch(r'-?[0-9]+', t):
            return ('int', int(t) & ((1 << rt.n) - 1))
        if rt.k == 'f':
            return ('fp', parse_fp(rt.name, t))
        if t in ('[', '{', '<'):
            if t == '<' and self.peek() == '{':
                self.next()
                elems = self._elems('}')
                self.expect('>')
            else:
                elems = self._elems({'[': ']', '{': '}', '<': '>'}[t])
            return ('agg', elems)
        if t == 'getelementptr':
            while self.peek() in ('inbounds', 'nuw', 'nusw') or self.peek() == 'inrange':
                self.next()
                if self.peek() == '(' and self.peek(-1) == 'inrange':
                    self.skip_paren()
            self.expect('(')
            bty = self.type()
            self.expect(',')
            pty = self.type()
            base = self.const(pty)
            idx = []
            while self.accept(','):
                self.accept('inrange')
                it = self.type()
                idx.append((it, self.const(it)))
            self.expect(')')
            return ('gep', bty, base, idx)
        if t in ('inttoptr', 'ptrtoint', 'bitcast', 'trunc', 'addrspacecast'):
            self.expect('(')
            st = self.type()
            v = self.const(st)
            self.expect('to')
            self.type()
            self.expect(')')
            return v
        if t in ('add', 'sub'):
            raise IRError('constant expr ' + t)
        raise IRError('bad const %s for %r in %s' % (t, ty, ' '.join(self.t)[:200]))

    def skip_paren(self):
        depth = 0
        while True:
            x = self.next()
            if x == '(':
                depth += 1
            elif x == ')':
                depth -= 1
                if depth == 0:
                    return

    def _elems(self, close):
        out = []
        while not self.accept(close):
            ty = self.type()
            out.append((ty, self.const(ty)))
            self.accept(',')
        return out

    def tyval(self):
        ty = self.type()
        self.skip_attrs()
        return ty, self.value(ty)


def parse_fp(name, t):
    """Returns Python float for half/float/double, Fraction (or float inf/nan) for x86_fp80."""
    if name == 'x86_fp80':
        if not t.startswith('0xK'):
            raise IRError('fp80 literal ' + t)
        bits = int(t[3:], 16)
        sign = bits >> 79
        ex = (bits >> 64) & 0x7fff
        man = bits & ((1 << 64) - 1)
        if ex == 0x7fff:
            return float('nan') if man << 1 & ((1 << 64) - 1) else float('-inf' if sign else 'inf')
        v = Fraction(man) * Fraction(2) ** (ex - 16383 - 63)
        return -v if sign else v
    if t.startswith('0xH'):
        return struct.unpack('<e', struct.pack('<H', int(t[3:], 16)))[0]
    if t.startswith('0x'):
        return struct.unpack('<d', struct.pack('<Q', int(t[2:], 16)))[0]
    return float(t)


class Ins:
    __slots__ = ('op', 'dst', 'ty', 'a', 'b', 'c', 'x', 'src')

    def __init__(self, op, dst=None, ty=None, a=None, b=None, c=None, x=None, src=''):
        self.op = op
        self.dst = dst
        self.ty = ty
        self.a = a
        self.b = b
        self.c = c
        self.x = x
        self.src = src

    def __repr__(self):
        return self.src


BIN = {'add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'shl', 'lshr', 'ashr', 'and', 'or',
       'xor', 'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CASTS = {'zext', 'sext', 'trunc', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext', 'fptrunc',
         'bitcast', 'ptrtoint', 'inttoptr', 'addrspacecast'}
FMF = {'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'fast'}


def parse_instr(mod, line):
    p = Parser(mod, tokenize(line))
    dst = None
    if p.peek(1) == '=':
        dst = p.next()
        p.next()
    op = p.next()
    if op in ('tail', 'musttail', 'notail'):
        op = p.next()
    if op in BIN:
        flags = set()
        while p.peek() in ('nsw', 'nuw', 'exact', 'disjoint') or p.peek() in FMF:
            flags.add(p.next())
        ty = p.type()
        a = p.value(ty)
        p.expect(',')
        b = p.value(ty)
        return Ins(op, dst, ty, a, b, x=flags, src=line)
    if op in CASTS:
        while p.peek() in ('nneg', 'nuw', 'nsw'):
            p.next()
        st = p.type()
        a = p.value(st)
        p.expect('to')
        ty = p.type()
        return Ins(op, dst, ty, a, x=st, src=line)
    if op == 'fneg':
        while p.peek() in FMF:
            p.next()
        ty = p.type()
        return Ins(op, dst, ty, p.value(ty), src=line)
    if op in ('icmp', 'fcmp'):
        while p.peek() in FMF:
            p.next()
        pred = p.next()
        ty = p.type()
        a = p.value(ty)
        p.expect(',')
        b = p.value(ty)
        return Ins(op, dst, ty, a, b, x=pred, src=line)
    if op == 'alloca':
        ty = p.type()
        n = None
        if p.accept(','):
            if p.peek() != 'align':
                n = p.tyval()
        return Ins(op, dst, ty, n, src=line)
    if op == 'load':
        p.accept('atomic')
        p.accept('volatile')
        ty = p.type()
        p.expect(',')
        p.type()
        return Ins(op, dst, ty, p.value(PTR), src=line)
    if op == 'store':
        p.accept('atomic')
        p.accept('volatile')
        ty = p.type()
        v = p.value(ty)
        p.expect(',')
        p.type()
        return Ins(op, None, ty, v, p.value(PTR), src=line)
    if op == 'getelementptr':
        while p.peek() in ('inbounds', 'nuw', 'nusw'):
            p.next()
        bty = p.type()
        p.expect(',')
        p.type()
        base = p.value(PTR)
        idx = []
        while p.accept(','):
            if p.peek()[0] == '!':
                break
            idx.append(p.tyval())
        return Ins(op, dst, bty, base, idx, src=line)
    if op == 'br':
        if p.accept('label'):
            return Ins('jmp', a=p.next(), src=line)
        p.type()
        c = p.value(I[1])
        p.expect(',')
        p.expect('label')
        a = p.next()
        p.expect(',')
        p.expect('label')
        b = p.next()
        return Ins('br', a=a, b=b, c=c, src=line)
    if op == 'switch':
        ty = p.type()
        v = p.value(ty)
        p.expect(',')
        p.expect('label')
        d = p.next()
        p.expect('[')
        cases = []
        while not p.accept(']'):
            ct = p.type()
            cv = p.const(ct)[1]
            p.expect(',')
            p.expect('label')
            cases.append((cv, p.next()))
        return Ins('switch', ty=ty, a=v, b=d, c=cases, src=line)
    if op == 'ret':
        ty = p.type()
        if ty.k == 'void':
            return Ins('ret', ty=ty, src=line)
        return Ins('ret', ty=ty, a=p.value(ty), src=line)
    if op == 'unreachable':
        return Ins('unreachable', src=line)
    if op == 'phi':
        while p.peek() in FMF:
            p.next()
        ty = p.type()
        inc = []
        while True:
            p.expect('[')
            v = p.value(ty)
            p.expect(',')
            lab = p.next()
            p.expect(']')
            inc.append((lab, v))
            if not p.accept(','):
                break
        return Ins('phi', dst, ty, a=dict(inc), src=line)
    if op == 'select':
        while p.peek() in FMF:
            p.next()
        ct = p.type()
        c = p.value(ct)
        p.expect(',')
        ty, a = p.tyval()
        p.expect(',')
        _, b = p.tyval()
        return Ins('select', dst, ty, a, b, c, src=line)
    if op == 'freeze':
        ty, a = p.tyval()
        return Ins('freeze', dst, ty, a, src=line)
    if op == 'extractvalue':
        ty, a = p.tyval()
        idx = []
        while p.accept(','):
            idx.append(int(p.next()))
        return Ins(op, dst, ty, a, x=idx, src=line)
    if op == 'insertvalue':
        ty, a = p.tyval()
        p.expect(',')
        ety, b = p.tyval()
        idx = []
        while p.accept(','):
            idx.append(int(p.next()))
        return Ins(op, dst, ty, a, b, x=idx, src=line)
    if op == 'extractelement':
        ty, a = p.tyval()
        p.expect(',')
        ity, i = p.tyval()
        return Ins(op, dst, ty, a, i, x=ity, src=line)
    if op == 'insertelement':
        ty, a = p.tyval()
        p.expect(',')
        ety, b = p.tyval()
        p.expect(',')
        ity, i = p.tyval()
        return Ins(op, dst, ty, a, b, i, src=line)
    if op == 'call':
        while p.peek() in FMF or p.peek() in ('fastcc', 'ccc', 'coldcc'):
            p.next()
        p.skip_attrs()
        rty = p.type()
        if rty.k == 'func':
            rty = rty.sub
        callee = p.next()
        if callee == 'asm':
            return Ins('asm', dst, rty, src=line)
        p.expect('(')
        args = []
        while not p.accept(')'):
            ty = p.type()
            if ty.k == 'meta':
                # metadata operand: skip to , or )
                while p.peek() not in (',', ')'):
                    p.next()
                p.accept(',')
                continue
            byval = None
            save = p.p
            p.skip_attrs()
            span = p.t[save:p.p]
            if 'byval' in span:
                q = Parser(mod, span[span.index('byval') + 2:])
                byval = q.type()
            args.append((ty, p.value(ty), byval))
            p.accept(',')
        return Ins('call', dst, rty, callee, args, src=line)
    if op in ('fence',):
        return Ins('nop', src=line)
    if op == 'atomicrmw' or op == 'cmpxchg' or op == 'invoke' or op == 'landingpad':
        return Ins('unsupported', dst, src=line)
    raise IRError('unknown instruction: ' + line)


def parse_module(text):
    mod = Module()
    lines = text.split('\n')
    i = 0
    n = len(lines)
    pending = []
    while i < n:
        line = lines[i].strip()
        i += 1
        if not line or line[0] == ';' or line[0] == '!' or line.startswith(('source_filename', 'target', 'attributes')):
            continue
        if line[0] == '$':
            continue
        if line[0] == '%':
            p = Parser(mod, tokenize(line))
            name = p.next()
            p.expect('=')
            p.expect('type')
            if p.accept('opaque'):
                t = Ty('struct', 0, [])
            else:
                t = p.type()
            t.name = name if t.k == 'struct' else t.name
            mod.types[name] = t
            continue
        if line[0] == '@':
            pending.append(line)
            continue
        if line.startswith('declare'):
            m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)', line)
            mod.declared.add('@' + m.group(1))
            continue
        if line.startswith('define'):
            body = []
            while lines[i].rstrip() != '}':
                s = lines[i].strip()
                if s.startswith('switch') and ']' not in s:
                    while ']' not in lines[i]:
                        i += 1
                        s += ' ' + lines[i].strip()
                if s:
                    body.append(s)
                i += 1
            i += 1
            f = parse_func(mod, line, body)
            mod.funcs[f.name] = f
            continue
        raise IRError('unknown top-level: ' + line)
    for line in pending:
        parse_global(mod, line)
    return mod


LINK = {'private', 'internal', 'external', 'linkonce_odr', 'linkonce', 'weak', 'weak_odr',
        'common', 'appending', 'dso_local', 'unnamed_addr', 'local_unnamed_addr', 'hidden',
        'protected', 'available_externally', 'extern_weak', 'default', 'thread_local',
        'externally_initialized', 'dso_preemptable'}


def parse_global(mod, line):
    p = Parser(mod, tokenize(line))
    name = p.next()
    p.expect('=')
    ext = False
    while p.peek() in LINK:
        w = p.next()
        if w in ('external', 'extern_weak'):
            ext = True
    if p.peek() == 'alias':
        p.next()
        p.type()
        p.expect(',')
        p.type()
        mod.globals[name] = (None, ('alias', p.next()), True)
        return
    kind = p.next()      # global / constant
    ty = p.type()
    init = None
    if not ext and p.peek() is not None and p.peek() != ',':
        init = p.const(ty)
    mod.globals[name] = (ty, init, kind == 'constant')


def parse_func(mod, header, body):
    h = header[len('define'):]
    p = Parser(mod, tokenize(h))
    while not p.is_type() or p.peek() in LINK:
        if p.is_type() and p.peek() not in LINK:
            break
        t = p.peek()
        if t in LINK or t in ('fastcc', 'ccc'):
            p.next()
        else:
            before = p.p
            p.skip_attrs()
            if p.p == before:
                raise IRError('func header: ' + header)
    ret = p.type()
    if ret.k == 'func':
        ret = ret.sub
        # type() swallowed "(...)": cannot happen for definitions
        raise IRError('func type in header')
    p.skip_attrs()
    name = p.next()
    p.expect('(')
    params = []
    vararg = False
    k = 0
    while not p.accept(')'):
        if p.accept('...'):
            vararg = True
            continue
        ty = p.type()
        p.skip_attrs()
        if p.peek() and p.peek()[0] == '%':
            params.append((ty, p.next()))
        else:
            params.append((ty, '%%%d' % k))
        k += 1
        p.accept(',')
    f = Func(name, ret, params, vararg)
    cur = []
    label = None
    for s in body:
        m = re.match(r'^("[^"]*"|[-a-zA-Z$._0-9]+):(\s|$)', s)
        if m:
            if label is None and not cur:
                label = '%' + m.group(1)
            else:
                f.blocks.append((label, cur))
                cur = []
                label = '%' + m.group(1)
            continue
        cur.append(parse_instr(mod, s))
    f.blocks.append((label, cur))
    # entry label: implicit number = count of unnamed params
    lab0 = f.blocks[0][0]
    if lab0 is None:
        nun = sum(1 for _, r in params if re.fullmatch(r'%[0-9]+', r))
        f.blocks[0] = ('%%%d' % nun, f.blocks[0][1])
    f.labels = {lab: i for i, (lab, _) in enumerate(f.blocks)}
    f.code = [ins for _, ins in f.blocks]
    f.ninstr = sum(len(x) for x in f.code)
    analyse(f)
    return f


def succs(f, bi):
    t = f.code[bi][-1]
    if t.op == 'jmp':
        return [f.labels[t.a]]
    if t.op == 'br':
        return [f.labels[t.a], f.labels[t.b]]
    if t.op == 'switch':
        return [f.labels[t.b]] + [f.labels[l] for _, l in t.c]
    return []


def analyse(f):
    """RPO numbering and natural loop nest (for merge ordering)."""
    n = len(f.code)
    sc = [succs(f, i) for i in range(n)]
    seen = [False] * n
    post = []
    stack = [(0, iter(sc[0]))]
    seen[0] = True
    while stack:
        b, it = stack[-1]
        for s in it:
            if not seen[s]:
                seen[s] = True
                stack.append((s, iter(sc[s])))
                break
        else:
            post.append(b)
            stack.pop()
    order = {b: i for i, b in enumerate(reversed(post))}
    f.rpo = [order.get(i, 10 ** 6 + i) for i in range(n)]
    pred = [[] for _ in range(n)]
    for i in range(n):
        if seen[i]:
            for s in sc[i]:
                pred[s].append(i)
    # dominators (iterative)
    dom = {0: {0}}
    rp = list(reversed(post))
    allb = set(rp)
    for b in rp[1:]:
        dom[b] = allb
    changed = True
    while changed:
        changed = False
        for b in rp[1:]:
            ps = [dom[q] for q in pred[b]]
            nd = set.intersection(*ps) | {b} if ps else {b}
            if nd != dom[b]:
                dom[b] = nd
                changed = True
    loops = {}
    for b in rp:
        for s in sc[b]:
            if s in dom[b]:
                body = loops.setdefault(s, {s})
                work = [b]
                while work:
                    x = work.pop()
                    if x not in body:
                        body.add(x)
                        work.extend(pred[x])
    f.loops = loops
    # nesting chain per block, outermost first
    f.nest = []
    for b in range(n):
        hs = [h for h, body in loops.items() if b in body]
        hs.sort(key=lambda h: -len(loops[h]))
        f.nest.append(tuple(hs))
    f.succ = sc
