"""Reader for textual LLVM IR as printed by clang 18.  Functions are parsed lazily."""
import re

class Unsupported(Exception):
    pass

# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ('k', 'n', 'e', 'packed', '_lay')
    # k: 'i' (n bits), 'f' (n bits), 'p', 'v', 'a' (n x e), 's' (e = list), 'x' (vector n x e), 'other'
    def __init__(self, k, n=0, e=None, packed=False):
        self.k = k; self.n = n; self.e = e; self.packed = packed; self._lay = None
    def __repr__(self):
        return {'i': 'i%d' % self.n, 'f': 'f%d' % self.n, 'p': 'ptr', 'v': 'void'}.get(self.k) or \
            ('[%d x %r]' % (self.n, self.e) if self.k in 'ax' else '{%s}' % ', '.join(map(repr, self.e)) if self.k == 's' else self.k)

VOID = Ty('v'); PTR = Ty('p'); OTHER = Ty('other')
_ints = {}
def I(n):
    t = _ints.get(n)
    if t is None:
        t = _ints[n] = Ty('i', n)
    return t
FLOATS = {'float': Ty('f', 32), 'double': Ty('f', 64), 'x86_fp80': Ty('f', 80), 'half': Ty('f', 16)}

TOK = re.compile(r'''\s*(?:
   (?P<str>c?"(?:[^"\\]|\\.)*")
 | (?P<loc>[%@](?:"(?:[^"\\]|\\.)*"|[-\w$.]+))
 | (?P<meta>![\w.]*(?:\([^()]*\))?)
 | (?P<attr>\#\d+)
 | (?P<num>-?\d+\.\d+(?:e[+-]?\d+)?|-?0x[KLMHR]?[0-9A-Fa-f]+|-?\d+)
 | (?P<word>[A-Za-z_][\w.]*)
 | (?P<dots>\.\.\.)
 | (?P<p>[\[\](){}<>,=*:|])
)''', re.X)

def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    while pos < n:
        m = TOK.match(s, pos)
        if not m:
            if s[pos:].strip() == '':
                break
            raise Unsupported('tokenize: %r' % s[pos:pos + 60])
        out.append(m.group().strip())
        pos = m.end()
    return out

PARAM_ATTRS = {'noundef', 'nonnull', 'zeroext', 'signext', 'inreg', 'noalias', 'nocapture', 'readonly', 'writeonly',
               'readnone', 'returned', 'nofree', 'immarg', 'noext', 'swiftself', 'nest', 'writable', 'allocptr',
               'dead_on_unwind', 'nofpclass'}
CALL_PREFIX = {'tail', 'musttail', 'notail', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc',
               'ccc', 'fastcc', 'coldcc', 'x86_thiscallcc', 'volatile', 'inbounds', 'nuw', 'nsw', 'exact', 'disjoint',
               'nneg', 'atomic'}
FMF = {'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'}


class P:
    """token cursor"""
    def __init__(self, mod, toks):
        self.m = mod; self.t = toks; self.i = 0
    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else None
    def next(self):
        r = self.t[self.i]; self.i += 1
        return r
    def accept(self, s):
        if self.i < len(self.t) and self.t[self.i] == s:
            self.i += 1
            return True
        return False
    def expect(self, s):
        r = self.next()
        if r != s:
            raise Unsupported('expected %r got %r in %s' % (s, r, ' '.join(self.t)))
    def skip_parens(self):
        self.expect('(')
        d = 1
        while d:
            t = self.next()
            if t == '(':
                d += 1
            elif t == ')':
                d -= 1

    def type(self):
        t = self.next()
        if t[0] == 'i' and t[1:].isdigit():
            r = I(int(t[1:]))
        elif t == 'ptr':
            r = PTR
            if self.peek() == 'addrspace':
                self.next(); self.skip_parens()
        elif t == 'void':
            r = VOID
        elif t in FLOATS:
            r = FLOATS[t]
        elif t == '[':
            n = int(self.next()); self.expect('x'); e = self.type(); self.expect(']')
            r = Ty('a', n, e)
        elif t == '{':
            r = self._struct('}', False)
        elif t == '<':
            if self.accept('{'):
                r = self._struct('}', True); self.expect('>')
            else:
                n = int(self.next()); self.expect('x'); e = self.type(); self.expect('>')
                r = Ty('x', n, e)
        elif t[0] == '%':
            r = self.m.named_type(t)
        elif t in ('metadata', 'label', 'token', 'opaque'):
            r = OTHER
        else:
            raise Unsupported('type %r in %s' % (t, ' '.join(self.t)))
        # function type suffix, e.g. "i32 (ptr, ...)"
        if self.peek() == '(' :
            save = self.i
            self.skip_parens()
            if self.peek() and (self.peek()[0] in '@%'):
                pass     # function type in a call: keep the return type
            else:
                self.i = save
        return r

    def _struct(self, close, packed):
        e = []
        while not self.accept(close):
            e.append(self.type()); self.accept(',')
        return Ty('s', 0, e, packed)

    def attrs(self):
        """parameter / return attributes; returns dict"""
        d = {}
        while True:
            t = self.peek()
            if t is None:
                return d
            if t in PARAM_ATTRS:
                self.next(); d[t] = True
                if self.peek() == '(' and t in ('nofpclass',):
                    self.skip_parens()
            elif t in ('dereferenceable', 'dereferenceable_or_null', 'allocsize', 'align', 'captures', 'memory', 'initializes'):
                self.next()
                if t == 'align' and self.peek() != '(':
                    d['align'] = int(self.next())
                else:
                    self.skip_parens()
            elif t in ('byval', 'sret', 'elementtype', 'inalloca', 'byref', 'preallocated'):
                self.next(); self.expect('('); d[t] = self.type(); self.expect(')')
            elif t.startswith('"'):
                self.next()
                if self.accept('='):
                    self.next()
            else:
                return d

    # operand of given type -> operand tuple
    #  ('r', name) | ('c', pyvalue) | ('g', name, off) | ('z',) zero | ('u',) undef | ('agg', [...]) | ('ce', ...)
    def value(self, ty):
        t = self.next()
        c = t[0]
        if c == '%':
            return ('r', t)
        if c == '@':
            return ('g', t)
        if t in ('true', 'false'):
            return ('c', 1 if t == 'true' else 0)
        if t == 'null':
            return ('c', 0)
        if t == 'zeroinitializer':
            return ('z',)
        if t in ('undef', 'poison'):
            return ('u',)
        if t == 'none':
            return ('c', 0)
        if c.isdigit() or c == '-':
            if ty.k == 'f':
                return ('c', parse_fp(t, ty))
            return ('c', int(t) & ((1 << ty.n) - 1) if ty.k == 'i' else int(t))
        if t.startswith('c"'):
            return ('bytes', unescape(t[2:-1]))
        if t in ('[', '{', '<'):
            close = {'[': ']', '{': '}', '<': '>'}[t]
            packed = False
            if t == '<' and self.peek() == '{':
                self.next(); close = '}'; packed = True
            items = []
            while not self.accept(close):
                et = self.type(); items.append((et, self.value(et))); self.accept(',')
            if packed:
                self.expect('>')
            return ('agg', items)
        if t == 'getelementptr':
            while self.peek() in ('inbounds', 'nuw', 'nusw', 'inrange'):
                q = self.next()
                if q == 'inrange' and self.peek() == '(':
                    self.skip_parens()
            self.expect('(')
            bt = self.type(); self.expect(',')
            self.type(); base = self.value(PTR)
            idx = []
            while self.accept(','):
                self.accept('inrange')
                it = self.type(); idx.append((it, self.value(it)))
            self.expect(')')
            return ('cgep', bt, base, idx)
        if t in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext', 'addrspacecast'):
            self.expect('(')
            ft = self.type(); v = self.value(ft); self.expect('to'); tt = self.type(); self.expect(')')
            return ('ccast', t, ft, v, tt)
        if t in ('add', 'sub'):
            while self.peek() in ('nuw', 'nsw'):
                self.next()
            self.expect('(')
            a = self.type(); x = self.value(a); self.expect(','); b = self.type(); y = self.value(b); self.expect(')')
            return ('cbin', t, a, x, y)
        raise Unsupported('operand %r in %s' % (t, ' '.join(self.t)))


def parse_fp(t, ty):
    import struct
    if t.startswith('0x'):
        if t[2] in 'KLMHR':
            return int(t[3:], 16)
        bits = int(t[2:], 16)
        if ty.n == 64:
            return bits
        f = struct.unpack('<d', struct.pack('<Q', bits))[0]
        import math
        if math.isnan(f):
            s = bits >> 63; man = (bits & ((1 << 52) - 1)) >> 29
            return (s << 31) | (0xff << 23) | man
        return struct.unpack('<I', struct.pack('<f', f))[0]
    f = float(t)
    if ty.n == 64:
        return struct.unpack('<Q', struct.pack('<d', f))[0]
    if ty.n == 32:
        return struct.unpack('<I', struct.pack('<f', f))[0]
    raise Unsupported('fp const ' + t)


def unescape(s):
    out = bytearray(); i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\':
                out.append(92); i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16)); i += 3
        else:
            out.append(ord(s[i])); i += 1
    return bytes(out)


class Func:
    __slots__ = ('name', 'ret', 'params', 'attrs', 'body', 'blocks', 'entry', 'header', 'vararg', 'defined', '_parsed')


class Module:
    def __init__(self, path):
        self.types = {}
        self.type_src = {}
        self.globals = {}      # name -> (ty, init tokens or None, const)
        self.global_src = {}
        self.funcs = {}
        self.func_src = {}
        self.attr_groups = {}
        self.ptrsize = 8
        self.lkey = None
        self.align = {}
        self._read(path)

    def _read(self, path):
        with open(path) as f:
            lines = f.read().split('\n')
        i = 0
        n = len(lines)
        while i < n:
            l = lines[i]
            if not l or l[0] == ';':
                i += 1; continue
            c = l[0]
            if c == '%':
                name, rest = l.split(' = type ', 1)
                self.type_src[name] = rest
            elif c == '@':
                m = re.match(r'(@(?:"(?:[^"\\]|\\.)*"|[-\w$.]+)) = (.*)$', l)
                self.global_src[m.group(1)] = m.group(2)
            elif l.startswith('define'):
                j = i + 1
                while lines[j] != '}':
                    j += 1
                m = re.search(r'(@(?:"(?:[^"\\]|\\.)*"|[-\w$.]+))\(', l)
                self.func_src[m.group(1)] = (l, lines[i + 1:j], True)
                i = j
            elif l.startswith('declare'):
                m = re.search(r'(@(?:"(?:[^"\\]|\\.)*"|[-\w$.]+))\(', l)
                self.func_src[m.group(1)] = (l, None, False)
            elif l.startswith('attributes'):
                m = re.match(r'attributes (#\d+) = \{(.*)\}', l)
                self.attr_groups[m.group(1)] = set(re.findall(r'(?<!["\w-])[a-z]+(?![\w="-])', m.group(2)))
            elif l.startswith('target datalayout'):
                self._layout(l.split('"')[1])
            i += 1

    def _layout(self, s):
        al = {('i', 1): 1, ('i', 8): 1, ('i', 16): 2, ('i', 32): 4, ('i', 64): 4, ('i', 128): 8,
              ('f', 32): 4, ('f', 64): 8, ('f', 80): 16, ('f', 16): 2}
        for p in s.split('-'):
            f = p.split(':')
            if f[0] == 'p':
                self.ptrsize = int(f[1]) // 8
            elif f[0][:1] in 'if' and f[0][1:].isdigit():
                al[(f[0][0], int(f[0][1:]))] = int(f[1]) // 8
        self.align = al
        self.lkey = s

    def named_type(self, name):
        t = self.types.get(name)
        if t is None:
            t = Ty('s', 0, [])
            self.types[name] = t
            src = self.type_src.get(name)
            if src is None:
                raise Unsupported('type ' + name)
            if src != 'opaque':
                r = P(self, tokenize(src)).type()
                t.e = r.e; t.packed = r.packed; t.k = r.k; t.n = r.n
        return t

    # ---- layout
    def layout(self, t):
        """(size, align, offsets)"""
        if t._lay is not None and t._lay[0] == self.lkey:
            return t._lay[1]
        k = t.k
        if k == 'i':
            n = t.n
            if n <= 8: r = (1, 1, None)
            else:
                b = 1
                while b * 8 < n: b *= 2
                a = self.align.get(('i', b * 8), b)
                sz = (n + 7) // 8
                sz = (sz + a - 1) // a * a
                r = (sz, a, None)
        elif k == 'f':
            a = self.align[('f', t.n)]
            sz = t.n // 8
            r = ((sz + a - 1) // a * a, a, None)
        elif k == 'p':
            r = (self.ptrsize, self.ptrsize, None)
        elif k == 'a':
            s, a, _ = self.layout(t.e)
            r = (s * t.n, a, None)
        elif k == 'x':
            s, a, _ = self.layout(t.e)
            b = 1
            while b < s * t.n: b *= 2
            r = (b, b, None)
        elif k == 's':
            off = 0; al = 1; offs = []
            for e in t.e:
                s, a, _ = self.layout(e)
                if t.packed: a = 1
                off = (off + a - 1) // a * a
                offs.append(off); off += s; al = max(al, a)
            off = (off + al - 1) // al * al
            r = (off, al, offs)
        else:
            raise Unsupported('layout of %r' % t)
        t._lay = (self.lkey, r)     # primitive types are shared between modules of different targets
        return r

    def size(self, t):
        return self.layout(t)[0]

    def store_size(self, t):
        if t.k == 'i':
            return (t.n + 7) // 8
        if t.k == 'f':
            return t.n // 8
        return self.size(t)

    # ---- functions
    def func(self, name):
        f = self.funcs.get(name)
        if f is not None:
            return f
        src = self.func_src.get(name)
        if src is None:
            return None
        header, body, defined = src
        f = Func()
        f.name = name; f.header = header; f.body = body; f.defined = defined; f._parsed = False; f.blocks = None
        p = P(self, tokenize(header.rstrip('{').rstrip()))
        # skip to return type: find the @name token position, walk
        at = p.t.index(name)
        # parameters
        q = P(self, p.t); q.i = at + 1
        q.expect('(')
        f.params = []; f.vararg = False
        while not q.accept(')'):
            if q.accept('...'):
                f.vararg = True; continue
            ty = q.type(); a = q.attrs()
            nm = None
            if q.peek() and q.peek()[0] == '%':
                nm = q.next()
            f.params.append((ty, a, nm))
            q.accept(',')
        rest = q.t[q.i:]
        at_set = set()
        for t in rest:
            if t.startswith('#'):
                at_set |= self.attr_groups.get(t, set())
            else:
                at_set.add(t)
        f.attrs = at_set
        # return type: parse backwards is hard; scan forward skipping linkage words
        r = P(self, p.t[:at]); r.i = 1
        while True:
            t = r.peek()
            if t is None:
                raise Unsupported('header ' + header)
            save = r.i
            if t in PARAM_ATTRS or t in ('dereferenceable', 'align'):
                r.attrs(); continue
            if t in ('linkonce_odr', 'internal', 'weak_odr', 'private', 'external', 'dso_local', 'hidden', 'available_externally',
                     'weak', 'local_unnamed_addr', 'unnamed_addr', 'protected', 'extern_weak', 'linkonce', 'fastcc', 'ccc', 'range'):
                r.next()
                if r.peek() == '(':
                    r.skip_parens()
                continue
            f.ret = r.type()
            break
        self.funcs[name] = f
        return f

    def blocks(self, f):
        if f._parsed:
            return f.blocks
        blocks = {}
        cur = None
        order = []
        # join multi-line instructions
        lines = []
        buf = None
        for l in f.body:
            s = l.split(' ; ')[0].strip() if ('; preds' in l or ' ; ' in l) and '"' not in l else l.strip()
            if not s or s[0] == ';':
                continue
            if buf is not None:
                buf += ' ' + s
                if buf_kind == 'switch':
                    if s == ']' or s.startswith(']'):
                        lines.append(buf); buf = None
                elif buf_kind == 'invoke':
                    if 'unwind label' in s:
                        lines.append(buf); buf = None
                continue
            if re.match(r'(?:%\S+ = )?invoke ', s) and 'unwind label' not in s:
                buf = s; buf_kind = 'invoke'; continue
            if s.startswith('switch ') and ']' not in s.split('[', 1)[-1]:
                buf = s; buf_kind = 'switch'; continue
            if re.match(r'(catch|filter|cleanup)(\s|$)', s):
                lines[-1] += ' ' + s
                continue
            lines.append(s)
        first = True
        for s in lines:
            m = re.match(r'^("(?:[^"\\]|\\.)*"|[-\w$.]+):', s)
            if m:
                cur = '%' + m.group(1); blocks[cur] = []; order.append(cur); first = False
                continue
            if first:
                cur = '%__entry'; blocks[cur] = []; order.append(cur); first = False
            blocks[cur].append(s)
        # The entry block has an implicit number equal to the count of params when unnamed.
        f.entry = order[0]
        if f.entry == '%__entry':
            k = sum(1 for (_, _, nm) in f.params if nm is None or re.match(r'%\d+$', nm))
            blocks['%%%d' % k] = blocks['%__entry']; del blocks['%__entry']; f.entry = '%%%d' % k
        out = {}
        for b, ls in blocks.items():
            out[b] = [self.instr(s, f) for s in ls]
        f.blocks = out
        f._parsed = True
        return out

    def instr(self, s, f):
        t = tokenize(s)
        p = P(self, t)
        dst = None
        if len(t) > 1 and t[1] == '=':
            dst = p.next(); p.next()
        op = p.next()
        while op in ('tail', 'musttail', 'notail'):
            op = p.next()
        if op == 'alloca':
            p.accept('inalloca')
            ty = p.type(); n = ('c', 1)
            while p.accept(','):
                if p.peek() == 'align':
                    p.next(); p.next()
                else:
                    it = p.type(); n = p.value(it)
            return ('alloca', dst, ty, n)
        if op == 'load':
            while p.peek() in ('volatile', 'atomic'):
                p.next()
            ty = p.type(); p.expect(','); p.type(); a = p.value(PTR)
            return ('load', dst, ty, a)
        if op == 'store':
            while p.peek() in ('volatile', 'atomic'):
                p.next()
            ty = p.type(); v = p.value(ty); p.expect(','); p.type(); a = p.value(PTR)
            return ('store', None, ty, v, a)
        if op == 'getelementptr':
            while p.peek() in ('inbounds', 'nuw', 'nusw'):
                p.next()
            bt = p.type(); p.expect(','); p.type(); b = p.value(PTR)
            idx = []
            while p.accept(','):
                if p.peek().startswith('!'):
                    break
                it = p.type(); idx.append((it, p.value(it)))
            return ('gep', dst, bt, b, idx)
        if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'):
            fl = set()
            while p.peek() in ('nuw', 'nsw', 'exact', 'disjoint'):
                fl.add(p.next())
            ty = p.type(); a = p.value(ty); p.expect(','); b = p.value(ty)
            return ('bin', dst, op, ty, a, b, fl)
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            fl = set()
            while p.peek() in FMF:
                fl.add(p.next())
            ty = p.type(); a = p.value(ty); p.expect(','); b = p.value(ty)
            return ('fbin', dst, op, ty, a, b, fl)
        if op == 'fneg':
            while p.peek() in FMF:
                p.next()
            ty = p.type(); a = p.value(ty)
            return ('fneg', dst, ty, a)
        if op == 'icmp':
            p.accept('samesign')
            pr = p.next(); ty = p.type(); a = p.value(ty); p.expect(','); b = p.value(ty)
            return ('icmp', dst, pr, ty, a, b)
        if op == 'fcmp':
            fl = set()
            while p.peek() in FMF:
                fl.add(p.next())
            pr = p.next(); ty = p.type(); a = p.value(ty); p.expect(','); b = p.value(ty)
            return ('fcmp', dst, pr, ty, a, b, fl)
        if op in ('trunc', 'zext', 'sext', 'bitcast', 'ptrtoint', 'inttoptr', 'fptrunc', 'fpext', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'addrspacecast'):
            while p.peek() in ('nuw', 'nsw', 'nneg') or p.peek() in FMF:
                p.next()
            ft = p.type(); v = p.value(ft); p.expect('to'); tt = p.type()
            return ('cast', dst, op, ft, v, tt)
        if op == 'br':
            if p.accept('label'):
                return ('br', None, p.next())
            p.type(); c = p.value(I(1)); p.expect(','); p.expect('label'); a = p.next(); p.expect(','); p.expect('label'); b = p.next()
            return ('cbr', None, c, a, b)
        if op == 'switch':
            ty = p.type(); v = p.value(ty); p.expect(','); p.expect('label'); d = p.next(); p.expect('[')
            cases = []
            while not p.accept(']'):
                ct = p.type(); cv = p.value(ct); p.expect(','); p.expect('label'); cases.append((cv[1], p.next()))
            return ('switch', None, ty, v, d, cases)
        if op == 'ret':
            ty = p.type()
            if ty.k == 'v':
                return ('ret', None, ty, None)
            return ('ret', None, ty, p.value(ty))
        if op == 'unreachable':
            return ('unreachable', None)
        if op == 'select':
            while p.peek() in FMF:
                p.next()
            ct = p.type(); c = p.value(ct); p.expect(','); ty = p.type(); a = p.value(ty); p.expect(','); p.type(); b = p.value(ty)
            return ('select', dst, c, ty, a, b)
        if op == 'phi':
            while p.peek() in FMF:
                p.next()
            ty = p.type(); inc = []
            while True:
                p.expect('['); v = p.value(ty); p.expect(','); l = p.next(); p.expect(']'); inc.append((v, l))
                if not p.accept(','):
                    break
                if p.peek().startswith('!'):
                    break
            return ('phi', dst, ty, inc)
        if op == 'extractvalue':
            ty = p.type(); v = p.value(ty); idx = []
            while p.accept(','):
                idx.append(int(p.next()))
            return ('extractvalue', dst, ty, v, idx)
        if op == 'insertvalue':
            ty = p.type(); v = p.value(ty); p.expect(','); et = p.type(); ev = p.value(et); idx = []
            while p.accept(','):
                idx.append(int(p.next()))
            return ('insertvalue', dst, ty, v, ev, idx, et)
        if op == 'freeze':
            ty = p.type(); v = p.value(ty)
            return ('freeze', dst, ty, v)
        if op == 'landingpad':
            ty = p.type(); cl = []; cleanup = False
            while p.peek() is not None:
                w = p.next()
                if w == 'cleanup':
                    cleanup = True
                elif w in ('catch', 'filter'):
                    ct = p.type(); cl.append((w, p.value(ct)))
                else:
                    break
            return ('landingpad', dst, cleanup, cl)
        if op == 'resume':
            ty = p.type()
            return ('resume', None, ty, p.value(ty))
        if op in ('call', 'invoke'):
            fl = set()
            while p.peek() in CALL_PREFIX or p.peek() in ('range',):
                w = p.next(); fl.add(w)
                if w == 'range':
                    p.skip_parens()
            p.attrs()
            rt = p.type()
            callee = p.value(PTR)
            p.expect('(')
            args = []
            while not p.accept(')'):
                at = p.type()
                if at.k == 'other':   # metadata
                    d = 0
                    while not (d == 0 and p.peek() in (',', ')')):
                        w = p.next()
                        if w == '(': d += 1
                        elif w == ')': d -= 1
                    args.append((at, {}, ('u',)))
                else:
                    a = p.attrs(); args.append((at, a, p.value(at)))
                p.accept(',')
            attrs = set()
            normal = unw = None
            while p.peek() is not None:
                w = p.next()
                if w.startswith('#'):
                    attrs |= self.attr_groups.get(w, set())
                elif w == 'to':
                    p.expect('label'); normal = p.next()
                elif w == 'unwind':
                    p.expect('label'); unw = p.next()
                elif w == ',' or w.startswith('!'):
                    pass
                else:
                    attrs.add(w)
            return (op, dst, rt, callee, args, attrs, normal, unw, fl)
        raise Unsupported('instruction ' + s)

    def global_init(self, name):
        """-> (type, init operand or None)"""
        g = self.globals.get(name)
        if g is not None:
            return g
        src = self.global_src.get(name)
        if src is None:
            return None
        toks = tokenize(src)
        p = P(self, toks)
        external = False
        while True:
            t = p.peek()
            if t in ('global', 'constant'):
                p.next(); const = t == 'constant'; break
            if t in ('external', 'extern_weak', 'available_externally'):
                external = True
            if t == 'alias':
                p.next(); p.type(); p.expect(','); p.type(); v = p.value(PTR)
                g = ('alias', v, True); self.globals[name] = g
                return g
            p.next()
            if p.peek() == '(':
                p.skip_parens()
        ty = p.type()
        init = None
        if not external:
            init = p.value(ty)
        g = (ty, init, const)
        self.globals[name] = g
        return g
