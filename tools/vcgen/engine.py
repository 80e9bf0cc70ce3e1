"""Verification-condition generator: symbolic execution of LLVM IR over full-domain inputs, all paths.

Every contract is a C++ function vpc__<props>__<name> in a spec translation unit.  The engine runs it from an
unconstrained start, forks at every symbolic branch, and emits an obligation for every vp_assert, every memory
access, every bool load, every ghost lifetime transition, every frame restriction, every reachable assertion
failure / terminate / abort / unreachable.  Obligations are discharged by z3 (path condition => obligation).
"""
import time
import z3
from .ir import Unsupported, I, PTR

sys_limit = None


class Ptr:
    __slots__ = ('o', 'f')
    def __init__(self, o, f):
        self.o = o; self.f = f
    def __repr__(self):
        return 'Ptr(%s,%s)' % (self.o, self.f)


class Obj:
    __slots__ = ('size', 'cells', 'alive', 'kind', 'name', 'owner')
    def __init__(self, size, kind, name, owner):
        self.size = size; self.cells = [None] * size; self.alive = True; self.kind = kind; self.name = name; self.owner = owner
    def clone(self, owner):
        o = Obj.__new__(Obj)
        o.size = self.size; o.cells = list(self.cells); o.alive = self.alive; o.kind = self.kind; o.name = self.name; o.owner = owner
        return o


class Frame:
    __slots__ = ('f', 'blocks', 'code', 'ip', 'regs', 'allocas', 'blk', 'prev', 'site', 'stubmode')
    def __init__(self, f, blocks):
        self.f = f; self.blocks = blocks; self.blk = f.entry; self.code = blocks[f.entry]; self.ip = 0
        self.regs = {}; self.allocas = []; self.prev = None; self.site = None; self.stubmode = 0
    def clone(self):
        n = Frame.__new__(Frame)
        n.f = self.f; n.blocks = self.blocks; n.code = self.code; n.ip = self.ip; n.regs = dict(self.regs)
        n.allocas = list(self.allocas); n.blk = self.blk; n.prev = self.prev; n.site = self.site; n.stubmode = self.stubmode
        return n


class EndPath(Exception):
    pass


class Budget(Exception):
    pass


class State:
    __slots__ = ('frames', 'mem', 'ghost', 'prot', 'builder', 'expect', 'tape', 'caught', 'known', 'token', 'flags', 'gvars', 'obase', 'trace')
    def __init__(self):
        self.frames = []; self.mem = {}; self.ghost = {}; self.prot = []; self.builder = 0; self.expect = 0
        self.tape = []; self.caught = []; self.known = {}; self.token = object(); self.flags = {}; self.gvars = {}
        self.obase = {}; self.trace = []
    def fork(self):
        n = State.__new__(State)
        n.frames = [f.clone() for f in self.frames]
        n.mem = dict(self.mem); n.ghost = dict(self.ghost); n.prot = list(self.prot); n.builder = self.builder
        n.expect = self.expect; n.tape = list(self.tape); n.caught = list(self.caught); n.known = dict(self.known)
        n.flags = dict(self.flags); n.gvars = dict(self.gvars); n.obase = dict(self.obase); n.trace = list(self.trace)
        n.token = object(); self.token = object()
        return n


def is_sym(v):
    return isinstance(v, z3.ExprRef)


def bv(v, n):
    """python int / BV / Bool -> BitVec of n bits"""
    if isinstance(v, int):
        return z3.BitVecVal(v, n)
    if isinstance(v, z3.BoolRef):
        return z3.If(v, z3.BitVecVal(1, n), z3.BitVecVal(0, n))
    return v


def tobool(v):
    if isinstance(v, int):
        return z3.BoolVal(bool(v & 1))
    if isinstance(v, z3.BoolRef):
        return v
    return v == z3.BitVecVal(1, v.size())


def simp(v):
    v = z3.simplify(v)
    if z3.is_bv_value(v):
        return v.as_long()
    if z3.is_true(v):
        return 1
    if z3.is_false(v):
        return 0
    return v


class Result:
    def __init__(self, name):
        self.name = name
        self.status = 'ok'          # ok | fail | unknown | unsupported
        self.failures = []
        self.obl = 0; self.obl_solver = 0; self.paths = 0; self.instrs = 0
        self.solver_s = 0.0; self.queries = 0
        self.covers = {}
        self.functions = {}
        self.labels = {}
        self.stubs = {}
        self.reason = ''
        self.unknown = 0
        self.externals = {}
        self.cross = 0
        self.wall = 0.0
        self.props = []

    def as_dict(self):
        return self.__dict__


class Engine:
    def __init__(self, mod, timeout=60, max_paths=4000, max_instr=3000000, qtimeout_ms=20000, stubs=None, cross=None,
                 canary=False):
        self.m = mod
        self.timeout = timeout; self.max_paths = max_paths; self.max_instr = max_instr
        self.pb = mod.ptrsize * 8
        self.stubs = stubs or {}
        self.cross = cross
        self.qtimeout = qtimeout_ms
        self.canary = canary
        self.typeids = {}
        self.fresh_n = 0

    # ------------------------------------------------------------------ driver
    def run(self, name):
        self.res = Result(name)
        self.solver = z3.Solver()
        self.solver.set('timeout', self.qtimeout)
        self.t0 = time.time()
        self.gobj = {}           # global name -> obj id
        self.next_obj = 1
        self.ginit_done = {}
        self.ufs = {}
        self.base_axioms = []
        self.pcstack = []
        st = State()
        f = self.m.func(name)
        if f is None or not f.defined:
            self.res.status = 'unsupported'; self.res.reason = 'no such contract'
            return self.res
        try:
            self.push_frame(st, f, [])
            self.explore(st)
        except Unsupported as e:
            self.res.status = 'unsupported'; self.res.reason = 'unsupported: %s' % e
        except Budget as e:
            self.res.status = 'unsupported'; self.res.reason = 'budget: %s' % e
        except RecursionError:
            self.res.status = 'unsupported'; self.res.reason = 'recursion'
        except z3.Z3Exception as e:
            self.res.status = 'unsupported'; self.res.reason = 'z3: %s' % e
        if self.res.failures:
            self.res.status = 'fail'
        elif self.res.status == 'ok' and self.res.unknown:
            self.res.status = 'unknown'; self.res.reason = 'solver gave up on %d obligations' % self.res.unknown
        self.res.wall = time.time() - self.t0
        return self.res

    def explore(self, st):
        """run st to the end of all its paths (depth first; the z3 solver holds the path condition)"""
        work = [(None, st)]
        # explicit stack of ('state', cond) / 'pop'
        stack = [('run', st, None)]
        while stack:
            kind, s, cond = stack.pop()
            if kind == 'pop':
                self.solver.pop()
                continue
            if cond is not None:
                self.solver.push()
                self.solver.add(cond)
                stack.append(('pop', None, None))
            forks = self.run_path(s)
            if forks:
                for (ns, c) in reversed(forks):
                    stack.append(('run', ns, c))
            else:
                self.res.paths += 1
                if self.res.paths > self.max_paths:
                    raise Budget('more than %d paths' % self.max_paths)

    def run_path(self, s):
        """execute until the path ends (returns None) or forks (returns [(state, cond)...])"""
        n = 0
        try:
            while True:
                fr = s.frames[-1]
                ins = fr.code[fr.ip]
                n += 1
                if (n & 1023) == 0:
                    if time.time() - self.t0 > self.timeout:
                        raise Budget('time limit %ds' % self.timeout)
                r = getattr(self, 'x_' + ins[0])(s, fr, ins)
                if r is not None:
                    return r
        except EndPath:
            return None
        finally:
            self.res.instrs += n
            if self.res.instrs > self.max_instr:
                raise Budget('instruction limit')

    # ------------------------------------------------------------------ solver
    def check(self, *cond):
        t = time.time()
        self.solver.push()
        for c in cond:
            self.solver.add(c)
        r = self.solver.check()
        self.last_model = self.solver.model() if r == z3.sat else None
        self.solver.pop()
        self.res.solver_s += time.time() - t
        self.res.queries += 1
        return r

    def feasible(self, c):
        r = self.check(c)
        if r == z3.unsat and self.cross and not self.cross(self, c):
            self.res.unknown += 1
        return r != z3.unsat

    def assume(self, s, c):
        """c: z3 bool or int"""
        if isinstance(c, int):
            if not c:
                raise EndPath()
            return
        c = simp(c)
        if isinstance(c, int):
            if not c:
                raise EndPath()
            return
        if not self.feasible(c):
            raise EndPath()
        self.solver.add(c)       # scoped by the enclosing push of this path segment
        s.known[c.get_id()] = (c, True)

    def stack_of(self, s):
        return [f.f.name for f in s.frames]

    def oblige(self, s, cond, label, props=None, assume_after=True):
        """obligation: path condition => cond"""
        if s.builder and props is None:
            self.assume(s, cond)
            return
        self.res.obl += 1
        self.res.labels[label] = self.res.labels.get(label, 0) + 1
        if isinstance(cond, int):
            if cond:
                return
            self.fail(s, label, None)
            raise EndPath()
        cond = simp(cond)
        if isinstance(cond, int):
            if cond:
                return
            self.fail(s, label, None)
            raise EndPath()
        k = s.known.get(cond.get_id())
        if k is not None and k[1]:
            return
        self.res.obl_solver += 1
        r = self.check(z3.Not(cond))
        if r == z3.unsat:
            s.known[cond.get_id()] = (cond, True)
            if self.cross and not self.cross(self, z3.Not(cond)):
                self.res.unknown += 1
            return
        if r == z3.unknown:
            self.res.unknown += 1
            self.assume(s, cond)
            return
        self.fail(s, label, self.last_model)
        self.assume(s, cond)

    def fail(self, s, label, model):
        if model is None:
            t = time.time()
            r = self.solver.check()
            self.res.solver_s += time.time() - t
            self.res.queries += 1
            if r == z3.unsat:
                raise EndPath()
            if r == z3.unknown:
                self.res.unknown += 1
                raise EndPath()
            model = self.solver.model()
        tape = []
        for (tag, n, v) in s.tape:
            if isinstance(v, int):
                x = v
            elif isinstance(v, z3.BoolRef):
                x = 1 if z3.is_true(model.eval(v, model_completion=True)) else 0
            elif isinstance(v, Ptr):
                x = model.eval(self.addr(s, v), model_completion=True).as_long()
            else:
                x = model.eval(v, model_completion=True).as_long()
            tape.append((tag, n, x))
        self.res.failures.append({'label': label, 'stack': self.stack_of(s), 'tape': tape})
        if len(self.res.failures) >= 12:
            raise Budget('too many failures')

    def fresh(self, n, tag='v'):
        self.fresh_n += 1
        return z3.BitVec('%s!%d' % (tag, self.fresh_n), n)

    # ------------------------------------------------------------------ memory
    def new_obj(self, s, size, kind, name):
        i = self.next_obj; self.next_obj += 1
        s.mem[i] = Obj(size, kind, name, s.token)
        return i

    def wobj(self, s, i):
        o = s.mem[i]
        if o.owner is not s.token:
            o = o.clone(s.token); s.mem[i] = o
        return o

    def addr(self, s, p):
        """numeric address of a Ptr"""
        b = s.obase.get(p.o)
        if b is None:
            b = z3.BitVec('addr!%d' % p.o, self.pb)
            o = s.mem.get(p.o)
            size = max(1, o.size if o else 1)
            lo = 0x10000; hi = (1 << 47) - 0x10000 if self.pb == 64 else 0xf0000000
            ax = [z3.UGE(b, lo), z3.ULT(b, hi - size), (b & 15) == 0]
            for (oi, ob) in s.obase.items():
                oo = s.mem.get(oi); osz = max(1, oo.size if oo else 1)
                ax.append(z3.Or(z3.UGE(b, ob + osz), z3.UGE(ob, b + size)))
            s.obase[p.o] = b
            self.solver.add(*ax)
        if p.f:
            return b + z3.BitVecVal(p.f & ((1 << self.pb) - 1), self.pb)
        return b

    def num(self, s, v, n):
        """any scalar -> int or BitVec of n bits"""
        if isinstance(v, Ptr):
            return self.addr(s, v)
        if isinstance(v, z3.BoolRef):
            return bv(v, n)
        return v

    def access(self, s, p, n, write, what):
        if not isinstance(p, Ptr):
            if isinstance(p, int) and p == 0:
                self.oblige(s, 0, 'UB: null pointer dereference (%s)' % what)
            self.oblige(s, 0, 'UB: dereference of a pointer that does not point to an object (%s)' % what)
        o = s.mem.get(p.o)
        if o is None or not o.alive:
            self.oblige(s, 0, 'UB: access to an object outside its lifetime (%s %s)' % (what, o.name if o else '?'))
        if not (isinstance(p.f, int)):
            raise Unsupported('symbolic offset')
        if p.f < 0 or p.f + n > o.size:
            self.oblige(s, 0, 'UB: out-of-bounds access (%s %s)' % (what, o.name))
        self.res.obl += 1
        if write:
            if o.kind in ('const', 'func'):
                self.oblige(s, 0, 'UB: write to a constant')
            for (po, lo, hi, lab) in s.prot:
                if po == p.o and p.f < hi and p.f + n > lo:
                    self.frame_broken(s, 'FRAME: write to %s' % lab)
        return o

    def frame_broken(self, s, label):
        # reported once per path; the write itself proceeds so that the later obligations are still evaluated
        if s.builder or s.flags.get(('frame', label)):
            return
        self.res.obl += 1
        self.res.labels[label] = self.res.labels.get(label, 0) + 1
        s.flags = dict(s.flags); s.flags[('frame', label)] = 1
        self.fail(s, label, None)

    def load(self, s, p, ty, what='load'):
        k = ty.k
        if k in ('s', 'a', 'x'):
            size = self.m.size(ty)
            if k == 's':
                offs = self.m.layout(ty)[2]
                return [self.load(s, self.padd(p, offs[i]), e, what) for i, e in enumerate(ty.e)]
            es = self.m.size(ty.e)
            return [self.load(s, self.padd(p, i * es), ty.e, what) for i in range(ty.n)]
        n = self.m.store_size(ty)
        o = self.access(s, p, n, False, what)
        v = self.load_bytes(s, p, o, n, ty)
        if k == 'i' and ty.n == 1:
            if isinstance(v, int):
                return v & 1
            return simp(z3.Extract(0, 0, v) == 1)
        return v

    def load_bytes(self, s, p, o, n, ty):
        cells = o.cells
        f = p.f
        c = cells[f]
        # fast path: exact same stored value
        if c is not None and c[1] == 0 and c[2] == n:
            v = c[0]
            ok = True
            for i in range(1, n):
                d = cells[f + i]
                if d is None or d[0] is not v or d[1] != i:
                    ok = False; break
            if ok:
                if isinstance(v, Ptr) and ty.k != 'p':
                    return v      # integer with provenance
                return v
        # assemble
        parts = []
        conc = True
        for i in range(n):
            d = cells[f + i]
            if d is None:
                o = self.wobj(s, p.o); cells = o.cells
                x = self.fresh(8, 'uninit')
                s.tape.append(('#uninit', 8, x))
                d = (x, 0, 1); cells[f + i] = d
            v, idx, w = d
            if isinstance(v, int):
                parts.append((v >> (8 * idx)) & 255)
            else:
                conc = False
                if isinstance(v, Ptr):
                    v = self.addr(s, v)
                if w == 1:
                    parts.append(v)
                else:
                    parts.append(z3.Extract(8 * idx + 7, 8 * idx, v))
        if conc:
            r = 0
            for i, b in enumerate(parts):
                r |= b << (8 * i)
            return r
        if n == 1:
            return parts[0]
        r = z3.simplify(z3.Concat(*[bv(b, 8) for b in reversed(parts)]))
        return r

    def store(self, s, p, v, ty, what='store'):
        k = ty.k
        if k in ('s', 'a', 'x'):
            if k == 's':
                offs = self.m.layout(ty)[2]
                for i, e in enumerate(ty.e):
                    self.store(s, self.padd(p, offs[i]), v[i], e, what)
            else:
                es = self.m.size(ty.e)
                for i in range(ty.n):
                    self.store(s, self.padd(p, i * es), v[i], ty.e, what)
            return
        n = self.m.store_size(ty)
        self.access(s, p, n, True, what)
        o = self.wobj(s, p.o)
        if k == 'i' and ty.n < n * 8:
            if isinstance(v, z3.BoolRef):
                v = bv(v, n * 8)
            elif is_sym(v):
                v = z3.ZeroExt(n * 8 - ty.n, v)
        cells = o.cells
        f = p.f
        if is_sym(v) and n == 1:
            cells[f] = (v, 0, 1)
            return
        for i in range(n):
            cells[f + i] = (v, i, n)

    def padd(self, p, off):
        if off == 0:
            return p
        if isinstance(p, Ptr):
            return Ptr(p.o, p.f + off)
        if isinstance(p, int):
            return (p + off) & ((1 << self.pb) - 1)
        return simp(p + z3.BitVecVal(off & ((1 << self.pb) - 1), self.pb))

    def memcpy(self, s, d, src, n, what):
        if n == 0:
            return
        so = self.access(s, src, n, False, what)
        self.access(s, d, n, True, what)
        cells = so.cells[src.f:src.f + n]
        if any(c is None for c in cells):
            so = self.wobj(s, src.o)
            for i in range(n):
                if cells[i] is None:
                    x = self.fresh(8, 'uninit')
                    s.tape.append(('#uninit', 8, x))
                    cells[i] = so.cells[src.f + i] = (x, 0, 1)
        o = self.wobj(s, d.o)
        o.cells[d.f:d.f + n] = cells

    # ------------------------------------------------------------------ globals
    def global_ptr(self, s, name):
        i = self.gobj.get(name)
        if i is not None and i in s.mem:
            return Ptr(i, 0)
        fn = self.m.func_src.get(name)
        if fn is not None:
            if i is None:
                i = self.next_obj; self.next_obj += 1
                self.gobj[name] = i
            s.mem[i] = Obj(1, 'func', name, s.token)
            return Ptr(i, 0)
        g = self.m.global_init(name)
        if g is None:
            raise Unsupported('global ' + name)
        if g[0] == 'alias':
            return self.operand(s, None, g[1], PTR)
        ty, init, const = g
        if i is None:
            i = self.next_obj; self.next_obj += 1
            self.gobj[name] = i
        if init is None:
            try:
                size = self.m.size(ty)
            except Unsupported:
                size = 64
            s.mem[i] = Obj(max(size, 256), 'ext', name, s.token)
            return Ptr(i, 0)
        size = self.m.size(ty)
        s.mem[i] = Obj(size, 'tmp', name, s.token)
        self.init_mem(s, Ptr(i, 0), ty, init)
        self.wobj(s, i).kind = 'const' if const else 'global'
        return Ptr(i, 0)

    def init_mem(self, s, p, ty, init):
        if init[0] == 'z':
            o = self.wobj(s, p.o)
            for k in range(self.m.size(ty)):
                o.cells[p.f + k] = (0, 0, 1)
            return
        if init[0] == 'u':
            return
        if init[0] == 'bytes':
            o = self.wobj(s, p.o)
            for k, b in enumerate(init[1]):
                o.cells[p.f + k] = (b, 0, 1)
            return
        if init[0] == 'agg':
            if ty.k == 's':
                offs = self.m.layout(ty)[2]
                for k, (et, ev) in enumerate(init[1]):
                    self.init_mem(s, Ptr(p.o, p.f + offs[k]), et, ev)
            else:
                es = self.m.size(ty.e)
                for k, (et, ev) in enumerate(init[1]):
                    self.init_mem(s, Ptr(p.o, p.f + k * es), et, ev)
            return
        self.store(s, p, self.operand(s, None, init, ty), ty, 'init')

    # ------------------------------------------------------------------ operands
    def operand(self, s, fr, op, ty):
        k = op[0]
        if k == 'r':
            try:
                return fr.regs[op[1]]
            except KeyError:
                raise Unsupported('undefined register %s in %s' % (op[1], fr.f.name))
        if k == 'c':
            return op[1]
        if k == 'g':
            return self.global_ptr(s, op[1])
        if k == 'z':
            return self.zero(ty)
        if k == 'u':
            return self.undef(ty)
        if k == 'cgep':
            b = self.operand(s, fr, op[2], PTR)
            return self.gep(s, fr, op[1], b, op[3])
        if k == 'ccast':
            v = self.operand(s, fr, op[3], op[2])
            return self.cast(s, op[1], op[2], v, op[4])
        if k == 'agg':
            return [self.operand(s, fr, ev, et) for et, ev in op[1]]
        if k == 'cbin':
            a = self.operand(s, fr, op[3], op[2]); b = self.operand(s, fr, op[4], op[2])
            return self.binop(s, op[1], op[2], a, b)
        if k == 'bytes':
            return list(op[1])
        raise Unsupported('operand kind ' + k)

    def zero(self, ty):
        if ty.k == 's':
            return [self.zero(e) for e in ty.e]
        if ty.k in 'ax':
            return [self.zero(ty.e) for _ in range(ty.n)]
        return 0

    def undef(self, ty):
        if ty.k == 's':
            return [self.undef(e) for e in ty.e]
        if ty.k in 'ax':
            return [self.undef(ty.e) for _ in range(ty.n)]
        if ty.k == 'i' and ty.n == 1:
            self.fresh_n += 1
            return z3.Bool('undef!%d' % self.fresh_n)
        if ty.k == 'p':
            return self.fresh(self.pb, 'undef')
        if ty.k in 'if':
            return self.fresh(ty.n, 'undef')
        return 0

    # ------------------------------------------------------------------ instructions
    def adv(self, fr, dst, v):
        if dst is not None:
            fr.regs[dst] = v
        fr.ip += 1

    def x_alloca(self, s, fr, ins):
        _, dst, ty, n = ins
        c = self.operand(s, fr, n, I(64))
        if not isinstance(c, int):
            raise Unsupported('variable alloca')
        i = self.new_obj(s, self.m.size(ty) * c, 'stack', '%s in %s' % (dst, fr.f.name))
        fr.allocas.append(i)
        self.adv(fr, dst, Ptr(i, 0))

    def x_load(self, s, fr, ins):
        _, dst, ty, a = ins
        self.adv(fr, dst, self.load(s, self.operand(s, fr, a, PTR), ty))

    def x_store(self, s, fr, ins):
        _, _, ty, v, a = ins
        self.store(s, self.operand(s, fr, a, PTR), self.operand(s, fr, v, ty), ty)
        fr.ip += 1

    def x_gep(self, s, fr, ins):
        _, dst, bt, b, idx = ins
        self.adv(fr, dst, self.gep(s, fr, bt, self.operand(s, fr, b, PTR), idx))

    def gep(self, s, fr, bt, b, idx):
        off = 0
        ty = bt
        for k, (it, iv) in enumerate(idx):
            v = self.operand(s, fr, iv, it)
            if is_sym(v):
                v = simp(v)
            if not isinstance(v, int):
                raise Unsupported('symbolic index')
            if v >> (it.n - 1):
                v -= 1 << it.n
            if k == 0:
                off += v * self.m.size(ty)
            elif ty.k == 's':
                off += self.m.layout(ty)[2][v]; ty = ty.e[v]
            else:
                ty = ty.e; off += v * self.m.size(ty)
        return self.padd(b, off)

    def x_bin(self, s, fr, ins):
        _, dst, op, ty, a, b, fl = ins
        x = self.operand(s, fr, a, ty); y = self.operand(s, fr, b, ty)
        r = self.binop(s, op, ty, x, y)
        if 'nsw' in fl and op in ('add', 'sub', 'mul') and ty.k == 'i':
            self.nsw(s, op, ty.n, x, y)
        if op in ('udiv', 'sdiv', 'urem', 'srem'):
            d = self.num(s, y, ty.n)
            self.oblige(s, (1 if d else 0) if isinstance(d, int) else d != 0, 'UB: division by zero')
        self.adv(fr, dst, r)

    def nsw(self, s, op, n, x, y):
        if isinstance(x, Ptr) or isinstance(y, Ptr):
            return
        if isinstance(x, int) and isinstance(y, int):
            sx = x - (1 << n) if x >> (n - 1) else x
            sy = y - (1 << n) if y >> (n - 1) else y
            r = {'add': sx + sy, 'sub': sx - sy, 'mul': sx * sy}[op]
            self.oblige(s, 1 if -(1 << (n - 1)) <= r < (1 << (n - 1)) else 0, 'UB: signed overflow')
            return
        X = bv(x, n); Y = bv(y, n)
        if op == 'add':
            c = z3.And(z3.BVAddNoOverflow(X, Y, True), z3.BVAddNoUnderflow(X, Y))
        elif op == 'sub':
            c = z3.And(z3.BVSubNoOverflow(X, Y), z3.BVSubNoUnderflow(X, Y, True))
        else:
            c = z3.And(z3.BVMulNoOverflow(X, Y, True), z3.BVMulNoUnderflow(X, Y))
        self.oblige(s, c, 'UB: signed overflow')

    def binop(self, s, op, ty, x, y):
        if ty.k == 'x':
            return [self.binop(s, op, ty.e, a, b) for a, b in zip(x, y)]
        n = ty.n
        if n == 1:
            if isinstance(x, int) and isinstance(y, int):
                return {'and': x & y, 'or': x | y, 'xor': x ^ y, 'add': x ^ y, 'sub': x ^ y}[op]
            X, Y = tobool(x), tobool(y)
            r = {'and': lambda: z3.And(X, Y), 'or': lambda: z3.Or(X, Y), 'xor': lambda: z3.Xor(X, Y), 'add': lambda: z3.Xor(X, Y), 'sub': lambda: z3.Xor(X, Y)}[op]()
            return simp(r)
        M = (1 << n) - 1
        if isinstance(x, int) and isinstance(y, int):
            if op == 'add': return (x + y) & M
            if op == 'sub': return (x - y) & M
            if op == 'mul': return (x * y) & M
            if op == 'and': return x & y
            if op == 'or': return x | y
            if op == 'xor': return x ^ y
            if op == 'shl': return (x << y) & M if y < n else 0
            if op == 'lshr': return x >> y if y < n else 0
            if op == 'udiv' and y: return x // y
            if op == 'urem' and y: return x % y
        if isinstance(x, Ptr) and isinstance(y, int) and op in ('add', 'sub'):
            if y >> (n - 1): y -= 1 << n
            return Ptr(x.o, x.f + (y if op == 'add' else -y))
        if isinstance(y, Ptr) and isinstance(x, int) and op == 'add':
            if x >> (n - 1): x -= 1 << n
            return Ptr(y.o, y.f + x)
        if isinstance(x, Ptr) and isinstance(y, Ptr) and op == 'sub' and x.o == y.o:
            return (x.f - y.f) & M
        if isinstance(x, Ptr) and isinstance(y, int) and op == 'and':
            # alignment masks on object bases (bases are 16-aligned)
            if y <= 15:
                return (x.f) & y
        X = bv(self.num(s, x, n), n); Y = bv(self.num(s, y, n), n)
        if op == 'add': r = X + Y
        elif op == 'sub': r = X - Y
        elif op == 'mul': r = X * Y
        elif op == 'and': r = X & Y
        elif op == 'or': r = X | Y
        elif op == 'xor': r = X ^ Y
        elif op == 'shl': r = X << Y
        elif op == 'lshr': r = z3.LShR(X, Y)
        elif op == 'ashr': r = X >> Y
        elif op == 'udiv': r = z3.UDiv(X, Y)
        elif op == 'urem': r = z3.URem(X, Y)
        elif op == 'sdiv': r = X / Y
        elif op == 'srem': r = z3.SRem(X, Y)
        else:
            raise Unsupported(op)
        return simp(r)

    def fp(self, v, n):
        sort = {32: z3.Float32(), 64: z3.Float64(), 16: z3.Float16()}.get(n)
        if sort is None:
            raise Unsupported('float arithmetic on %d bits' % n)
        return z3.fpBVToFP(bv(v, n), sort)

    def x_fbin(self, s, fr, ins):
        _, dst, op, ty, a, b, fl = ins
        x = self.fp(self.operand(s, fr, a, ty), ty.n); y = self.fp(self.operand(s, fr, b, ty), ty.n)
        rm = z3.RNE()
        r = {'fadd': z3.fpAdd, 'fsub': z3.fpSub, 'fmul': z3.fpMul, 'fdiv': z3.fpDiv}[op](rm, x, y)
        self.adv(fr, dst, simp(z3.fpToIEEEBV(r)))

    def x_fneg(self, s, fr, ins):
        _, dst, ty, a = ins
        v = bv(self.operand(s, fr, a, ty), ty.n)
        self.adv(fr, dst, simp(v ^ z3.BitVecVal(1 << (ty.n - 1), ty.n)))

    def x_icmp(self, s, fr, ins):
        _, dst, pr, ty, a, b = ins
        x = self.operand(s, fr, a, ty); y = self.operand(s, fr, b, ty)
        self.adv(fr, dst, self.icmp(s, pr, ty, x, y))

    def icmp(self, s, pr, ty, x, y):
        n = self.pb if ty.k == 'p' else ty.n
        if isinstance(x, Ptr) and isinstance(y, Ptr):
            if x.o == y.o:
                x = x.f & ((1 << n) - 1); y = y.f & ((1 << n) - 1)
                if pr[0] == 'u':
                    pr = 's' + pr[1:]
            elif pr in ('eq', 'ne'):
                ox = s.mem.get(x.o); oy = s.mem.get(y.o)
                inx = ox is not None and 0 <= x.f <= max(0, ox.size - 1); iny = oy is not None and 0 <= y.f <= max(0, oy.size - 1)
                if inx and iny:
                    return 0 if pr == 'eq' else 1
        elif isinstance(x, Ptr) and isinstance(y, int) and y == 0 or isinstance(y, Ptr) and isinstance(x, int) and x == 0:
            if pr == 'eq': return 0
            if pr == 'ne': return 1
        x = self.num(s, x, n); y = self.num(s, y, n)
        if isinstance(x, int) and isinstance(y, int):
            sx = x - (1 << n) if x >> (n - 1) else x
            sy = y - (1 << n) if y >> (n - 1) else y
            return int({'eq': x == y, 'ne': x != y, 'ult': x < y, 'ule': x <= y, 'ugt': x > y, 'uge': x >= y,
                        'slt': sx < sy, 'sle': sx <= sy, 'sgt': sx > sy, 'sge': sx >= sy}[pr])
        if n == 1:
            X, Y = tobool(x), tobool(y)
            r = {'eq': lambda: X == Y, 'ne': lambda: X != Y, 'ult': lambda: z3.And(z3.Not(X), Y), 'ugt': lambda: z3.And(X, z3.Not(Y)),
                 'ule': lambda: z3.Or(z3.Not(X), Y), 'uge': lambda: z3.Or(X, z3.Not(Y))}.get(pr)
            if r is None:
                raise Unsupported('icmp i1 ' + pr)
            return simp(r())
        X = bv(x, n); Y = bv(y, n)
        r = {'eq': lambda: X == Y, 'ne': lambda: X != Y, 'ult': lambda: z3.ULT(X, Y), 'ule': lambda: z3.ULE(X, Y),
             'ugt': lambda: z3.UGT(X, Y), 'uge': lambda: z3.UGE(X, Y), 'slt': lambda: X < Y, 'sle': lambda: X <= Y,
             'sgt': lambda: X > Y, 'sge': lambda: X >= Y}[pr]()
        return simp(r)

    def x_fcmp(self, s, fr, ins):
        _, dst, pr, ty, a, b, fl = ins
        A = self.operand(s, fr, a, ty); B = self.operand(s, fr, b, ty)
        if pr == 'true': return self.adv(fr, dst, 1)
        if pr == 'false': return self.adv(fr, dst, 0)
        x = self.fp(A, ty.n); y = self.fp(B, ty.n)
        nan = z3.Or(z3.fpIsNaN(x), z3.fpIsNaN(y))
        base = {'eq': z3.fpEQ, 'ne': lambda p, q: z3.Not(z3.fpEQ(p, q)), 'lt': z3.fpLT, 'le': z3.fpLEQ, 'gt': z3.fpGT, 'ge': z3.fpGEQ}
        if pr == 'ord': r = z3.Not(nan)
        elif pr == 'uno': r = nan
        elif pr[0] == 'o': r = z3.And(z3.Not(nan), base[pr[1:]](x, y))
        else: r = z3.Or(nan, base[pr[1:]](x, y))
        if 'nnan' in fl or 'fast' in fl or 'ninf' in fl:
            # result is poison when the promise is broken: an arbitrary truth value
            self.fresh_n += 1
            arb = z3.Bool('poison!%d' % self.fresh_n)
            bad = z3.BoolVal(False)
            if 'nnan' in fl or 'fast' in fl:
                bad = z3.Or(bad, nan)
            if 'ninf' in fl or 'fast' in fl:
                bad = z3.Or(bad, z3.fpIsInf(x), z3.fpIsInf(y))
            r = z3.If(bad, arb, r)
        self.adv(fr, dst, simp(r))

    def x_cast(self, s, fr, ins):
        _, dst, op, ft, v, tt = ins
        x = self.operand(s, fr, v, ft)
        if op == 'trunc' and tt.k == 'i' and tt.n == 1:
            if ft.n == 8:
                # a C++ bool read from memory: any other byte value is undefined behaviour
                if isinstance(x, int):
                    self.oblige(s, 1 if x <= 1 else 0, 'UB: bool object holds a value other than 0/1')
                elif is_sym(x):
                    self.oblige(s, z3.ULE(x, 1), 'UB: bool object holds a value other than 0/1')
        self.adv(fr, dst, self.cast(s, op, ft, x, tt))

    def cast(self, s, op, ft, x, tt):
        if op in ('bitcast', 'addrspacecast', 'ptrtoint', 'inttoptr'):
            if op == 'ptrtoint' and tt.n < self.pb and isinstance(x, Ptr):
                return simp(z3.Extract(tt.n - 1, 0, self.addr(s, x)))
            if op == 'bitcast' and (ft.k in 'asx' or tt.k in 'asx'):
                raise Unsupported('aggregate bitcast')
            return x
        if op == 'trunc':
            if isinstance(x, int):
                return x & ((1 << tt.n) - 1)
            if isinstance(x, Ptr):
                x = self.addr(s, x)
            if tt.n == 1:
                return simp(z3.Extract(0, 0, x) == 1)
            return simp(z3.Extract(tt.n - 1, 0, x))
        if op == 'zext':
            if isinstance(x, int):
                return x
            if isinstance(x, z3.BoolRef):
                return bv(x, tt.n)
            if isinstance(x, Ptr):
                x = self.addr(s, x)
            return simp(z3.ZeroExt(tt.n - ft.n, x))
        if op == 'sext':
            if isinstance(x, int):
                return x | (((1 << tt.n) - 1) ^ ((1 << ft.n) - 1)) if x >> (ft.n - 1) else x
            if isinstance(x, z3.BoolRef):
                return z3.If(x, z3.BitVecVal(-1, tt.n), z3.BitVecVal(0, tt.n))
            if isinstance(x, Ptr):
                x = self.addr(s, x)
            return simp(z3.SignExt(tt.n - ft.n, x))
        if op in ('fpext', 'fptrunc'):
            sort = {32: z3.Float32(), 64: z3.Float64()}.get(tt.n)
            if sort is None:
                raise Unsupported(op)
            return simp(z3.fpToIEEEBV(z3.fpFPToFP(z3.RNE(), self.fp(x, ft.n), sort)))
        if op in ('sitofp', 'uitofp'):
            sort = {32: z3.Float32(), 64: z3.Float64()}.get(tt.n)
            if sort is None:
                raise Unsupported(op)
            g = z3.fpSignedToFP if op[0] == 's' else z3.fpUnsignedToFP
            return simp(z3.fpToIEEEBV(g(z3.RNE(), bv(x, ft.n), sort)))
        raise Unsupported('cast ' + op)

    def jump(self, fr, lab):
        fr.prev = fr.blk; fr.blk = lab; fr.code = fr.blocks[lab]; fr.ip = 0
        # phis are evaluated simultaneously
        if fr.code[0][0] == 'phi':
            pass

    def x_br(self, s, fr, ins):
        self.jump(fr, ins[2])

    def decide(self, s, c):
        """c: simplified z3 Bool.  -> 1, 0 or None (both possible)"""
        k = s.known.get(c.get_id())
        if k is not None:
            return 1 if k[1] else 0
        t = self.feasible(c)
        if not t:
            s.known[c.get_id()] = (c, False)
            return 0
        f = self.feasible(z3.Not(c))
        if not f:
            s.known[c.get_id()] = (c, True)
            return 1
        return None

    def split(self, s, c):
        """fork s on c; returns (s_true, s_false)"""
        o = s.fork()
        s.known[c.get_id()] = (c, True)
        o.known[c.get_id()] = (c, False)
        return s, o

    def x_cbr(self, s, fr, ins):
        _, _, c, a, b = ins
        v = self.operand(s, fr, c, I(1))
        if not isinstance(v, int):
            v0 = v = simp(v)
        if not isinstance(v, int):
            d = self.decide(s, v)
            if d is None:
                st, sf = self.split(s, v)
                self.jump(st.frames[-1], a); self.jump(sf.frames[-1], b)
                return [(st, v), (sf, z3.Not(v))]
            v = d
        self.jump(fr, a if v else b)

    def x_switch(self, s, fr, ins):
        _, _, ty, v, d, cases = ins
        x = self.operand(s, fr, v, ty)
        if isinstance(x, Ptr): x = self.addr(s, x)
        if isinstance(x, int):
            for cv, lab in cases:
                if cv == x:
                    return self.jump(fr, lab)
            return self.jump(fr, d)
        outs = []
        rest = z3.BoolVal(True)
        for cv, lab in cases:
            c = x == z3.BitVecVal(cv, ty.n)
            if self.feasible(c):
                n = s.fork(); self.jump(n.frames[-1], lab); outs.append((n, c))
            rest = z3.And(rest, x != z3.BitVecVal(cv, ty.n))
        if self.feasible(rest):
            n = s.fork(); self.jump(n.frames[-1], d); outs.append((n, rest))
        return outs

    def x_select(self, s, fr, ins):
        _, dst, c, ty, a, b = ins
        v = self.operand(s, fr, c, I(1))
        x = self.operand(s, fr, a, ty); y = self.operand(s, fr, b, ty)
        if not isinstance(v, int):
            v = simp(v)
        if isinstance(v, int):
            return self.adv(fr, dst, x if v else y)
        if ty.k == 'i' and ty.n == 1:
            return self.adv(fr, dst, simp(z3.If(v, tobool(x), tobool(y))))
        if ty.k in 'if' and not isinstance(x, Ptr) and not isinstance(y, Ptr):
            return self.adv(fr, dst, simp(z3.If(v, bv(x, ty.n), bv(y, ty.n))))
        d = self.decide(s, v)
        if d is None:
            st, sf = self.split(s, v)
            self.adv(st.frames[-1], dst, x); self.adv(sf.frames[-1], dst, y)
            return [(st, v), (sf, z3.Not(v))]
        self.adv(fr, dst, x if d else y)

    def x_phi(self, s, fr, ins):
        vals = []
        i = fr.ip
        while fr.code[i][0] == 'phi':
            _, dst, ty, inc = fr.code[i]
            for v, l in inc:
                if l == fr.prev:
                    vals.append((dst, self.operand(s, fr, v, ty)))
                    break
            else:
                raise Unsupported('phi without predecessor')
            i += 1
        for dst, v in vals:
            fr.regs[dst] = v
        fr.ip = i

    def x_extractvalue(self, s, fr, ins):
        _, dst, ty, v, idx = ins
        x = self.operand(s, fr, v, ty)
        for i in idx:
            x = x[i]
        self.adv(fr, dst, x)

    def x_insertvalue(self, s, fr, ins):
        _, dst, ty, v, ev, idx, et = ins
        import copy
        x = copy_agg(self.operand(s, fr, v, ty))
        y = x
        for i in idx[:-1]:
            y = y[i]
        y[idx[-1]] = self.operand(s, fr, ev, et)
        self.adv(fr, dst, x)

    def x_freeze(self, s, fr, ins):
        _, dst, ty, v = ins
        self.adv(fr, dst, self.operand(s, fr, v, ty))

    def x_unreachable(self, s, fr, ins):
        self.oblige(s, 0, 'UB: unreachable code reached')
        raise EndPath()

    def x_ret(self, s, fr, ins):
        _, _, ty, v = ins
        x = None if v is None else self.operand(s, fr, v, ty)
        for i in fr.allocas:
            self.wobj(s, i).alive = False
        s.frames.pop()
        if not s.frames:
            self.res.covers['<end>'] = self.res.covers.get('<end>', 0) + 1
            raise EndPath()
        cf = s.frames[-1]
        self.finish_call(s, cf, x)

    def finish_call(self, s, cf, x):
        ins = cf.code[cf.ip]
        if ins[1] is not None:
            cf.regs[ins[1]] = x
        if ins[0] == 'invoke':
            self.jump(cf, ins[6])
        else:
            cf.ip += 1

    # ------------------------------------------------------------------ calls
    def push_frame(self, s, f, args):
        if len(s.frames) > 400:
            raise Unsupported('call depth')
        blocks = self.m.blocks(f)
        fr = Frame(f, blocks)
        k = 0
        for (ty, a, nm), v in zip(f.params, args):
            name = nm
            if name is None:
                name = '%%%d' % k
            fr.regs[name] = v
            k += 1
        s.frames.append(fr)
        self.res.functions[f.name] = self.res.functions.get(f.name, 0) + 1
        return fr

    def x_call(self, s, fr, ins):
        return self.do_call(s, fr, ins)

    def x_invoke(self, s, fr, ins):
        return self.do_call(s, fr, ins)

    def do_call(self, s, fr, ins):
        op, dst, rt, callee, args, attrs, normal, unw, fl = ins
        if callee[0] == 'g':
            name = callee[1]
        else:
            c = self.operand(s, fr, callee, PTR)
            if not isinstance(c, Ptr) or c.o not in s.mem or s.mem[c.o].kind != 'func':
                self.oblige(s, 0, 'UB: call through a pointer that is not a function')
                raise EndPath()
            name = s.mem[c.o].name
        if name.startswith('@llvm.dbg') or name.startswith('@llvm.lifetime') or name.startswith('@llvm.experimental.noalias'):
            fr.ip += 1
            return
        vals = []
        for (at, aa, av) in args:
            v = self.operand(s, fr, av, at)
            if 'byval' in aa:
                bt = aa['byval']; n = self.m.size(bt)
                i = self.new_obj(s, n, 'stack', 'byval argument')
                fr.allocas.append(i)
                self.memcpy(s, Ptr(i, 0), v, n, 'byval')
                v = Ptr(i, 0)
            vals.append(v)
        stub = self.stubs.get(name)
        if stub is not None and not s.builder and stub != fr.f.name and not any(f.f.name == stub for f in s.frames) \
                and not self.root_target(s, name):
            self.res.stubs[name] = self.res.stubs.get(name, 0) + 1
            name = stub
        h = BUILTIN.get(name)
        if h is None and name.startswith('@llvm.'):
            for pre, hh in INTRIN:
                if name.startswith(pre):
                    h = hh; break
        if h is not None:
            r = h(self, s, fr, ins, vals)
            if r is JUMPED:
                return
            if isinstance(r, Forks):
                return r.l
            self.finish_call(s, fr, r)
            return
        f = self.m.func(name)
        if f is None or not f.defined:
            return self.external(s, fr, ins, name, vals)
        self.push_frame(s, f, vals)

    def root_target(self, s, name):
        t = s.flags.get('target')
        return t is not None and t == name

    def external(self, s, fr, ins, name, vals):
        raise Unsupported('call to external function ' + name)

    # ------------------------------------------------------------------ exceptions
    def typeid(self, name):
        return self.typeids.setdefault(name, len(self.typeids) + 1)

    def throw(self, s, ptr, ti):
        """unwind from the current instruction of the top frame"""
        first = True
        while s.frames:
            fr = s.frames[-1]
            ins = fr.code[fr.ip]
            if ins[0] == 'invoke':
                lab = ins[7]
                lp = fr.blocks[lab]
                k = 0
                while lp[k][0] == 'phi':
                    k += 1
                land = lp[k]
                assert land[0] == 'landingpad', land
                _, dst, cleanup, cls = land
                sel = None
                for kind, v in cls:
                    if kind == 'filter':
                        raise Unsupported('exception filter')
                    if v[0] == 'c' or v[0] == 'z':
                        sel = self.typeid('null'); break
                    if v[0] == 'g' and self.ti_match(v[1], ti):
                        sel = self.typeid(v[1]); break
                if sel is None and cleanup:
                    sel = 0
                if sel is not None:
                    self.jump(fr, lab)
                    if k:
                        self.x_phi(s, fr, fr.code[0])
                    fr.regs[dst] = [ptr, sel]
                    fr.ip = k + 1
                    s.flags = dict(s.flags); s.flags['exc'] = (ptr, ti)
                    return
            if 'nounwind' in fr.f.attrs:
                self.oblige(s, 0, 'NOEXCEPT: exception leaves a function that must not throw')
                raise EndPath()
            for i in fr.allocas:
                self.wobj(s, i).alive = False
            s.frames.pop()
        # left the contract
        self.oblige_escape(s)
        raise EndPath()

    def ti_match(self, handler, thrown):
        seen = 0
        t = thrown
        while t is not None and seen < 8:
            if t == handler:
                return True
            seen += 1
            if handler == '@_ZTISt9exception' and t in ('@_ZTISt19bad_optional_access', '@_ZTISt9bad_alloc'):
                return True
            g = self.m.global_init(t) if t in self.m.global_src else None
            nxt = None
            if g and g[0] != 'alias' and g[1] is not None and g[1][0] == 'agg' and len(g[1][1]) == 3:
                b = g[1][1][2][1]
                if b[0] == 'g':
                    nxt = b[1]
            t = nxt
        return False

    def oblige_escape(self, s):
        self.res.obl += 1
        f = self.m.func(self.res.name)
        self.fail_nostack(s, 'ESCAPE: unexpected exception leaves the contract')

    def fail_nostack(self, s, label):
        self.fail(s, label, None)

    def x_landingpad(self, s, fr, ins):
        raise Unsupported('landingpad reached by normal flow')

    def x_resume(self, s, fr, ins):
        v = self.operand(s, fr, ins[3], ins[2])
        ptr, ti = v[0], None
        e = s.flags.get('exc')
        # identify by pointer
        ti = s.flags.get(('ti', ptr.o))
        # continue unwinding from the caller
        if 'nounwind' in fr.f.attrs:
            self.oblige(s, 0, 'NOEXCEPT: exception leaves a function that must not throw')
            raise EndPath()
        for i in fr.allocas:
            self.wobj(s, i).alive = False
        s.frames.pop()
        if not s.frames:
            self.oblige_escape(s)
            raise EndPath()
        self.throw(s, ptr, ti)


JUMPED = object()


class Forks:
    def __init__(self, l):
        self.l = l


def copy_agg(x):
    if isinstance(x, list):
        return [copy_agg(y) for y in x]
    return x


def cint(v):
    if is_sym(v):
        v = simp(v)
    if not isinstance(v, int):
        raise Unsupported('symbolic value where a constant is required')
    return v


def cstr(e, s, p):
    if not isinstance(p, Ptr):
        return '?'
    o = s.mem[p.o]
    out = []
    i = p.f
    while i < o.size:
        c = o.cells[i]
        if c is None or not isinstance(c[0], int):
            break
        b = (c[0] >> (8 * c[1])) & 255
        if b == 0:
            break
        out.append(chr(b)); i += 1
    return ''.join(out)


# ---------------------------------------------------------------------- builtins
def b_nondet(e, s, fr, ins, a):
    tag = cstr(e, s, a[0]); bits = cint(a[1])
    v = e.fresh(bits, tag)
    s.tape.append((tag, bits, v))
    return v if bits == 64 else z3.ZeroExt(64 - bits, v)


def b_assume(e, s, fr, ins, a):
    c = a[0]
    e.assume(s, tobool(c) if is_sym(c) else c)


def b_assert(e, s, fr, ins, a):
    c = a[0]
    lab = cstr(e, s, a[1])
    e.oblige(s, tobool(c) if is_sym(c) else c, lab, props=True)


def b_cover(e, s, fr, ins, a):
    lab = cstr(e, s, a[0])
    e.res.covers[lab] = e.res.covers.get(lab, 0) + 1


def b_havoc(e, s, fr, ins, a):
    n = cint(a[1])
    p = a[0]
    if n == 0:
        return
    e.access(s, p, n, True, 'havoc')
    o = e.wobj(s, p.o)
    for i in range(n):
        x = e.fresh(8, 'hv')
        s.tape.append(('havoc', 8, x))
        o.cells[p.f + i] = (x, 0, 1)


def b_havoc_word(e, s, fr, ins, a):
    """fill n (1,2,4,8) bytes with one fresh word (keeps terms small)"""
    p = a[0]; n = cint(a[1])
    e.access(s, p, n, True, 'havoc')
    o = e.wobj(s, p.o)
    x = e.fresh(8 * n, 'hw')
    s.tape.append(('havoc', 8 * n, x))
    for i in range(n):
        o.cells[p.f + i] = (x, i, n)


def gkey(p, kind):
    if not isinstance(p, Ptr):
        raise Unsupported('ghost operation on a symbolic pointer')
    return (kind, p.o, p.f)


def b_birth(e, s, fr, ins, a):
    p, size, kind, val = a
    size = cint(size); kind = cint(kind)
    k = gkey(p, kind)
    for (kk, oo, ff), (sz, v) in s.ghost.items():
        if oo == p.o and ff < p.f + size and p.f < ff + sz and not (s.flags.get('nest%d_%d' % (min(kk, kind), max(kk, kind)))):
            e.oblige(s, 0, 'LIFETIME: object created in storage that already holds a live object')
    e.res.obl += 1
    s.ghost[k] = (size, val)


def b_kill(e, s, fr, ins, a):
    p, kind = a; kind = cint(kind)
    k = gkey(p, kind)
    e.oblige(s, 1 if k in s.ghost else 0, 'LIFETIME: destruction of an object that is not alive')
    s.ghost.pop(k, None)


def b_islive(e, s, fr, ins, a):
    p, kind = a; kind = cint(kind)
    return 1 if gkey(p, kind) in s.ghost else 0


def b_val(e, s, fr, ins, a):
    p, kind = a; kind = cint(kind)
    k = gkey(p, kind)
    e.oblige(s, 1 if k in s.ghost else 0, 'LIFETIME: use of an object that is not alive')
    return s.ghost[k][1]


def b_setval(e, s, fr, ins, a):
    p, kind, v = a; kind = cint(kind)
    k = gkey(p, kind)
    e.oblige(s, 1 if k in s.ghost else 0, 'LIFETIME: use of an object that is not alive')
    s.ghost[k] = (s.ghost[k][0], v)


def b_live_in(e, s, fr, ins, a):
    """number of live ghost objects of a kind (or any kind if <0) in [p,p+n)"""
    p, n, kind = a; n = cint(n); kind = cint(kind)
    if kind >> 31: kind -= 1 << 32
    c = 0
    for (kk, oo, ff), (sz, v) in s.ghost.items():
        if oo == p.o and ff < p.f + n and p.f < ff + sz and (kind < 0 or kk == kind):
            c += 1
    return c


def b_live_count(e, s, fr, ins, a):
    kind = cint(a[0])
    return sum(1 for (kk, _, _) in s.ghost if kk == kind)


def b_protect(e, s, fr, ins, a):
    p, n, lab = a
    if not isinstance(p, Ptr):
        raise Unsupported('protect on symbolic pointer')
    s.prot.append((p.o, p.f, p.f + cint(n), cstr(e, s, lab)))


def b_unprotect(e, s, fr, ins, a):
    s.prot = []


def b_builder(e, s, fr, ins, a):
    s.builder = cint(a[0])


def b_expect(e, s, fr, ins, a):
    s.expect = cint(a[0])


def b_uf(e, s, fr, ins, a):
    fn = cstr(e, s, a[0])
    args = [bv(e.num(s, x, 64), 64) for x in a[1:]]
    key = (fn, len(args))
    f = e.ufs.get(key)
    if f is None:
        f = e.ufs[key] = z3.Function('uf_' + fn, *([z3.BitVecSort(64)] * (len(args) + 1)))
    r = f(*args)
    s.tape.append(('uf:' + fn, 64, r))
    return r


def b_counter(e, s, fr, ins, a):
    """vp_count(tag, add): path-local event counter; returns the new value"""
    tag = cstr(e, s, a[0])
    d = cint(a[1])
    if d >> 31: d -= 1 << 32
    v = s.gvars.get(tag, 0) + d
    s.gvars[tag] = v
    return v


def b_setg(e, s, fr, ins, a):
    s.gvars['g:' + cstr(e, s, a[0])] = a[1]


def b_getg(e, s, fr, ins, a):
    return s.gvars.get('g:' + cstr(e, s, a[0]), 0)


def b_assert_fail(e, s, fr, ins, a):
    if s.expect:
        e.res.covers['assertion fired'] = e.res.covers.get('assertion fired', 0) + 1
        e.res.obl += 1
        raise EndPath()
    if s.builder:
        raise EndPath()
    e.oblige(s, 0, 'ASSERT: debug assertion fires: ' + cstr(e, s, a[0]))
    raise EndPath()


def b_terminate(e, s, fr, ins, a):
    if fr.f.name == '@__clang_call_terminate':
        e.oblige(s, 0, 'NOEXCEPT: exception leaves a function that must not throw')
    e.oblige(s, 0, 'TERMINATE: std::terminate or abort reached')
    raise EndPath()


def b_trap(e, s, fr, ins, a):
    e.oblige(s, 0, 'TERMINATE: trap reached')
    raise EndPath()


def b_alloc_exc(e, s, fr, ins, a):
    i = e.new_obj(s, max(1, cint(a[0])), 'heap', 'exception object')
    return Ptr(i, 0)


def b_throw(e, s, fr, ins, a):
    p = a[0]
    t = a[1]
    ti = s.mem[t.o].name if isinstance(t, Ptr) else None
    s.flags = dict(s.flags); s.flags[('ti', p.o)] = ti
    s.flags['inflight'] = s.flags.get('inflight', 0) + 1
    e.throw(s, p, ti)
    return JUMPED


def b_begin_catch(e, s, fr, ins, a):
    s.caught = s.caught + [a[0]]
    s.flags = dict(s.flags); s.flags['inflight'] = s.flags.get('inflight', 0) - 1
    return a[0]


def uncaught(e, s):
    """std::uncaught_exceptions(): the operation may itself run while some exceptions are being unwound"""
    v = s.flags.get('ambient')
    if v is None:
        v = e.fresh(32, 'ambient')
        s.flags = dict(s.flags); s.flags['ambient'] = v
        s.tape.append(('#ambient', 32, v))
        e.assume(s, z3.ULE(v, 3))
    return simp(v + z3.BitVecVal(s.flags.get('inflight', 0), 32))


def b_uncaught_exceptions(e, s, fr, ins, a):
    return uncaught(e, s)


def b_uncaught_exception(e, s, fr, ins, a):
    return simp(uncaught(e, s) != 0)


def b_end_catch(e, s, fr, ins, a):
    s.caught = s.caught[:-1]


def b_rethrow(e, s, fr, ins, a):
    p = s.caught[-1]
    ti = s.flags.get(('ti', p.o))
    s.flags = dict(s.flags); s.flags['inflight'] = s.flags.get('inflight', 0) + 1
    e.throw(s, p, ti)
    return JUMPED


def b_typeid(e, s, fr, ins, a):
    p = a[0]
    if isinstance(p, int):
        return e.typeid('null')
    return e.typeid(s.mem[p.o].name)


def b_memcpy(e, s, fr, ins, a):
    n = cint(a[2])
    if n:
        for p in a[:2]:
            if not isinstance(p, Ptr):
                e.oblige(s, 0, 'UB: memcpy with an invalid pointer')
        e.memcpy(s, a[0], a[1], n, 'memcpy')
    return a[0] if ins[2].k == 'p' else None


def b_memset(e, s, fr, ins, a):
    n = cint(a[2]); v = a[1]
    if n:
        e.access(s, a[0], n, True, 'memset')
        if is_sym(v) and v.size() > 8:
            v = simp(z3.Extract(7, 0, v))
        elif isinstance(v, int):
            v &= 255
        o = e.wobj(s, a[0].o)
        for i in range(n):
            o.cells[a[0].f + i] = (v, 0, 1)
    return a[0] if ins[2].k == 'p' else None


def b_memcmp(e, s, fr, ins, a):
    n = cint(a[2])
    if n == 0:
        return 0
    eq = []
    bytes_ = []
    u8 = I(8)
    oa = e.access(s, a[0], n, False, 'memcmp'); ob = e.access(s, a[1], n, False, 'memcmp')
    if isinstance(a[0], Ptr) and n in (2, 4, 8):
        # compare as words first (keeps terms small); the sign is derived bytewise
        x = e.load_bytes(s, a[0], s.mem[a[0].o], n, I(8 * n)); y = e.load_bytes(s, a[1], s.mem[a[1].o], n, I(8 * n))
        x = e.num(s, x, 8 * n); y = e.num(s, y, 8 * n)
        if isinstance(x, int) and isinstance(y, int):
            xb = x.to_bytes(n, 'little'); yb = y.to_bytes(n, 'little')
            return 0 if xb == yb else (1 if xb > yb else 0xffffffff)
        X, Y = bv(x, 8 * n), bv(y, 8 * n)
    else:
        xs = [e.num(s, e.load_bytes(s, e.padd(a[0], i), s.mem[a[0].o], 1, u8), 8) for i in range(n)]
        ys = [e.num(s, e.load_bytes(s, e.padd(a[1], i), s.mem[a[1].o], 1, u8), 8) for i in range(n)]
        if all(isinstance(v, int) for v in xs + ys):
            return 0 if xs == ys else (1 if xs > ys else 0xffffffff)
        X = bv(xs[0], 8) if n == 1 else z3.Concat(*[bv(v, 8) for v in reversed(xs)])
        Y = bv(ys[0], 8) if n == 1 else z3.Concat(*[bv(v, 8) for v in reversed(ys)])
    # big-endian view for the sign
    def rev(Z):
        return Z if n == 1 else z3.Concat(*[z3.Extract(8 * i + 7, 8 * i, Z) for i in range(n)])
    r = z3.If(X == Y, z3.BitVecVal(0, 32), z3.If(z3.ULT(rev(X), rev(Y)), z3.BitVecVal(-1, 32), z3.BitVecVal(1, 32)))
    return simp(r)


def b_identity(e, s, fr, ins, a):
    return a[0]


def b_none(e, s, fr, ins, a):
    return None


def b_zero(e, s, fr, ins, a):
    return 0


def b_llvm_assume(e, s, fr, ins, a):
    e.oblige(s, tobool(a[0]) if is_sym(a[0]) else a[0], 'UB: compiler assumption violated')


def b_new(e, s, fr, ins, a):
    i = e.new_obj(s, cint(a[0]), 'heap', 'operator new')
    s.ghost[(1000, i, 0)] = (0, 0)
    return Ptr(i, 0)


def b_delete(e, s, fr, ins, a):
    p = a[0]
    if isinstance(p, int) and p == 0:
        return None
    if not isinstance(p, Ptr) or p.o not in s.mem or s.mem[p.o].kind != 'heap' or not s.mem[p.o].alive or p.f != 0:
        e.oblige(s, 0, 'UB: delete of memory that is not allocated')
    e.wobj(s, p.o).alive = False
    s.ghost.pop((1000, p.o, 0), None)


def b_strlen(e, s, fr, ins, a):
    return len(cstr(e, s, a[0]))


def b_hash_bytes(e, s, fr, ins, a):
    n = cint(a[1])
    v = e.load_bytes(s, a[0], e.access(s, a[0], n, False, 'hash'), n, I(8 * n))
    v = bv(e.num(s, v, 8 * n), 8 * n)
    seed = bv(e.num(s, a[2], e.pb), e.pb)
    key = ('hash_bytes', n)
    f = e.ufs.get(key)
    if f is None:
        f = e.ufs[key] = z3.Function('hash_bytes%d' % n, z3.BitVecSort(8 * n), z3.BitVecSort(e.pb), z3.BitVecSort(e.pb))
    return f(v, seed)


def b_overflow(e, s, fr, ins, a):
    raise Unsupported('overflow intrinsic')


def b_fabs(e, s, fr, ins, a):
    n = ins[2].n
    return simp(bv(a[0], n) & z3.BitVecVal((1 << (n - 1)) - 1, n))


def b_is_fpclass(e, s, fr, ins, a):
    ty = ins[4][0][0]
    x = e.fp(a[0], ty.n); m = cint(a[1])
    X = bv(a[0], ty.n)
    mant = {32: 23, 64: 52}[ty.n]
    quiet = z3.Extract(mant - 1, mant - 1, X) == 1
    c = []
    if m & 1: c.append(z3.And(z3.fpIsNaN(x), z3.Not(quiet)))
    if m & 2: c.append(z3.And(z3.fpIsNaN(x), quiet))
    neg = z3.Extract(ty.n - 1, ty.n - 1, X) == 1
    for bit, p in ((4, z3.And(z3.fpIsInf(x), neg)), (8, z3.And(z3.fpIsNormal(x), neg)), (16, z3.And(z3.fpIsSubnormal(x), neg)), (32, z3.And(z3.fpIsZero(x), neg)),
                   (64, z3.And(z3.fpIsZero(x), z3.Not(neg))), (128, z3.And(z3.fpIsSubnormal(x), z3.Not(neg))), (256, z3.And(z3.fpIsNormal(x), z3.Not(neg))), (512, z3.And(z3.fpIsInf(x), z3.Not(neg)))):
        if m & bit: c.append(p)
    return simp(z3.Or(*c)) if c else 0


def b_target(e, s, fr, ins, a):
    p = a[0]
    s.flags = dict(s.flags)
    s.flags['target'] = s.mem[p.o].name if isinstance(p, Ptr) else None


def b_nest(e, s, fr, ins, a):
    k1, k2 = sorted((cint(a[0]), cint(a[1])))
    s.flags = dict(s.flags); s.flags['nest%d_%d' % (k1, k2)] = True


def b_throws(e, s, fr, ins, a):
    if s.builder:
        return 0
    tag = cstr(e, s, a[0])
    v = e.fresh(8, 'throws')
    s.tape.append(('throws:' + tag, 8, v))
    c = simp(z3.Extract(0, 0, v) == 1)
    st, sf = e.split(s, c)
    e.finish_call(st, st.frames[-1], 1)
    e.finish_call(sf, sf.frames[-1], 0)
    return Forks([(st, c), (sf, z3.Not(c))])


def b_concrete(e, s, fr, ins, a):
    """vp_concretize(b): fork on a boolean so that later code sees a constant"""
    v = a[0]
    if is_sym(v):
        v = simp(tobool(v))
    if isinstance(v, int):
        return 1 if v else 0
    d = e.decide(s, v)
    if d is not None:
        return d
    st, sf = e.split(s, v)
    e.finish_call(st, st.frames[-1], 1)
    e.finish_call(sf, sf.frames[-1], 0)
    return Forks([(st, v), (sf, z3.Not(v))])


BUILTIN = {
    '@vp_nondet': b_nondet, '@vp_assume': b_assume, '@vp_assert': b_assert, '@vp_cover': b_cover, '@vp_havoc': b_havoc,
    '@vp_havoc_word': b_havoc_word, '@vp_birth': b_birth, '@vp_kill': b_kill, '@vp_is_live': b_islive, '@vp_val': b_val,
    '@vp_setval': b_setval, '@vp_live_in': b_live_in, '@vp_live_count': b_live_count, '@vp_protect': b_protect,
    '@vp_unprotect': b_unprotect, '@vp_builder': b_builder, '@vp_expect_assert': b_expect, '@vp_uf1': b_uf, '@vp_uf2': b_uf,
    '@vp_count': b_counter, '@vp_setg': b_setg, '@vp_getg': b_getg, '@vp_target': b_target, '@vp_nest': b_nest,
    '@vp_fork': b_concrete, '@vp_throws': b_throws,
    '@__assert_fail': b_assert_fail, '@_ZSt9terminatev': b_terminate, '@abort': b_terminate, '@exit': b_terminate,
    '@_ZSt10unexpectedv': b_terminate,
    '@__cxa_pure_virtual': b_terminate,
    '@__cxa_allocate_exception': b_alloc_exc, '@__cxa_free_exception': b_none, '@__cxa_throw': b_throw,
    '@__cxa_begin_catch': b_begin_catch, '@__cxa_end_catch': b_end_catch, '@__cxa_rethrow': b_rethrow,
    '@__cxa_get_exception_ptr': b_identity, '@_ZSt19uncaught_exceptionsv': b_uncaught_exceptions, '@_ZSt18uncaught_exceptionv': b_uncaught_exception,
    '@memcpy': b_memcpy, '@memmove': b_memcpy, '@memset': b_memset, '@memcmp': b_memcmp, '@bcmp': b_memcmp, '@strlen': b_strlen,
    '@_Znwm': b_new, '@_Znwj': b_new, '@_ZdlPv': b_delete, '@_ZdlPvm': b_delete, '@_ZdlPvj': b_delete,
    '@_ZSt11_Hash_bytesPKvmm': b_hash_bytes, '@_ZSt11_Hash_bytesPKvjj': b_hash_bytes,
    '@_ZNSt9exceptionD2Ev': b_none,
}
INTRIN = [
    ('@llvm.memcpy', b_memcpy), ('@llvm.memmove', b_memcpy), ('@llvm.memset', b_memset), ('@llvm.eh.typeid.for', b_typeid),
    ('@llvm.trap', b_trap), ('@llvm.ubsantrap', b_trap), ('@llvm.assume', b_llvm_assume), ('@llvm.expect', b_identity),
    ('@llvm.is.constant', b_zero), ('@llvm.lifetime', b_none), ('@llvm.launder', b_identity), ('@llvm.strip', b_identity),
    ('@llvm.fabs', b_fabs), ('@llvm.is.fpclass', b_is_fpclass), ('@llvm.threadlocal.address', b_identity),
    ('@llvm.stacksave', b_zero), ('@llvm.stackrestore', b_none), ('@llvm.donothing', b_none), ('@llvm.experimental.noalias', b_none),
]
