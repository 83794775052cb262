"""Symbolic executor for the LLVM IR of a harness: path merging, loop unrolling with unwinding assertions."""
import heapq
import math
import re
import struct
import time
from fractions import Fraction
import z3
from . import ir
from .dom import (RV, SpecialConst, b_and, b_ite, b_not, b_or, b_xor, bz)

MASK64 = (1 << 64) - 1


class Unsupported(Exception):
    pass


class Ptr:
    __slots__ = ('obj', 'off')

    def __init__(self, obj, off):
        self.obj = obj      # int id, 0 = null, or ('fn', name)
        self.off = off

    def __repr__(self):
        return 'Ptr(%s,%s)' % (self.obj, self.off)


class PtrIte:
    __slots__ = ('alts',)

    def __init__(self, alts):
        self.alts = alts    # [(cond, Ptr)] mutually exclusive


class Bits:
    """a non-integer value seen through an integer type"""
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v


NULL = Ptr(0, 0)


class Obj:
    __slots__ = ('size', 'cells', 'name', 'const')

    def __init__(self, size, name='', cells=None):
        self.size = size
        self.cells = cells if cells is not None else {}
        self.name = name

    def copy(self):
        return Obj(self.size, self.name, dict(self.cells))


class Frame:
    __slots__ = ('fn', 'block', 'ip', 'regs', 'iters', 'call', 'allocas')

    def __init__(self, fn):
        self.fn = fn
        self.block = fn.order[0]
        self.ip = 0
        self.regs = {}
        self.iters = {}
        self.call = None

    def copy(self):
        f = Frame.__new__(Frame)
        f.fn, f.block, f.ip, f.call = self.fn, self.block, self.ip, self.call
        f.regs = dict(self.regs)
        f.iters = dict(self.iters)
        return f

    def key(self):
        num, nest, loops = self.fn.analysis
        k = []
        for h in nest[self.block]:
            k.append(num[h])
            k.append(self.iters.get(h, 0))
        k.append(num[self.block])
        k.append(self.ip)
        return tuple(k)


class State:
    __slots__ = ('frames', 'pc', 'mem', 'exc', 'caught')

    def __init__(self):
        self.frames = []
        self.pc = ()
        self.mem = {}
        self.exc = None
        self.caught = ()

    def fork(self):
        s = State()
        s.frames = [f.copy() for f in self.frames]
        s.pc = self.pc
        s.mem = dict(self.mem)      # objects are copied on write through own()
        s.exc = self.exc
        s.caught = self.caught
        return s

    def key(self):
        return tuple(f.key() for f in self.frames)


class Outcome:
    def __init__(self, kind, detail, state):
        self.kind = kind
        self.detail = detail
        self.state = state

    def cond(self):
        return b_and(*self.state.pc)


def is_sym(v):
    return isinstance(v, z3.ExprRef)


def bvw(v, w):
    return v if isinstance(v, z3.ExprRef) else z3.BitVecVal(v, w)


def abstract_reals(e):
    """e with its largest boolean subterms over reals replaced by fresh boolean variables"""
    if not has_real(e):
        return e
    memo = {}

    def go(x):
        k = x.get_id()
        if k in memo:
            return memo[k]
        if not has_real(x):
            r = x
        elif z3.is_bool(x) and (z3.is_le(x) or z3.is_ge(x) or z3.is_lt(x) or z3.is_gt(x) or any(z3.is_arith(y) for y in x.children())):
            r = z3.FreshBool('abs')
        elif z3.is_arith(x):
            raise Unsupported('integer made from a real')
        else:
            ch = [go(y) for y in x.children()]
            r = z3.If(*ch) if z3.is_app_of(x, z3.Z3_OP_ITE) else z3.And(*ch) if z3.is_and(x) else z3.Or(*ch) if z3.is_or(x) else x.decl()(*ch)
        memo[k] = r
        return r
    return go(e)


def has_real(e, cache={}):
    k = e.get_id()
    r = cache.get(k)
    if r is not None and r[0].eq(e):
        return r[1]
    seen = set()
    stack = [e]
    res = False
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_arith(x) or z3.is_fp(x):
            res = True
            break
        stack.extend(x.children())
    cache[k] = (e, res)
    return res


class Machine:
    def __init__(self, module, dom, loop_bound=80, trace=None):
        self.m = module
        self.dom = dom
        self.loop_bound = loop_bound
        self.next_obj = 1
        self.globals = {}
        self.outcomes = []
        self.n_instr = 0
        self.n_states = 0
        self.n_merges = 0
        self.n_checks = 0
        self.solver_time = 0.0
        self.functions = set()
        self.externals = set()
        self.solver = z3.Solver()
        self.solver.set('timeout', 2000)
        self.bvsolver = z3.Solver()
        self.bvsolver.set('timeout', 20000)
        self.fresh_n = 0
        self.base = State()
        self.undef_used = 0
        self.addr = {}

    # ---- types
    def resolve(self, t):
        while t[0] == 'named':
            t = self.m.types[t[1]]
        return t

    def align(self, t):
        t = self.resolve(t)
        k = t[0]
        if k == 'int':
            b = (t[1] + 7) // 8
            return 1 if b == 1 else 2 if b == 2 else 4 if b <= 4 else 8 if b <= 8 else 16
        if k in ('double', 'ptr'):
            return 8
        if k == 'float':
            return 4
        if k in ('array',):
            return self.align(t[2])
        if k == 'vec':
            return self.sizeof(t)
        if k == 'struct':
            return 1 if t[2] else max([1] + [self.align(x) for x in t[1]])
        if k == 'x86_fp80':
            return 16
        raise Unsupported('align %r' % (t,))

    def sizeof(self, t):
        t = self.resolve(t)
        k = t[0]
        if k == 'int':
            b = (t[1] + 7) // 8
            a = self.align(t)
            return (b + a - 1) // a * a
        if k in ('double', 'ptr'):
            return 8
        if k == 'float':
            return 4
        if k == 'array':
            return t[1] * self.sizeof(t[2])
        if k == 'vec':
            return t[1] * self.sizeof(t[2])
        if k == 'struct':
            o = 0
            for x in t[1]:
                if not t[2]:
                    a = self.align(x)
                    o = (o + a - 1) // a * a
                o += self.sizeof(x)
            if not t[2]:
                a = self.align(t)
                o = (o + a - 1) // a * a
            return o
        if k == 'x86_fp80':
            return 16
        raise Unsupported('sizeof %r' % (t,))

    def fieldoff(self, t, i):
        t = self.resolve(t)
        if t[0] in ('array', 'vec'):
            return i * self.sizeof(t[2]), t[2]
        o = 0
        for j, x in enumerate(t[1]):
            if not t[2]:
                a = self.align(x)
                o = (o + a - 1) // a * a
            if j == i:
                return o, x
            o += self.sizeof(x)
        raise Unsupported('field')

    # ---- memory
    def new_obj(self, st, size, name=''):
        i = self.next_obj
        self.next_obj += 1
        st.mem[i] = Obj(size, name)
        return i

    def address(self, obj):
        if obj == 0:
            return 0
        if isinstance(obj, tuple):
            a = self.addr.get(obj)
            if a is None:
                a = self.addr[obj] = (1 << 40) + (len(self.addr) + 1) * 64
            return a
        return obj << 24

    def own(self, st, obj):
        o = st.mem[obj].copy()
        st.mem[obj] = o
        return o

    def fresh_int(self, w, name='undef'):
        self.fresh_n += 1
        if w == 1:
            return z3.Bool('%s!%d' % (name, self.fresh_n))
        return z3.BitVec('%s!%d' % (name, self.fresh_n), w)

    def undef(self, t):
        t = self.resolve(t)
        self.undef_used += 1
        k = t[0]
        if k == 'int':
            return self.fresh_int(t[1])
        if k in ('double', 'float'):
            return self.dom.fresh('undef')
        if k == 'ptr':
            return NULL
        if k == 'struct':
            return tuple(self.undef(x) for x in t[1])
        if k in ('array', 'vec'):
            return tuple(self.undef(t[2]) for _ in range(t[1]))
        raise Unsupported('undef %r' % (t,))

    def zero(self, t):
        t = self.resolve(t)
        k = t[0]
        if k == 'int':
            return False if t[1] == 1 else 0
        if k in ('double', 'float'):
            return self.dom.const(0.0)
        if k == 'ptr':
            return NULL
        if k == 'struct':
            return tuple(self.zero(x) for x in t[1])
        if k in ('array', 'vec'):
            return tuple(self.zero(t[2]) for _ in range(t[1]))
        raise Unsupported('zero %r' % (t,))

    def is_fpval(self, v):
        return isinstance(v, (RV, SpecialConst)) or (isinstance(v, z3.ExprRef) and z3.is_fp(v))

    def conv(self, v, t):
        """reinterpret the value of a memory cell as type t (same size)"""
        k = t[0]
        if isinstance(v, Bits):
            v = v.v
        if k == 'int':
            w = t[1]
            if isinstance(v, (Ptr, PtrIte)):
                return self.ptrtoint(v, w)
            if self.is_fpval(v):
                if self.dom.mode == 'fp':
                    return z3.simplify(z3.fpToIEEEBV(v))
                if isinstance(v, RV) and v.const():
                    return struct.unpack('<Q', struct.pack('<d', float(v.value())))[0]
                if isinstance(v, SpecialConst):
                    return struct.unpack('<Q', struct.pack('<d', v.f))[0]
                return Bits(v)
            if w == 1:
                if isinstance(v, int):
                    return bool(v & 1)
                return z3.simplify(z3.Extract(0, 0, v) == 1)
            if isinstance(v, int):
                return v & ((1 << w) - 1)
            if v.size() > w:
                return z3.Extract(w - 1, 0, v)
            return v
        if k == 'double':
            if self.is_fpval(v):
                return v
            if isinstance(v, int):
                f = struct.unpack('<d', struct.pack('<Q', v))[0]
                return self.dom.const(f)
            if isinstance(v, z3.ExprRef) and self.dom.mode == 'fp':
                return z3.fpBVToFP(v, z3.Float64())
            if isinstance(v, z3.ExprRef) and z3.is_app_of(v, z3.Z3_OP_ITE):
                return self.dom.ite(v.arg(0), self.conv(self.unlift(v.arg(1)), t), self.conv(self.unlift(v.arg(2)), t))
            raise Unsupported('integer bits read as a double: %s' % (v,))
        if k == 'ptr':
            if isinstance(v, (Ptr, PtrIte)):
                return v
            return self.inttoptr(v)
        raise Unsupported('conv %r' % (t,))

    @staticmethod
    def unlift(v):
        if z3.is_bv_value(v):
            return v.as_long()
        return v

    def ptrtoint(self, p, w=64):
        if isinstance(p, PtrIte):
            r = None
            for c, q in reversed(p.alts):
                x = self.ptrtoint(q, w)
                r = x if r is None else self.ite_int(c, x, r, w)
            return r
        a = self.address(p.obj)
        if isinstance(p.off, int):
            return (a + p.off) & ((1 << w) - 1)
        r = p.off + a
        return r if w == 64 else z3.Extract(w - 1, 0, r)

    def inttoptr(self, v):
        if isinstance(v, z3.ExprRef):
            v = z3.simplify(v)
            if z3.is_bv_value(v):
                v = v.as_long()
            elif z3.is_app_of(v, z3.Z3_OP_ITE):
                return self.ite(v.arg(0), self.inttoptr(v.arg(1)), self.inttoptr(v.arg(2)))
            else:
                if z3.is_const(v) and v.decl().name().startswith('undef!'):
                    return NULL    # never stored; using it as an address is an error like any null access
                raise Unsupported('inttoptr of symbolic')
        if v == 0:
            return NULL
        return Ptr(v >> 24, v & 0xffffff)

    def cell_bytes(self, v, size):
        """list of byte values of a cell, or None"""
        if isinstance(v, Bits):
            v = v.v
        if self.is_fpval(v):
            if isinstance(v, RV) and v.const():
                v = struct.unpack('<Q', struct.pack('<d', float(v.value())))[0]
            elif self.dom.mode == 'fp':
                v = z3.fpToIEEEBV(v)
            else:
                return None
        if isinstance(v, (Ptr, PtrIte)):
            v = self.ptrtoint(v)
        if isinstance(v, int):
            return [(v >> (8 * i)) & 255 for i in range(size)]
        return [z3.simplify(z3.Extract(8 * i + 7, 8 * i, v)) for i in range(size)]

    def load_at(self, st, obj, off, t):
        o = st.mem[obj]
        sz = self.sizeof(t)
        k = t[0]
        if k in ('struct', 'array', 'vec'):
            n = len(t[1]) if k == 'struct' else t[1]
            out = []
            for i in range(n):
                fo, ft = self.fieldoff(t, i)
                out.append(self.load_at(st, obj, off + fo, self.resolve(ft)))
            return tuple(out)
        c = o.cells.get(off)
        if c is not None and c[0] == sz:
            return self.conv(c[1], t)
        # assemble from bytes
        bs = [None] * sz
        for co, (cs, cv) in o.cells.items():
            if co < off + sz and co + cs > off:
                cb = self.cell_bytes(cv, cs)
                if cb is None:
                    raise Unsupported('partial load of a floating point cell')
                for i in range(cs):
                    j = co + i - off
                    if 0 <= j < sz:
                        bs[j] = cb[i]
        if all(b is None for b in bs):
            v = self.undef(t)
            o2 = self.own(st, obj)
            o2.cells[off] = (sz, self.to_cell(v, t)[1])
            return v
        bs = [self.fresh_int(8) if b is None else b for b in bs]
        if all(isinstance(b, int) for b in bs):
            v = sum(b << (8 * i) for i, b in enumerate(bs))
        else:
            v = z3.simplify(z3.Concat(*[bvw(b, 8) for b in reversed(bs)])) if sz > 1 else bs[0]
        return self.conv(v, t)

    def to_cell(self, v, t):
        sz = self.sizeof(t)
        if t[0] == 'int':
            if t[1] == 1:
                if isinstance(v, bool) or isinstance(v, int):
                    v = int(v)
                else:
                    v = z3.If(v, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))
            elif sz * 8 != t[1] and isinstance(v, z3.ExprRef):
                v = z3.ZeroExt(sz * 8 - t[1], v)
        return sz, v

    def store_at(self, st, obj, off, t, v):
        k = t[0]
        if k in ('struct', 'array', 'vec'):
            n = len(t[1]) if k == 'struct' else t[1]
            for i in range(n):
                fo, ft = self.fieldoff(t, i)
                self.store_at(st, obj, off + fo, self.resolve(ft), v[i])
            return
        o = self.own(st, obj)
        sz, v = self.to_cell(v, t)
        self.put(o, off, sz, v)

    def put(self, o, off, sz, v):
        c = o.cells.get(off)
        if c is None or c[0] != sz:
            self.clear(o, off, sz)
        o.cells[off] = (sz, v)

    def clear(self, o, off, sz):
        for co in [co for co, (cs, _) in o.cells.items() if co < off + sz and co + cs > off]:
            cs, cv = o.cells.pop(co)
            if co < off or co + cs > off + sz:
                cb = self.cell_bytes(cv, cs)
                if cb is None:
                    raise Unsupported('partial overwrite of a floating point cell')
                for i in range(cs):
                    if not off <= co + i < off + sz:
                        o.cells[co + i] = (1, cb[i])

    def alts(self, p):
        if isinstance(p, PtrIte):
            return p.alts
        return [(True, p)]

    def offsets(self, st, p, sz, guard, what):
        """concrete offsets a pointer can have; states in which it is outside the object end as 'oob'"""
        o = st.mem.get(p.obj) if not isinstance(p.obj, tuple) else None
        if o is None:
            return None
        if isinstance(p.off, int):
            if p.off + sz > o.size or p.off < 0:
                return None
            return [p.off]
        off = z3.simplify(p.off)
        if z3.is_bv_value(off):
            return self.offsets(st, Ptr(p.obj, off.as_long()), sz, guard, what)
        cand = list(range(0, o.size - sz + 1, sz))
        bad = z3.And(*[off != c for c in cand]) if cand else z3.BoolVal(True)
        if self.feasible(st.pc, b_and(guard, bad)):
            # unaligned or out of bounds: enumerate
            cand = []
            s = z3.Solver()
            s.set('timeout', 20000)
            for c in st.pc:
                if not has_real(c):
                    s.add(c)
            if guard is not True and not has_real(guard):
                s.add(guard)
            s.add(z3.ULE(off, o.size - sz))
            while len(cand) < 4096 and s.check() == z3.sat:
                v = s.model().eval(off, model_completion=True).as_long()
                cand.append(v)
                s.add(off != v)
            bad = z3.UGT(off, o.size - sz)
            if self.feasible(st.pc, b_and(guard, bad)):
                b = st.fork()
                b.pc = b.pc + tuple(x for x in (guard, bad) if x is not True)
                self.end('oob', '%s at %s' % (what, o.name), b)
                self.add_pc(st, b_or(b_not(guard), b_not(bad)))
        return cand

    def add_pc(self, st, c):
        if c is True:
            return
        st.pc = st.pc + (bz(c),)

    def load(self, st, p, t):
        t = self.resolve(t)
        sz = self.sizeof(t)
        res = None
        alts = self.alts(p)
        vals = []
        for c, q in alts:
            if c is not True and not self.feasible(st.pc, c):
                continue
            offs = self.offsets(st, q, sz, c, 'load')
            if not offs:
                b = st.fork()
                self.add_pc(b, c)
                self.end('oob', 'load through bad pointer %r in %s' % (q, st.frames[-1].fn.name), b)
                if c is True:
                    return None
                self.add_pc(st, b_not(c))
                continue
            for f in offs:
                cc = c if len(offs) == 1 else b_and(c, q.off == f)
                vals.append((cc, self.load_at(st, q.obj, f, t)))
        if not vals:
            return None
        res = vals[-1][1]
        for c, v in reversed(vals[:-1]):
            res = self.ite(c, v, res, t)
        return res

    def store(self, st, p, t, v):
        t = self.resolve(t)
        sz = self.sizeof(t)
        for c, q in self.alts(p):
            if c is not True and not self.feasible(st.pc, c):
                continue
            offs = self.offsets(st, q, sz, c, 'store')
            if not offs:
                b = st.fork()
                self.add_pc(b, c)
                self.end('oob', 'store through bad pointer %r in %s' % (q, st.frames[-1].fn.name), b)
                if c is True:
                    return False
                self.add_pc(st, b_not(c))
                continue
            for f in offs:
                cc = c if len(offs) == 1 else b_and(c, q.off == f)
                if cc is True:
                    self.store_at(st, q.obj, f, t, v)
                else:
                    self.store_at(st, q.obj, f, t, self.ite(cc, v, self.load_at(st, q.obj, f, t), t))
        return True

    # ---- value merging
    def ite_int(self, c, a, b, w):
        if isinstance(a, Bits) or isinstance(b, Bits):
            a = a.v if isinstance(a, Bits) else self.conv(a, ('double',))
            b = b.v if isinstance(b, Bits) else self.conv(b, ('double',))
            return Bits(self.dom.ite(c, a, b))
        if w == 1:
            return b_ite(c, a, b)
        if isinstance(a, int) and isinstance(b, int):
            if a == b:
                return a
        elif is_sym(a) and is_sym(b) and a.eq(b):
            return a
        return z3.If(c, bvw(a, w), bvw(b, w))

    def ite(self, c, a, b, t=None):
        if c is True:
            return a
        if c is False:
            return b
        if a is b:
            return a
        if isinstance(a, tuple):
            ts = [None] * len(a)
            if t is not None:
                t = self.resolve(t)
                ts = list(t[1]) if t[0] == 'struct' else [t[2]] * t[1]
            return tuple(self.ite(c, x, y, tt) for x, y, tt in zip(a, b, ts))
        if isinstance(a, (Ptr, PtrIte)) or isinstance(b, (Ptr, PtrIte)):
            if not isinstance(a, (Ptr, PtrIte)):
                a = self.inttoptr(a)
            if not isinstance(b, (Ptr, PtrIte)):
                b = self.inttoptr(b)
            return self.ite_ptr(c, a, b)
        if self.is_fpval(a) or self.is_fpval(b):
            if isinstance(a, Bits):
                a = a.v
            if isinstance(b, Bits):
                b = b.v
            if not self.is_fpval(a):
                a = self.conv(a, ('double',))
            if not self.is_fpval(b):
                b = self.conv(b, ('double',))
            return self.dom.ite(c, a, b)
        if isinstance(a, bool) or isinstance(b, bool) or (is_sym(a) and z3.is_bool(a)):
            return b_ite(c, a, b)
        if isinstance(a, Bits) or isinstance(b, Bits):
            return self.ite_int(c, a, b, 64)
        if is_sym(a):
            w = a.size()
        elif is_sym(b):
            w = b.size()
        elif a == b:
            return a
        else:
            if t is None:
                raise Unsupported('width of merged integers')
            t = self.resolve(t)
            w = t[1] if t[0] == 'int' else 64
        return self.ite_int(c, a, b, w)

    def ite_ptr(self, c, a, b):
        alts = []
        for x, y in self.alts(a):
            alts.append((b_and(c, x), y))
        nc = b_not(c)
        for x, y in self.alts(b):
            alts.append((b_and(nc, x), y))
        out = []
        for x, y in alts:
            for i, (cc, q) in enumerate(out):
                if q.obj == y.obj and (q.off is y.off or (isinstance(q.off, int) and isinstance(y.off, int) and q.off == y.off)):
                    out[i] = (b_or(cc, x), q)
                    break
            else:
                out.append((x, y))
        if len(out) == 1:
            return out[0][1]
        # same object everywhere: one pointer with a symbolic offset
        if all(q.obj == out[0][1].obj for _, q in out) and out[0][1].obj != 0:
            off = bvw(out[-1][1].off, 64)
            for cc, q in reversed(out[:-1]):
                off = z3.If(cc, bvw(q.off, 64), off)
            return Ptr(out[0][1].obj, off)
        return PtrIte(out)

    # ---- feasibility
    def feasible(self, pc, c, strong=False):
        if c is True:
            return True
        if c is False:
            return False
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        real = has_real(c)
        t = time.time()
        self.n_checks += 1
        if not real:
            a = [x for x in pc if not has_real(x)] + [c]
            r = self.bvsolver.check(*a)
        else:
            a = [x for x in pc] + [c]
            self.solver.set('timeout', 2000 if strong else 300)
            r = self.solver.check(*a, *self.dom.axioms)
        self.solver_time += time.time() - t
        return r != z3.unsat

    def bvcheck(self, pc, c):
        a = [x for x in pc if not has_real(x)] + [c]
        self.n_checks += 1
        t = time.time()
        r = self.bvsolver.check(*a)
        self.solver_time += time.time() - t
        return r

    # ---- evaluation of operands
    def val(self, st, op, t):
        k = op[0]
        if k == 'reg':
            return st.frames[-1].regs[op[1]]
        if k == 'int':
            return bool(op[1]) if op[2] == 1 else op[1]
        if k == 'fp':
            return self.dom.const(op[1])
        if k == 'null':
            return NULL
        if k == 'global':
            return self.global_ptr(st, op[1])
        if k == 'undef':
            return self.undef(op[1])
        if k == 'zero':
            return self.zero(op[1])
        if k == 'agg':
            return tuple(self.val(st, v, tt) for tt, v in op[1])
        if k == 'cgep':
            return self.gep(st, op[1], op[2])
        if k == 'ccast':
            v = self.val(st, op[3], op[2])
            if op[1] == 'ptrtoint':
                return self.ptrtoint(v, op[4][1])
            if op[1] == 'inttoptr':
                return self.inttoptr(v)
            if op[1] in ('bitcast', 'addrspacecast'):
                return v
        raise Unsupported('operand %r' % (op,))

    def global_ptr(self, st, name):
        if name in self.m.funcs or name in self.m.decls:
            return Ptr(('fn', name), 0)
        g = self.m.globals.get(name)
        if g is None:
            raise Unsupported('global ' + name)
        if g[0] == 'alias':
            return self.global_ptr(st, g[1])
        if name in self.globals:
            obj = self.globals[name]
            if obj not in st.mem:
                st.mem[obj] = self.base.mem[obj]
            return Ptr(obj, 0)
        _, t, ts, const = g
        if ts is None:
            obj = self.next_obj
            self.next_obj += 1
            self.base.mem[obj] = Obj(64, name)
        else:
            sz = self.sizeof(t)
            obj = self.next_obj
            self.next_obj += 1
            self.base.mem[obj] = Obj(sz, name)
            self.globals[name] = obj
            i = ts.i
            v = ir.parse_value(ts, t)
            ts.i = i
            if name.endswith('E10first_time'):      # the one-time warning has already been printed
                v = ('zero',)
            self.init_global(self.base, obj, 0, self.resolve(t), v)
        self.globals[name] = obj
        st.mem[obj] = self.base.mem[obj]
        return Ptr(obj, 0)

    def init_global(self, st, obj, off, t, v):
        if v[0] == 'agg':
            for i, (et, ev) in enumerate(v[1]):
                fo, _ = self.fieldoff(t, i)
                self.init_global(st, obj, off + fo, self.resolve(et), ev)
        elif v[0] == 'cstr':
            o = self.own(st, obj)
            for i, b in enumerate(v[1]):
                o.cells[off + i] = (1, b)
        elif v[0] == 'zero':
            self.memset(st, obj, off, self.sizeof(t), 0)
        elif v[0] == 'undef':
            pass
        else:
            self.store_at(st, obj, off, t, self.val(st, v, t))

    def memset(self, st, obj, off, n, b):
        o = self.own(st, obj)
        self.clear(o, off, n)
        i = off
        while i < off + n:
            if i % 8 == 0 and i + 8 <= off + n:
                o.cells[i] = (8, b * 0x0101010101010101)
                i += 8
            elif i % 4 == 0 and i + 4 <= off + n:
                o.cells[i] = (4, b * 0x01010101)
                i += 4
            else:
                o.cells[i] = (1, b)
                i += 1

    def gep(self, st, base, ops):
        p = self.val(st, ops[0][1], ops[0][0])
        t = base
        delta = 0
        first = True
        for ot, ov in ops[1:]:
            v = self.val(st, ov, ot)
            if first:
                delta = self.addoff(delta, v, self.sizeof(t), ot[1])
                first = False
                continue
            t = self.resolve(t)
            if t[0] == 'struct':
                o, t = self.fieldoff(t, v)
                delta = self.addoff(delta, o, 1, 64)
            else:
                delta = self.addoff(delta, v, self.sizeof(t[2]), ot[1])
                t = t[2]
        if isinstance(delta, int) and delta == 0:
            return p
        if isinstance(p, PtrIte):
            return PtrIte([(c, Ptr(q.obj, self.off_add(q.off, delta))) for c, q in p.alts])
        return Ptr(p.obj, self.off_add(p.off, delta))

    @staticmethod
    def off_add(a, b):
        if isinstance(a, int) and isinstance(b, int):
            r = (a + b) & MASK64
            return r - (1 << 64) if r >> 63 else r
        return bvw(a & MASK64 if isinstance(a, int) else a, 64) + bvw(b & MASK64 if isinstance(b, int) else b, 64)

    def addoff(self, d, v, scale, w):
        if isinstance(v, int):
            if w == 1:
                v = -int(v)
            elif v >> (w - 1):
                v -= 1 << w
            return self.off_add(d, v * scale)
        if w < 64:
            v = z3.SignExt(64 - w, v)
        return self.off_add(d, v * scale if scale != 1 else v)

    # ---- running
    def end(self, kind, detail, st):
        self.outcomes.append(Outcome(kind, detail, st))

    def run(self, fname, args, pc=(), mem=None):
        """executes function fname on args; returns list of outcomes"""
        fn = ir.get_func(self.m, fname)
        st = State()
        st.mem = dict(self.base.mem)
        if mem:
            st.mem.update(mem)
        st.pc = tuple(pc)
        f = Frame(fn)
        for (t, nm, at), v in zip(fn.params, args):
            f.regs[nm] = v
        st.frames = [f]
        self.functions.add(fname)
        self.outcomes = []
        self.queue = {}
        self.heap = []
        self.enqueue(st)
        while self.heap:
            k = heapq.heappop(self.heap)
            sts = self.queue.pop(k)
            self.n_states += 1
            s = sts[0] if len(sts) == 1 else self.merge(sts)
            self.exec(s)
        # merge the returning states
        rets = [o for o in self.outcomes if o.kind == 'ret']
        if len(rets) > 1:
            s = self.merge([o.state for o in rets])
            self.outcomes = [o for o in self.outcomes if o.kind != 'ret'] + [Outcome('ret', None, s)]
        return self.outcomes

    def enqueue(self, st):
        k = st.key()
        q = self.queue.get(k)
        if q is None:
            self.queue[k] = [st]
            heapq.heappush(self.heap, k)
        else:
            q.append(st)

    def merge(self, sts):
        s = sts[0]
        for o in sts[1:]:
            s = self.merge2(s, o)
        return s

    def merge2(self, a, b):
        self.n_merges += 1
        i = 0
        while i < len(a.pc) and i < len(b.pc) and a.pc[i].eq(b.pc[i]):
            i += 1
        sa, sb = a.pc[i:], b.pc[i:]
        ca = b_and(*sa)
        cb = b_and(*sb)
        r = State()
        if ca is True:
            # b's condition is stronger: b is a sub-case of the whole remaining space
            cond = b_not(cb)
            r.pc = a.pc[:i]
        elif cb is True:
            cond = ca
            r.pc = a.pc[:i]
        else:
            cond = ca
            # drop complementary heads
            if len(sa) == 1 and len(sb) == 1 and (b_not(sa[0]).eq(sb[0]) or b_not(sb[0]).eq(sa[0])):
                r.pc = a.pc[:i]
            else:
                # share the first complementary conjunct as the selector
                if b_not(sa[0]).eq(sb[0]) or b_not(sb[0]).eq(sa[0]):
                    cond = sa[0]
                r.pc = a.pc[:i] + (z3.simplify(b_or(ca, cb)),)
        if isinstance(cond, z3.ExprRef):
            cond = z3.simplify(cond)
            if z3.is_true(cond):
                cond = True
            elif z3.is_false(cond):
                cond = False
        if len(a.frames) != len(b.frames):
            raise Unsupported('merge of different stacks')
        for fa, fb in zip(a.frames, b.frames):
            f = fa.copy()
            if fa.ip == 0:
                live = self.live_in(fa.fn, fa.block)
            else:
                live = None
            regs = {}
            for k, va in fa.regs.items():
                if live is not None and k not in live:
                    continue
                if k in fb.regs:
                    vb = fb.regs[k]
                    regs[k] = va if va is vb else self.ite(cond, va, vb, self.reg_type(fa.fn, k))
            f.regs = regs
            r.frames.append(f)
        for k, oa in a.mem.items():
            ob = b.mem.get(k)
            if ob is None or ob is oa:
                r.mem[k] = oa
                continue
            r.mem[k] = self.merge_obj(cond, oa, ob)
        for k, ob in b.mem.items():
            if k not in a.mem:
                r.mem[k] = ob
        r.exc = a.exc if a.exc is not None else b.exc
        if a.exc is not None and b.exc is not None and a.exc is not b.exc:
            r.exc = (self.ite(cond, a.exc[0], b.exc[0]), a.exc[1], a.exc[2]) if a.exc[1] == b.exc[1] else None
            if r.exc is None:
                raise Unsupported('merge of different exceptions')
        r.caught = a.caught if a.caught else b.caught
        return r

    def merge_obj(self, cond, oa, ob):
        if oa.cells == ob.cells and False:
            return oa
        o = Obj(oa.size, oa.name)
        for k in set(oa.cells) | set(ob.cells):
            ca, cb = oa.cells.get(k), ob.cells.get(k)
            if ca is not None and cb is not None and ca[0] == cb[0]:
                va, vb = ca[1], cb[1]
                o.cells[k] = ca if va is vb else (ca[0], self.ite(cond, va, vb, ('int', ca[0] * 8)))
            elif ca is None and not self.overlaps(oa, k, cb[0]):
                o.cells[k] = cb          # undefined on the other side
            elif cb is None and not self.overlaps(ob, k, ca[0]):
                o.cells[k] = ca
            else:
                # different granularity: go to bytes
                base = ca if ca is not None else cb
                for i in range(base[0]):
                    xa = self.byte_of(oa, k + i)
                    xb = self.byte_of(ob, k + i)
                    o.cells[k + i] = (1, self.ite_int(cond, xa, xb, 8))
        # remove overlaps between byte cells and wide cells
        out = {}
        for k in sorted(o.cells):
            if o.cells[k][0] > 1 and any((k + i) in o.cells for i in range(1, o.cells[k][0])):
                for i, bv in enumerate(self.cell_bytes(o.cells[k][1], o.cells[k][0])):
                    out.setdefault(k + i, (1, bv))
            else:
                out[k] = o.cells[k]
        o.cells = out
        return o

    def overlaps(self, o, off, sz):
        return any(co < off + sz and co + cs > off for co, (cs, _) in o.cells.items())

    def byte_of(self, o, off):
        for co, (cs, cv) in o.cells.items():
            if co <= off < co + cs:
                b = self.cell_bytes(cv, cs)
                if b is None:
                    raise Unsupported('merge of floating point bytes')
                return b[off - co]
        return self.fresh_int(8)

    def live_in(self, fn, block):
        L = getattr(fn, 'live', None)
        if L is None:
            L = fn.live = liveness(fn)
        return L[block]

    def reg_type(self, fn, r):
        T = getattr(fn, 'rtypes', None)
        if T is None:
            T = fn.rtypes = regtypes(fn)
        return T.get(r)

    def jump(self, st, target):
        """moves the top frame to block target; returns False when the loop bound is exceeded"""
        f = st.frames[-1]
        num, nest, loops = f.fn.analysis
        src = f.block
        if target in loops:
            if src in loops[target]:
                f.iters[target] = f.iters.get(target, 0) + 1
                if f.iters[target] > self.loop_bound:
                    self.end('bound', 'loop %s in %s exceeds %d iterations' % (target, f.fn.name, self.loop_bound), st)
                    return False
            else:
                f.iters[target] = 0
        b = f.fn.blocks[target]
        if b.phis:
            new = []
            for p in b.phis:
                for lab, v in p.a[1]:
                    if lab == src:
                        new.append((p.dst, self.val(st, v, p.a[0])))
                        break
                else:
                    raise Unsupported('phi without incoming edge')
            for d, v in new:
                f.regs[d] = v
        f.block = target
        f.ip = 0
        return True

    def branch(self, st, c, ta, tb):
        """conditional branch of the top frame"""
        if isinstance(c, z3.ExprRef):
            c = z3.simplify(c)
            if z3.is_true(c):
                c = True
            elif z3.is_false(c):
                c = False
        if c is True or c is False:
            if self.jump(st, ta if c else tb):
                self.enqueue(st)
            return
        fa = self.feasible(st.pc, c)
        fb = self.feasible(st.pc, b_not(c)) if fa else True
        if fa and not fb:
            if self.jump(st, ta):
                self.enqueue(st)
            return
        if fb and not fa:
            if self.jump(st, tb):
                self.enqueue(st)
            return
        s2 = st.fork()
        self.add_pc(st, c)
        self.add_pc(s2, b_not(c))
        if self.jump(st, ta):
            self.enqueue(st)
        if self.jump(s2, tb):
            self.enqueue(s2)

    def exec(self, st):
        """runs a state to its next branch"""
        while True:
            f = st.frames[-1]
            ins = f.fn.blocks[f.block].ins[f.ip]
            self.n_instr += 1
            op = ins.op
            h = getattr(self, 'x_' + op, None)
            if h is None:
                raise Unsupported(op)
            r = h(st, f, ins)
            if r == 'next':
                f.ip += 1
                continue
            if r == 'again':
                continue
            return

    def x_br(self, st, f, ins):
        if self.jump(st, ins.a[0]):
            if not self.heap:
                self.n_states += 1
                return 'again'
            self.enqueue(st)

    def x_condbr(self, st, f, ins):
        c = self.val(st, ins.a[0], ('int', 1))
        self.branch(st, c, ins.a[1], ins.a[2])

    def x_switch(self, st, f, ins):
        t, v, d, cases = ins.a
        x = self.val(st, v, t)
        if isinstance(x, z3.ExprRef) and z3.is_bv(x):
            x = z3.simplify(x)
            if z3.is_bv_value(x):
                x = x.as_long()
        if isinstance(x, bool):
            x = int(x)
        if isinstance(x, int):
            for cv, lab in cases:
                if cv == x:
                    if self.jump(st, lab):
                        self.enqueue(st)
                    return
            if self.jump(st, d):
                self.enqueue(st)
            return
        rest = []
        bylab = {}
        for cv, lab in cases:
            c = x == cv
            bylab.setdefault(lab, []).append(c)
            rest.append(b_not(c))
        todo = [(b_or(*cs), lab) for lab, cs in bylab.items() if lab != d]
        todo.append((b_or(b_and(*rest), *bylab.get(d, [])), d))
        for c, lab in todo:
            if self.feasible(st.pc, c):
                s2 = st.fork()
                self.add_pc(s2, c)
                if self.jump(s2, lab):
                    self.enqueue(s2)

    def x_ret(self, st, f, ins):
        t, v = ins.a
        rv_ = self.val(st, v, t) if v is not None else None
        if len(st.frames) == 1:
            st.frames[0].regs = {'ret': rv_} if rv_ is not None else {}
            self.end('ret', None, st)
            return
        st.frames.pop()
        g = st.frames[-1]
        call = g.fn.blocks[g.block].ins[g.ip]
        self.finish_call(st, call, rv_)
        return

    def finish_call(self, st, call, v):
        g = st.frames[-1]
        if call.dst is not None and v is not None:
            g.regs[call.dst] = v
        if call.a[3]:
            if self.jump(st, call.a[3]):
                self.enqueue(st)
        else:
            g.ip += 1
            self.enqueue(st)

    def x_unreachable(self, st, f, ins):
        self.end('unreachable', 'unreachable in ' + f.fn.name, st)

    def x_alloca(self, st, f, ins):
        t, cnt = ins.a
        n = 1
        if cnt is not None:
            n = self.val(st, cnt, None)
            if not isinstance(n, int):
                raise Unsupported('alloca of symbolic size')
        f.regs[ins.dst] = Ptr(self.new_obj(st, self.sizeof(t) * n, f.fn.name + ins.dst), 0)
        return 'next'

    def x_load(self, st, f, ins):
        v = self.load(st, self.val(st, ins.a[1], ir.PTR), ins.a[0])
        if v is None:
            return
        f.regs[ins.dst] = v
        return 'next'

    def x_store(self, st, f, ins):
        t, v, p = ins.a
        if self.store(st, self.val(st, p, ir.PTR), t, self.val(st, v, t)):
            return 'next'

    def x_gep(self, st, f, ins):
        f.regs[ins.dst] = self.gep(st, ins.a[0], ins.a[1])
        return 'next'

    def vecmap(self, t, fn, *vs):
        t = self.resolve(t)
        if t[0] == 'vec':
            return tuple(fn(t[2], *[v[i] for v in vs]) for i in range(t[1]))
        return fn(t, *vs)

    def x_ibin(self, st, f, ins):
        op, t, a, b = ins.a
        x, y = self.val(st, a, t), self.val(st, b, t)
        f.regs[ins.dst] = self.vecmap(t, lambda tt, p, q: self.ibin(op, tt[1], p, q, st), x, y)
        return 'next'

    def ibin(self, op, w, x, y, st=None):
        if w == 1:
            if op == 'and':
                return b_and(x, y)
            if op == 'or':
                return b_or(x, y)
            if op in ('xor', 'add', 'sub'):
                return b_xor(x, y)
            raise Unsupported('i1 ' + op)
        if isinstance(x, Bits) or isinstance(y, Bits):
            return self.bitsop(op, x, y)
        m = (1 << w) - 1
        if isinstance(x, int) and isinstance(y, int):
            if op == 'add':
                return (x + y) & m
            if op == 'sub':
                return (x - y) & m
            if op == 'mul':
                return (x * y) & m
            if op == 'and':
                return x & y
            if op == 'or':
                return x | y
            if op == 'xor':
                return x ^ y
            if op == 'shl':
                return (x << y) & m if y < w else 0
            if op == 'lshr':
                return x >> y if y < w else 0
            sx = x - (1 << w) if x >> (w - 1) else x
            sy = y - (1 << w) if y >> (w - 1) else y
            if op == 'ashr':
                return (sx >> min(y, w - 1)) & m
            if y == 0:
                return self.fresh_int(w)
            if op == 'udiv':
                return x // y
            if op == 'urem':
                return x % y
            q = abs(sx) // abs(sy)
            if (sx < 0) != (sy < 0):
                q = -q
            if op == 'sdiv':
                return q & m
            if op == 'srem':
                return (sx - q * sy) & m
        if isinstance(y, int):
            if y == 0 and op in ('add', 'sub', 'or', 'xor', 'shl', 'lshr', 'ashr'):
                return x
            if y == 0 and op in ('and', 'mul'):
                return 0
            if y == m and op == 'and':
                return x
            if y == 1 and op in ('mul', 'udiv', 'sdiv'):
                return x
        if isinstance(x, int):
            if x == 0 and op in ('add', 'or', 'xor'):
                return y
            if x == 0 and op in ('and', 'mul', 'shl', 'lshr', 'ashr'):
                return 0
        x, y = bvw(x, w), bvw(y, w)
        r = {'add': lambda: x + y, 'sub': lambda: x - y, 'mul': lambda: x * y, 'and': lambda: x & y, 'or': lambda: x | y,
             'xor': lambda: x ^ y, 'shl': lambda: x << y, 'lshr': lambda: z3.LShR(x, y), 'ashr': lambda: x >> y,
             'udiv': lambda: z3.UDiv(x, y), 'sdiv': lambda: x / y, 'urem': lambda: z3.URem(x, y), 'srem': lambda: z3.SRem(x, y)}[op]()
        r = z3.simplify(r)
        if z3.is_bv_value(r):
            return r.as_long()
        return r

    def bitsop(self, op, x, y):
        # sign-bit manipulations of a double seen as an integer
        if isinstance(y, int) and isinstance(x, Bits):
            if op == 'xor' and y == 1 << 63:
                return Bits(self.dom.neg(x.v))
            if op == 'and' and y == (1 << 63) - 1:
                return Bits(self.dom.uf('fabs', x.v))
        raise Unsupported('integer operation on the bits of a double')

    def x_fbin(self, st, f, ins):
        op, t, a, b = ins.a
        x, y = self.val(st, a, t), self.val(st, b, t)
        f.regs[ins.dst] = self.vecmap(t, lambda tt, p, q: self.dom.bin(op, p, q), x, y)
        return 'next'

    def x_fneg(self, st, f, ins):
        t, a = ins.a
        f.regs[ins.dst] = self.vecmap(t, lambda tt, p: self.dom.neg(p), self.val(st, a, t))
        return 'next'

    def x_icmp(self, st, f, ins):
        pred, t, a, b = ins.a
        x, y = self.val(st, a, t), self.val(st, b, t)
        f.regs[ins.dst] = self.vecmap(t, lambda tt, p, q: self.icmp(pred, tt, p, q), x, y)
        return 'next'

    def icmp(self, pred, t, x, y):
        if t[0] == 'ptr':
            return self.pcmp(pred, x, y)
        w = t[1]
        if w == 1:
            if pred == 'eq':
                return b_not(b_xor(x, y))
            if pred == 'ne':
                return b_xor(x, y)
            if isinstance(x, bool):
                x = int(x)
            else:
                x = z3.If(x, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
            if isinstance(y, bool):
                y = int(y)
            else:
                y = z3.If(y, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
        if isinstance(x, Bits) or isinstance(y, Bits):
            if isinstance(y, int) and isinstance(x, Bits):
                if pred == 'slt' and y == 0:
                    return self.dom.cmp('olt', x.v, self.dom.const(0.0))
                if pred == 'sgt' and y == MASK64:
                    return self.dom.cmp('oge', x.v, self.dom.const(0.0))
            raise Unsupported('comparison of the bits of a double')
        if isinstance(x, int) and isinstance(y, int):
            sx = x - (1 << w) if x >> (w - 1) else x
            sy = y - (1 << w) if y >> (w - 1) else y
            return {'eq': x == y, 'ne': x != y, 'ult': x < y, 'ule': x <= y, 'ugt': x > y, 'uge': x >= y,
                    'slt': sx < sy, 'sle': sx <= sy, 'sgt': sx > sy, 'sge': sx >= sy}[pred]
        x, y = bvw(x, w), bvw(y, w)
        r = {'eq': lambda: x == y, 'ne': lambda: x != y, 'ult': lambda: z3.ULT(x, y), 'ule': lambda: z3.ULE(x, y),
             'ugt': lambda: z3.UGT(x, y), 'uge': lambda: z3.UGE(x, y), 'slt': lambda: x < y, 'sle': lambda: x <= y,
             'sgt': lambda: x > y, 'sge': lambda: x >= y}[pred]()
        r = z3.simplify(r)
        if z3.is_true(r):
            return True
        if z3.is_false(r):
            return False
        return r

    def pcmp(self, pred, x, y):
        res = False
        for cx, p in self.alts(x):
            for cy, q in self.alts(y):
                if p.obj == q.obj:
                    r = self.icmp(pred, ('int', 64), p.off & MASK64 if isinstance(p.off, int) else p.off, q.off & MASK64 if isinstance(q.off, int) else q.off)
                elif pred in ('eq', 'ne'):
                    r = pred == 'ne'
                else:
                    r = self.icmp(pred, ('int', 64), self.ptrtoint(p), self.ptrtoint(q))
                res = b_or(res, b_and(cx, cy, r))
        return res

    def x_fcmp(self, st, f, ins):
        pred, t, a, b = ins.a
        x, y = self.val(st, a, t), self.val(st, b, t)

        def one(tt, p, q):
            r = self.dom.cmp(pred, p, q)
            if isinstance(r, z3.ExprRef):
                s = z3.simplify(r)
                if z3.is_true(s):
                    return True
                if z3.is_false(s):
                    return False
            return r
        f.regs[ins.dst] = self.vecmap(t, one, x, y)
        return 'next'

    def x_select(self, st, f, ins):
        tc, c, t, a, b = ins.a
        cv = self.val(st, c, tc)
        x, y = self.val(st, a, t), self.val(st, b, t)
        if isinstance(cv, tuple):
            t = self.resolve(t)
            f.regs[ins.dst] = tuple(self.ite(cc, p, q, t[2]) for cc, p, q in zip(cv, x, y))
        else:
            f.regs[ins.dst] = self.ite(cv, x, y, t)
        return 'next'

    def x_cast(self, st, f, ins):
        op, t, a, t2 = ins.a
        x = self.val(st, a, t)
        r1, r2 = self.resolve(t), self.resolve(t2)
        if r1[0] == 'vec' and r2[0] == 'vec' and r1[1] == r2[1]:
            f.regs[ins.dst] = tuple(self.cast(st, op, r1[2], v, r2[2]) for v in x)
        else:
            f.regs[ins.dst] = self.cast(st, op, r1, x, r2)
        return 'next'

    def cast(self, st, op, t, x, t2):
        if op == 'zext' or op == 'sext':
            w, w2 = t[1], t2[1]
            if w == 1:
                one = 1 if op == 'zext' else (1 << w2) - 1
                if isinstance(x, bool):
                    return one if x else 0
                return z3.If(x, z3.BitVecVal(one, w2), z3.BitVecVal(0, w2))
            if isinstance(x, int):
                if op == 'sext' and x >> (w - 1):
                    x |= ((1 << w2) - 1) & ~((1 << w) - 1)
                return x
            return z3.ZeroExt(w2 - w, x) if op == 'zext' else z3.SignExt(w2 - w, x)
        if op == 'trunc':
            w2 = t2[1]
            if isinstance(x, Bits):
                raise Unsupported('trunc of double bits')
            if isinstance(x, int):
                x &= (1 << w2) - 1
                return bool(x) if w2 == 1 else x
            r = z3.simplify(z3.Extract(w2 - 1, 0, x))
            if w2 == 1:
                return z3.simplify(r == 1)
            return r
        if op in ('sitofp', 'uitofp'):
            w = t[1]
            if w == 1:
                one = -1.0 if op == 'sitofp' else 1.0
                return self.dom.ite(x, self.dom.const(one), self.dom.const(0.0))
            if isinstance(x, int):
                if op == 'sitofp' and x >> (w - 1):
                    x -= 1 << w
                return self.dom.const(float(x)) if self.dom.mode == 'fp' else RV(Fraction(x))
            return self.int_to_fp(st, op, w, x)
        if op == 'ptrtoint':
            return self.ptrtoint(x, t2[1])
        if op == 'inttoptr':
            return self.inttoptr(x)
        if op == 'bitcast':
            return self.conv(x, t2)
        if op in ('fpext', 'fptrunc'):
            raise Unsupported(op)
        if op in ('fptosi', 'fptoui'):
            if isinstance(x, RV) and x.const():
                v = x.value()
                q = abs(v.numerator) // v.denominator
                if v < 0:
                    q = -q
                return q & ((1 << t2[1]) - 1)
            if isinstance(x, RV) and z3.is_app_of(x.n, z3.Z3_OP_ITE) and not isinstance(x.d, z3.ExprRef):
                def leaf(e):
                    if z3.is_app_of(e, z3.Z3_OP_ITE):
                        return z3.If(e.arg(0), leaf(e.arg(1)), leaf(e.arg(2)))
                    if z3.is_rational_value(e):
                        return bvw(self.cast(st, op, t, RV(e.as_fraction() / x.d), t2), t2[1])
                    raise Unsupported('fptosi of a symbolic real')
                return leaf(x.n)
            raise Unsupported('fptosi of a symbolic real')
        raise Unsupported('cast ' + op)

    def int_to_fp(self, st, op, w, x):
        # enumerate the values the integer can have on this path
        s = z3.Solver()
        s.set('timeout', 20000)
        for c in st.pc:
            if not has_real(c):
                s.add(c)
        if has_real(x):
            # an ite over real conditions with constant leaves
            def leaf(e):
                if z3.is_app_of(e, z3.Z3_OP_ITE):
                    a, b = leaf(e.arg(1)), leaf(e.arg(2))
                    return None if a is None or b is None else self.dom.ite(e.arg(0), a, b)
                e = z3.simplify(e)
                if z3.is_bv_value(e):
                    return self.cast(st, op, ('int', w), e.as_long(), ('double',))
                return None
            r = leaf(x)
            if r is not None:
                return r
        xa = abstract_reals(x)  # conditions over reals are left free: the values found include all possible ones
        vals = []
        t = time.time()
        while len(vals) <= 80:
            self.n_checks += 1
            r = s.check()
            if r == z3.unsat:
                break
            if r != z3.sat:
                raise Unsupported('integer to real conversion')
            v = s.model().eval(xa, model_completion=True).as_long()
            vals.append(v)
            s.add(xa != v)
        else:
            if self.dom.mode == 'real':
                return RV(z3.ToReal(z3.BV2Int(x, op == 'sitofp')))
            raise Unsupported('integer to double conversion of an unbounded integer')
        self.solver_time += time.time() - t
        if not vals:
            return self.dom.const(0.0)
        r = self.cast(st, op, ('int', w), vals[-1], ('double',))
        for v in reversed(vals[:-1]):
            r = self.dom.ite(x == v, self.cast(st, op, ('int', w), v, ('double',)), r)
        return r

    def x_extractvalue(self, st, f, ins):
        t, v, idx = ins.a
        x = self.val(st, v, t)
        for i in idx:
            x = x[i]
        f.regs[ins.dst] = x
        return 'next'

    def x_insertvalue(self, st, f, ins):
        t, v, et, e, idx = ins.a
        x = self.val(st, v, t)
        y = self.val(st, e, et)

        def put(a, ix):
            if not ix:
                return y
            return a[:ix[0]] + (put(a[ix[0]], ix[1:]),) + a[ix[0] + 1:]
        f.regs[ins.dst] = put(x, idx)
        return 'next'

    def x_freeze(self, st, f, ins):
        f.regs[ins.dst] = self.val(st, ins.a[1], ins.a[0])
        return 'next'

    def x_extractelement(self, st, f, ins):
        t, v, i = ins.a
        f.regs[ins.dst] = self.val(st, v, t)[self.val(st, i, None)]
        return 'next'

    def x_insertelement(self, st, f, ins):
        t, v, et, e, i = ins.a
        x = list(self.val(st, v, t))
        x[self.val(st, i, None)] = self.val(st, e, et)
        f.regs[ins.dst] = tuple(x)
        return 'next'

    def x_shufflevector(self, st, f, ins):
        t, a, b, mt, m = ins.a
        x = self.val(st, a, t) + self.val(st, b, t)
        mask = self.val(st, m, mt)
        f.regs[ins.dst] = tuple(x[i] if isinstance(i, int) else x[0] for i in mask)
        return 'next'

    # ---- exceptions
    def x_landingpad(self, st, f, ins):
        t, cleanup, clauses = ins.a
        obj, tname, dtor = st.exc
        sel = 0
        for k, v in clauses:
            if k == 'catch':
                p = self.val(st, v, ir.PTR) if v[0] != 'null' else NULL
                if v[0] == 'null' or (v[0] == 'global' and self.exc_matches(tname, v[1])):
                    sel = self.typeid(v[1] if v[0] == 'global' else None)
                    break
        f.regs[ins.dst] = (obj, sel)
        return 'next'

    def typeid(self, name):
        self.tids = getattr(self, 'tids', {})
        return self.tids.setdefault(name, len(self.tids) + 1)

    STD_BASES = {'@_ZTISt13runtime_error': {'@_ZTISt9exception'}, '@_ZTISt11logic_error': {'@_ZTISt9exception'},
                 '@_ZTISt16invalid_argument': {'@_ZTISt11logic_error', '@_ZTISt9exception'},
                 '@_ZTISt12out_of_range': {'@_ZTISt11logic_error', '@_ZTISt9exception'}}

    def exc_matches(self, thrown, caught):
        if thrown == caught or caught in self.STD_BASES.get(thrown, ()):
            return True
        g = self.m.globals.get(thrown)
        if g and g[0] == 'var' and g[2] is not None:
            for k, w in g[2].t:
                if k == 'name' and w.startswith('@_ZTI') and w != thrown:
                    if self.exc_matches(w, caught):
                        return True
        return False

    def x_resume(self, st, f, ins):
        self.unwind(st)

    def unwind(self, st):
        """propagates st.exc out of the top frame"""
        while True:
            st.frames.pop()
            if not st.frames:
                self.end('throw', st.exc[1], st)
                return
            if self.raise_here(st):
                return

    def raise_here(self, st):
        g = st.frames[-1]
        call = g.fn.blocks[g.block].ins[g.ip]
        if call.op == 'call' and call.a[4]:
            if self.jump(st, call.a[4]):
                self.enqueue(st)
            return True
        return False

    # ---- calls
    def x_call(self, st, f, ins):
        rt, callee, args, normal, unw = ins.a
        if callee[0] == 'global':
            name = callee[1]
        else:
            p = self.val(st, callee, ir.PTR)
            if not (isinstance(p, Ptr) and isinstance(p.obj, tuple)):
                raise Unsupported('indirect call through %r' % (p,))
            name = p.obj[1]
        g = self.m.globals.get(name)
        if g is not None and g[0] == 'alias':
            name = g[1]
        if name.startswith('@llvm.lifetime') or name.startswith('@llvm.dbg') or name.startswith('@llvm.experimental.noalias'):
            return self.after(st, ins, None)
        if name in self.m.funcs:
            fn = ir.get_func(self.m, name)
            self.functions.add(name)
            vals = []
            for t, v, at in args:
                x = self.val(st, v, t)
                if 'byval' in at:
                    sz = self.sizeof(at['byval'])
                    o = self.new_obj(st, sz, 'byval')
                    self.memcpy(st, Ptr(o, 0), x, sz)
                    x = Ptr(o, 0)
                vals.append(x)
            if len(st.frames) > 200:
                self.end('bound', 'recursion depth in ' + name, st)
                return
            fr = Frame(fn)
            for (t, nm, at), v in zip(fn.params, vals):
                fr.regs[nm] = v
            st.frames.append(fr)
            if not self.heap:
                self.n_states += 1
                return 'again'
            self.enqueue(st)
            return
        vals = [None if v is None else self.val(st, v, t) for t, v, at in args]
        self.externals.add(name)
        return self.external(st, ins, name, vals, args)

    def after(self, st, ins, v):
        if ins.dst is not None and v is not None:
            st.frames[-1].regs[ins.dst] = v
        if ins.a[3]:
            if self.jump(st, ins.a[3]):
                self.enqueue(st)
            return None
        return 'next'

    def memcpy(self, st, d, s, n, move=False):
        if isinstance(n, z3.ExprRef):
            n = z3.simplify(n)
            if z3.is_bv_value(n):
                n = n.as_long()
            else:
                raise Unsupported('memcpy of symbolic size')
        if n == 0:
            return True
        da, sa = self.alts(d), self.alts(s)
        if len(da) == 1 and len(sa) == 1 and isinstance(d.off, int) and isinstance(s.off, int):
            so, do = st.mem.get(s.obj), st.mem.get(d.obj)
            if so is None or do is None or s.off < 0 or d.off < 0 or s.off + n > so.size or d.off + n > do.size:
                self.end('oob', 'memcpy', st)
                return False
            items = [(co, cs, cv) for co, (cs, cv) in so.cells.items() if co < s.off + n and co + cs > s.off]
            o = self.own(st, d.obj)
            self.clear(o, d.off, n)
            for co, cs, cv in items:
                if co >= s.off and co + cs <= s.off + n:
                    o.cells[d.off + co - s.off] = (cs, cv)
                else:
                    cb = self.cell_bytes(cv, cs)
                    if cb is None:
                        raise Unsupported('memcpy of part of a double')
                    for i in range(cs):
                        if s.off <= co + i < s.off + n:
                            o.cells[d.off + co + i - s.off] = (1, cb[i])
            return True
        if n % 8 == 0 and n <= 4096:
            vals = []
            for i in range(0, n, 8):
                sp = self.shift(s, i)
                v = self.load_any(st, sp)
                if v is None:
                    return False
                vals.append(v)
            for i in range(0, n, 8):
                if not self.store(st, self.shift(d, i), ('int', 64), vals[i // 8]):
                    return False
            return True
        raise Unsupported('memcpy through symbolic pointers')

    def load_any(self, st, p):
        """8-byte load keeping the kind of the cell"""
        return self.load(st, p, ('int', 64))

    def shift(self, p, i):
        if isinstance(p, PtrIte):
            return PtrIte([(c, Ptr(q.obj, self.off_add(q.off, i))) for c, q in p.alts])
        return Ptr(p.obj, self.off_add(p.off, i))

    MATH = {'sqrt': 1, 'sin': 1, 'cos': 1, 'tan': 1, 'exp': 1, 'log': 1, 'sinh': 1, 'cosh': 1, 'tanh': 1, 'cbrt': 1,
            'acos': 1, 'asin': 1, 'atan': 1, 'fabs': 1, 'pow': 2, 'atan2': 2, 'acosh': 1, 'asinh': 1, 'atanh': 1, 'hypot': 2}

    def external(self, st, ins, name, a, args):
        n = name[1:].strip('"')
        if n.startswith('llvm.'):
            return self.intrinsic(st, ins, n, a, args)
        if n in self.MATH:
            return self.after(st, ins, self.dom.uf(n, *a))
        if n in ('_Znwm', '_Znam', 'malloc', '_ZnwmRKSt9nothrow_t'):
            if not isinstance(a[0], int):
                raise Unsupported('allocation of symbolic size')
            return self.after(st, ins, Ptr(self.new_obj(st, a[0], 'heap'), 0))
        if n in ('_ZdlPv', '_ZdlPvm', '_ZdaPv', '_ZdaPvm', 'free'):
            return self.after(st, ins, None)
        if n == '__cxa_allocate_exception':
            return self.after(st, ins, Ptr(self.new_obj(st, max(8, a[0] if isinstance(a[0], int) else 64), 'exception'), 0))
        if n == '__cxa_free_exception':
            return self.after(st, ins, None)
        if n == '__cxa_throw':
            ti = args[1][1]
            st.exc = (a[0], ti[1] if ti[0] == 'global' else '?', None)
            if not self.raise_here(st):
                self.unwind(st)
            return None
        if n == '__cxa_begin_catch':
            st.caught = st.caught + (st.exc,)
            return self.after(st, ins, a[0])
        if n == '__cxa_end_catch':
            st.caught = st.caught[:-1]
            return self.after(st, ins, None)
        if n == '__cxa_rethrow':
            st.exc = st.caught[-1]
            if not self.raise_here(st):
                self.unwind(st)
            return None
        if n == '_ZSt9terminatev' or n == 'abort':
            self.end('terminate', 'std::terminate in ' + st.frames[-1].fn.name, st)
            return None
        if n == '__assert_fail':
            self.end('assert', self.cstr(st, a[0]), st)
            return None
        if n == '__cxa_guard_acquire':
            v = self.load(st, a[0], ('int', 8))
            return self.after(st, ins, 1 if isinstance(v, int) and v == 0 else 0)
        if n == '__cxa_guard_release':
            self.store(st, a[0], ('int', 8), 1)
            return self.after(st, ins, None)
        if n in ('__cxa_atexit', '__cxa_guard_abort', '_ZNSt8ios_base4InitC1Ev', '_ZNSt8ios_base4InitD1Ev'):
            return self.after(st, ins, 0)
        if re.match(r'_ZNSt\d+(runtime_error|logic_error|invalid_argument|out_of_range|domain_error|overflow_error|bad_\w+)[CD]\d', n) or re.match(r'_ZNSt\d+(\w+)[CD][12]E(PKc|RK.*)?$', n) or n in ('_ZNSt9exceptionD2Ev', '_ZNSt13runtime_errorD1Ev'):
            return self.after(st, ins, None)
        if n.startswith('_ZSt20__throw_') or n.startswith('_ZSt17__throw') or re.match(r'_ZSt\d+__throw_', n):
            st.exc = (NULL, n, None)
            if not self.raise_here(st):
                self.unwind(st)
            return None
        if n == '_ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base':
            pass
        raise Unsupported('call of external function ' + n)

    def cstr(self, st, p):
        try:
            o = st.mem[p.obj]
            s = ''
            i = p.off
            while True:
                b = o.cells[i][1]
                if b == 0:
                    return s
                s += chr(b)
                i += 1
        except Exception:
            return '?'

    def intrinsic(self, st, ins, n, a, args):
        parts = n.split('.')
        k = parts[1]
        if k in ('memcpy', 'memmove'):
            if not self.memcpy(st, a[0], a[1], a[2]):
                return None
            return self.after(st, ins, None)
        if k == 'memset':
            ok = isinstance(a[1], int) and isinstance(a[2], int)
            p = a[0]
            if not ok or not isinstance(p, Ptr) or not isinstance(p.off, int):
                raise Unsupported('memset')
            if a[2]:
                o = st.mem.get(p.obj)
                if o is None or p.off < 0 or p.off + a[2] > o.size:
                    self.end('oob', 'memset', st)
                    return None
                self.memset(st, p.obj, p.off, a[2], a[1])
            return self.after(st, ins, None)
        if k in ('assume', 'experimental', 'donothing', 'invariant', 'prefetch'):
            return self.after(st, ins, None)
        if k == 'expect':
            return self.after(st, ins, a[0])
        if k == 'eh' and parts[2] == 'typeid':
            v = args[0][1]
            return self.after(st, ins, self.typeid(v[1] if v[0] == 'global' else None))
        if k in ('fabs', 'sqrt', 'sin', 'cos', 'exp', 'log', 'pow'):
            t = self.resolve(args[0][0])
            return self.after(st, ins, self.vecmap(t, lambda tt, *xs: self.dom.uf(k, *xs), *a))
        if k == 'powi':
            if not isinstance(a[1], int):
                raise Unsupported('powi')
            e = a[1] - (1 << 32) if a[1] >> 31 else a[1]
            return self.after(st, ins, self.dom.uf('pow', a[0], RV(Fraction(e))))
        if k in ('fmuladd', 'fma'):
            return self.after(st, ins, self.dom.bin('fadd', self.dom.bin('fmul', a[0], a[1]), a[2]))
        if k == 'ctpop':
            t = self.resolve(args[0][0])
            return self.after(st, ins, self.vecmap(t, lambda tt, x: self.ctpop(x, tt[1]), a[0]))
        if k in ('umax', 'umin', 'smax', 'smin'):
            t = self.resolve(args[0][0])
            pred = {'umax': 'ugt', 'umin': 'ult', 'smax': 'sgt', 'smin': 'slt'}[k]
            return self.after(st, ins, self.vecmap(t, lambda tt, x, y: self.ite(self.icmp(pred, tt, x, y), x, y, tt), a[0], a[1]))
        if k in ('maxnum', 'minnum', 'maximum', 'minimum'):
            return self.after(st, ins, self.dom.ite(self.dom.cmp('ogt' if k[:3] == 'max' else 'olt', a[0], a[1]), a[0], a[1]))
        if k == 'abs':
            t = self.resolve(args[0][0])
            neg = self.ibin('sub', t[1], 0, a[0])
            return self.after(st, ins, self.ite(self.icmp('slt', t, a[0], 0), neg, a[0], t))
        if k in ('cttz', 'ctlz'):
            t = self.resolve(args[0][0])
            w = t[1]
            x = a[0]
            r = w
            order = range(w - 1, -1, -1) if k == 'cttz' else range(w)
            for i in order:
                bit = self.ibin('and', w, x, 1 << i)
                c = self.icmp('ne', t, bit, 0)
                r = self.ite(c, i if k == 'cttz' else w - 1 - i, r, t)
            return self.after(st, ins, r)
        if k in ('fshl', 'fshr'):
            raise Unsupported(n)
        if k in ('usub', 'uadd', 'sadd', 'ssub') and parts[2] == 'sat':
            t = self.resolve(args[0][0])
            if k == 'usub':
                return self.after(st, ins, self.ite(self.icmp('ult', t, a[0], a[1]), 0, self.ibin('sub', t[1], a[0], a[1]), t))
        if len(parts) > 3 and parts[2] == 'with' and parts[3] == 'overflow':
            t = self.resolve(args[0][0])
            w = t[1]
            if k == 'umul' and all(isinstance(x, int) for x in a):
                p = a[0] * a[1]
                return self.after(st, ins, (p & ((1 << w) - 1), p >> w != 0))
        if k == 'copysign':
            x = self.dom.uf('fabs', a[0])
            return self.after(st, ins, self.dom.ite(self.dom.cmp('olt', a[1], self.dom.const(0.0)), self.dom.neg(x), x))
        if k == 'vector' and parts[2] == 'reduce':
            op = parts[3]
            v = a[-1]
            r = a[0] if op == 'fadd' else v[0]
            for x in (v if op == 'fadd' else v[1:]):
                r = self.dom.bin('fadd', r, x) if op == 'fadd' else self.ibin(op, self.resolve(args[-1][0])[2][1], r, x)
            return self.after(st, ins, r)
        if k == 'is' and parts[2] == 'constant':
            return self.after(st, ins, False)
        if k == 'trap':
            self.end('terminate', 'llvm.trap', st)
            return None
        if k == 'is' and parts[2] == 'fpclass':
            m = a[1]
            if self.dom.mode == 'real':
                x = a[0]
                if isinstance(x, SpecialConst):
                    raise Unsupported('fpclass of a special constant')
                # finite reals: bits 3 (neg normal) 4,5,6,7,8
                z = self.dom.const(0.0)
                r = b_or(b_and(bool(m & 0x8), self.dom.cmp('olt', x, z)), b_and(bool(m & 0x60), self.dom.cmp('oeq', x, z)), b_and(bool(m & 0x100), self.dom.cmp('ogt', x, z)))
                return self.after(st, ins, r)
        raise Unsupported('intrinsic ' + n)

    def ctpop(self, x, w):
        if isinstance(x, int):
            return bin(x).count('1')
        r = z3.BitVecVal(0, w)
        for i in range(w):
            r = r + z3.ZeroExt(w - 1, z3.Extract(i, i, x))
        return z3.simplify(r)

    def run_ctors(self):
        """executes the module's global constructors concretely"""
        g = self.m.globals.get('@llvm.global_ctors')
        if not g or g[0] != 'var' or g[2] is None:
            return
        names = [w for k, w in g[2].t if k == 'name' and w.startswith('@')]
        for nm in names:
            if nm in self.m.funcs:
                out = self.run(nm, [])
                r = [o for o in out if o.kind == 'ret']
                if len(out) != 1 or not r:
                    raise Unsupported('global constructor does not return')
                self.base.mem = r[0].state.mem
        self.outcomes = []


def uses(v, acc):
    k = v[0]
    if k == 'reg':
        acc.add(v[1])
    elif k == 'agg':
        for t, x in v[1]:
            uses(x, acc)
    elif k == 'cgep':
        for t, x in v[2]:
            uses(x, acc)
    elif k == 'ccast':
        uses(v[3], acc)


def walk(a, acc):
    if isinstance(a, tuple):
        if a and isinstance(a[0], str):
            if a[0] == 'reg' and len(a) == 2:
                acc.add(a[1])
                return
        for x in a:
            walk(x, acc)
    elif isinstance(a, list):
        for x in a:
            walk(x, acc)


def liveness(fn):
    use, deff = {}, {}
    for b in fn.order:
        u, d = set(), set()
        blk = fn.blocks[b]
        for p in blk.phis:
            d.add(p.dst)
        for ins in blk.ins:
            acc = set()
            walk(ins.a, acc)
            u |= acc - d
            if ins.dst:
                d.add(ins.dst)
        use[b], deff[b] = u, d
    phiuse = {b: set() for b in fn.order}      # pred -> regs used by phis of successors
    for b in fn.order:
        for p in fn.blocks[b].phis:
            for lab, v in p.a[1]:
                acc = set()
                walk(v, acc)
                if lab in phiuse:
                    phiuse[lab] |= acc
    live = {b: set() for b in fn.order}
    ch = True
    while ch:
        ch = False
        for b in reversed(fn.order):
            out = set(phiuse[b])
            for s in fn.blocks[b].succ:
                out |= live[s] - {p.dst for p in fn.blocks[s].phis}
            # phi results are defined at block entry: they count as live-in so merges keep them
            n = use[b] | (out - deff[b]) | {p.dst for p in fn.blocks[b].phis}
            if n != live[b]:
                live[b] = n
                ch = True
    return live


def regtypes(fn):
    T = {}
    for t, nm, at in fn.params:
        T[nm] = t
    for b in fn.blocks.values():
        for ins in b.phis + b.ins:
            if not ins.dst:
                continue
            o, a = ins.op, ins.a
            if o == 'phi':
                T[ins.dst] = a[0]
            elif o in ('ibin', 'fbin'):
                T[ins.dst] = a[1]
            elif o in ('fneg', 'freeze', 'load'):
                T[ins.dst] = a[0]
            elif o in ('icmp', 'fcmp'):
                T[ins.dst] = ('int', 1) if a[1][0] != 'vec' else ('vec', a[1][1], ('int', 1))
            elif o == 'cast':
                T[ins.dst] = a[3]
            elif o == 'select':
                T[ins.dst] = a[2]
            elif o in ('gep', 'alloca'):
                T[ins.dst] = ir.PTR
            elif o == 'call':
                T[ins.dst] = a[0]
            elif o in ('landingpad',):
                T[ins.dst] = a[0]
            elif o in ('insertvalue',):
                T[ins.dst] = a[0]
    return T
