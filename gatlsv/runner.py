"""Decides the cases of one property: build, encode, solve, replay, evidence."""
import concurrent.futures
import ctypes
import importlib
import json
import math
import multiprocessing
import os
import random
import shutil
import struct
import subprocess
import sys
import tempfile
import threading
import time
import traceback
from fractions import Fraction

import z3

from . import build, ir, sym
from .dom import (ConcDom, FPDom, RealDom, RV, b_and, b_not, b_or, b_ite, bz, is_c, rv, t_eq, t_mul, to_z3)

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Ctx:
    """What a specification sees: inputs, outputs, and the assertions it makes about them."""

    def __init__(self, dom, ins, outs=None, sizes=None):
        self.dom = dom
        self.ins = ins
        self.outs = outs
        self.goals = []         # (label, condition that must hold, values)
        self.conc = dom.mode == 'conc'
        self.tol = 1e-6

    def i(self, name):
        return self.ins[name]

    def o(self, name):
        return self.outs[name]

    # reals
    def const(self, x):
        return self.dom.const(x) if self.dom.mode == 'fp' else rv(Fraction(x))

    def sqrt(self, x):
        return self.dom.uf('sqrt', rv(x))

    def fn(self, name, *xs):
        return self.dom.uf(name, *xs)

    def abs(self, x):
        return self.dom.uf('fabs', rv(x))

    def lt(self, a, b):
        return self.dom.rel('lt', a, b)

    def le(self, a, b):
        return self.dom.rel('le', a, b)

    def ne(self, a, b):
        return self.dom.rel('ne', a, b)

    def same(self, a, b):
        return self.dom.rel('eq', a, b)

    def ite(self, c, a, b):
        return self.dom.ite(c, a, b)

    and_ = staticmethod(b_and)
    or_ = staticmethod(b_or)
    not_ = staticmethod(b_not)
    bite = staticmethod(b_ite)

    # bit-vector inputs
    def ueq(self, x, k):
        if isinstance(x, int):
            return x == k
        return x == z3.BitVecVal(k, 64)

    def same_u(self, a, b):
        return a == b

    def ult(self, x, k):
        if isinstance(x, int):
            return x < k
        return z3.ULT(x, k)

    def uite(self, c, a, b):
        if c is True:
            return a
        if c is False:
            return b
        return z3.If(c, sym.bvw(a, 64), sym.bvw(b, 64))

    def table(self, x, f, size):
        """f(x) for a symbolic unsigned x < size, as a real"""
        if isinstance(x, int):
            return rv(f(x))
        r = rv(f(size - 1))
        for k in range(size - 2, -1, -1):
            r = self.dom.ite(x == k, rv(f(k)), r)
        return r

    # assertions
    def eq(self, label, out, ref):
        if self.dom.mode == 'fp':
            self.goals.append((label, z3.Or(out == ref, z3.And(z3.fpIsNaN(out), z3.fpIsNaN(ref))), (out, ref)))
            return
        ref = rv(ref)
        if self.conc:
            self.goals.append((label, close(out, ref, self.tol), (out, ref)))
            return
        if not isinstance(out, RV):
            self.goals.append((label, False, (out, ref)))
            return
        good = bz(t_eq(t_mul(out.n, ref.d), t_mul(ref.n, out.d)))
        if not is_c(out.d):
            good = z3.And(out.d != 0, good)
        elif out.d == 0:
            good = z3.BoolVal(False)
        if not is_c(ref.d):
            good = z3.Implies(ref.d != 0, good)
        self.goals.append((label, good, (out, ref)))

    def ieq(self, label, out, ref, w=64):
        """equality of integers (reference may be a Python int or a bit-vector)"""
        if self.conc:
            m = (1 << w) - 1
            self.goals.append((label, (int(out) & m) == (int(ref) & m), (out, ref)))
            return
        if isinstance(out, int) and isinstance(ref, int):
            m = (1 << w) - 1
            self.goals.append((label, z3.BoolVal((out & m) == (ref & m)), (out, ref)))
            return
        self.goals.append((label, sym.bvw(out, w) == sym.bvw(ref, w), (out, ref)))

    def true(self, label, cond, vals=()):
        self.goals.append((label, cond if self.conc else bz(cond), vals))

    def mv(self, label, out, ref, N=None):
        """every coefficient of out equals that of the reference multivector"""
        N = N or len(out)
        for k in range(N):
            z = self.const(0) if self.dom.mode == 'fp' else RV(0)
            self.eq('%s[%s]' % (label, bin(k)), out[k], ref.get(k, z))


def close(out, ref, tol):
    if ref.d == 0:
        return True
    if isinstance(out, float):
        if math.isnan(out) or math.isinf(out):
            return False
        x = out
    else:
        x = float(out.value()) if isinstance(out, RV) else float(out)
    y = float(ref.value())
    return abs(x - y) <= tol * max(1.0, abs(x), abs(y))


# ---------------------------------------------------------------------------------------------- native execution
NATIVE = r'''
import ctypes, json, sys, struct
so, req = sys.argv[1], json.load(sys.stdin)
lib = ctypes.CDLL(so)
out = []
for name, ins, outs in req:
    args, keep = [], []
    for t, vals in ins:
        ty = {'d': ctypes.c_double, 'u': ctypes.c_uint64, 'i': ctypes.c_int64}[t]
        if t == 'd':
            vals = [struct.unpack('<d', struct.pack('<Q', v))[0] for v in vals]
        a = (ty * max(1, len(vals)))()
        if t == 'd':
            raw = ctypes.cast(a, ctypes.POINTER(ctypes.c_uint64))
            for i, v in enumerate(vals):
                raw[i] = struct.unpack('<Q', struct.pack('<d', v))[0]
        else:
            for i, v in enumerate(vals):
                a[i] = v
        args.append(a)
    res = []
    for t, n in outs:
        ty = {'d': ctypes.c_double, 'i': ctypes.c_int64}[t]
        a = (ty * max(1, n))()
        args.append(a)
        res.append((t, a, n))
    rc = getattr(lib, 'n_' + name)(*args)
    o = []
    for t, a, n in res:
        raw = ctypes.cast(a, ctypes.POINTER(ctypes.c_uint64))
        o.append([raw[i] for i in range(n)])
    out.append([rc, o])
    print(json.dumps(out[-1]), flush=True)
'''


def d2u(x):
    return struct.unpack('<Q', struct.pack('<d', x))[0]


def u2d(x):
    return struct.unpack('<d', struct.pack('<Q', x & ((1 << 64) - 1)))[0]


def native(so, case, inputs, timeout=20):
    """runs the harness of case natively on each concrete input; returns list of (rc, outs) or ('crash'|'hang', None)"""
    req = []
    for inp in inputs:
        ins = []
        for k, (t, n) in case.ins.items():
            ins.append([t, [d2u(float(v)) if t == 'd' else int(v) for v in inp[k]]])
        req.append([case.name, ins, [[t, n] for t, n in case.outs.values()]])
    p = subprocess.Popen([sys.executable, '-c', NATIVE, so], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
    status = 'crash'
    try:
        txt, _ = p.communicate(json.dumps(req).encode(), timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        txt, _ = p.communicate()
        status = 'hang'
    out = []
    for ln in txt.decode().split('\n'):
        if ln.strip():
            try:
                rc, o = json.loads(ln)
            except ValueError:
                continue
            outs = {}
            for (k, (t, n)), raw in zip(case.outs.items(), o):
                if t == 'd':
                    outs[k] = [u2d(v) for v in raw]
                else:
                    outs[k] = [v - (1 << 64) if v >> 63 else v for v in raw]
            out.append((rc, outs))
    while len(out) < len(inputs):
        out.append((status, None))
        status = 'skipped'
    return out


# ---------------------------------------------------------------------------------------------- one case
MODULES = {}


def module(path):
    m = MODULES.get(path)
    if m is None:
        with open(path) as f:
            m = MODULES[path] = ir.parse_module(f.read())
    return m


def sym_inputs(case, dom):
    ins = {}
    for k, (t, n) in case.ins.items():
        if t == 'd':
            if dom.mode == 'fp':
                ins[k] = [z3.FP('%s_%d' % (k, i), z3.Float64()) for i in range(n)]
            else:
                ins[k] = [RV(z3.Real('%s_%d' % (k, i))) for i in range(n)]
        else:
            ins[k] = [z3.BitVec('%s_%d' % (k, i), 64) for i in range(n)]
    return ins


def encode(case, mod, dom, ins, pre):
    m = sym.Machine(mod, dom, loop_bound=case.bound)
    m.run_ctors()
    args = []
    objs = {}
    st = m.base
    for k, (t, n) in case.ins.items():
        o = m.new_obj(st, 8 * n, k)
        for i, v in enumerate(ins[k]):
            st.mem[o].cells[8 * i] = (8, v)
        args.append(sym.Ptr(o, 0))
    for k, (t, n) in case.outs.items():
        o = m.new_obj(st, 8 * n, k)
        for i in range(n):
            st.mem[o].cells[8 * i] = (8, dom.const(0.0) if t == 'd' else 0)
        objs[k] = o
        args.append(sym.Ptr(o, 0))
    outcomes = m.run('@h_' + case.name, args, pc=tuple(bz(p) for p in pre if p is not True))
    res = []
    for oc in outcomes:
        outs = None
        if oc.kind == 'ret':
            outs = {}
            for k, (t, n) in case.outs.items():
                vals = []
                for i in range(n):
                    c = oc.state.mem[objs[k]].cells[8 * i]
                    vals.append(m.conv(c[1], ('double',)) if t == 'd' else c[1])
                outs[k] = vals
        res.append((oc, outs))
    return m, res


def decide(pc, axioms, good, timeout, stats):
    """is good implied by pc and the axioms?  'proved' | ('cex', model) | 'unknown'"""
    t0 = time.time()
    stats['queries'] += 1
    try:
        g = z3.simplify(good, som=True, sort_sums=True)
        if z3.is_true(g):
            # still goes through the solver: a trivially unsatisfiable query
            s = z3.Solver()
            s.add(z3.Not(g))
            assert s.check() == z3.unsat
            return 'proved'
        def attempt(mk, tmo):
            s = mk()
            s.set('timeout', int(tmo * 1000))
            for c in pc:
                s.add(c)
            for a in axioms:
                s.add(a)
            s.add(z3.Not(g))
            try:
                r = s.check()
            except z3.Z3Exception:
                return 'unknown'
            if r == z3.unsat:
                return 'proved'
            if r == z3.sat:
                return ('cex', s.model())
            return 'unknown'
        r = attempt(z3.Solver, 1.5)
        if r != 'unknown':
            return r
        if monomials_suffice(pc, axioms, g, stats):
            return 'proved'
        r = attempt(z3.Solver, min(timeout, 10))
        if r != 'unknown':
            return r
        r = attempt(lambda: z3.Then('simplify', 'propagate-values', 'solve-eqs', 'purify-arith', 'elim-term-ite', 'nlsat').solver()
                    if False else z3.SolverFor('QF_NRA'), min(timeout, 20))
        if r != 'unknown':
            return r
        r = split(list(pc), list(axioms), g, time.time() + timeout, stats)
        return r
    finally:
        stats['solver_s'] += time.time() - t0


def monomials_suffice(pc, axioms, g, stats):
    """decides the implication with every nonlinear monomial replaced by an unconstrained real (sound: only 'implied' answers are used)"""
    names = {}
    memo = {}
    found = [False]

    def walk(e):
        k = e.get_id()
        if k in memo:
            return memo[k][0]
        if z3.is_real(e) and z3.is_app(e) and (e.decl().kind() in (z3.Z3_OP_POWER, z3.Z3_OP_DIV) or e.decl().kind() == z3.Z3_OP_MUL and sum(not z3.is_rational_value(c) for c in e.children()) > 1):
            found[0] = True
            coef = [c for c in e.children() if z3.is_rational_value(c)]
            rest = [c for c in e.children() if not z3.is_rational_value(c)]
            if coef and e.decl().kind() == z3.Z3_OP_MUL:
                m = rest[0]
                for c in rest[1:]:
                    m = m * c
            else:
                coef, m = [], e
            key = m.sexpr()
            if key not in names:
                names[key] = z3.Real('monomial!%d' % len(names))
            r = names[key]
            for c in coef:
                r = c * r
        elif e.num_args() == 0 or z3.is_quantifier(e):
            r = e
        else:
            r = e.decl()(*[walk(c) for c in e.children()])
        memo[k] = (r, e)
        return r
    fs = [walk(z3.simplify(f, som=True, sort_sums=True)) for f in list(pc) + list(axioms) + [z3.Not(g)]]
    if not found[0]:
        return False
    s = z3.Solver()
    s.set('timeout', 3000)
    s.add(*fs)
    stats['queries'] += 1
    try:
        return s.check() == z3.unsat
    except z3.Z3Exception:
        return False


def find_ite(e):
    seen = set()
    stack = [e]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app_of(x, z3.Z3_OP_ITE) and not z3.is_bv(x):
            c = x.arg(0)
            f = find_ite(c) if not z3.is_const(c) else None
            return f if f is not None else c
        stack.extend(x.children())
    return None


def split(pc, axioms, g, deadline, stats):
    if time.time() > deadline:
        return 'unknown'
    g = z3.simplify(g, som=True, sort_sums=True)
    if z3.is_true(g):
        return 'proved'
    c = find_ite(g)
    if c is None:
        for mk in (z3.Solver, lambda: z3.SolverFor('QF_NRA')):
            s = mk()
            s.set('timeout', 20000)
            s.add(*pc)
            s.add(*axioms)
            s.add(z3.Not(g))
            stats['queries'] += 1
            r = s.check()
            if r == z3.unsat:
                return 'proved'
            if r == z3.sat:
                return ('cex', s.model())
        return 'unknown'
    for v in (True, False):
        k = c if v else z3.Not(c)
        s = z3.Solver()
        s.set('timeout', 2000)
        s.add(*pc)
        s.add(*axioms)
        s.add(k)
        stats['queries'] += 1
        if s.check() == z3.unsat:
            continue
        r = split(pc + [k], axioms, z3.substitute(g, (c, z3.BoolVal(v))), deadline, stats)
        if r != 'proved':
            return r
    return 'proved'


def model_inputs(case, ins, model, dom):
    inp = {}
    for k, (t, n) in case.ins.items():
        vals = []
        for v in ins[k]:
            if t == 'd':
                e = v.n if isinstance(v, RV) else v
                x = model.eval(e, model_completion=True)
                if z3.is_fp(x):
                    vals.append(fp_value(x))
                elif z3.is_rational_value(x):
                    vals.append(float(x.as_fraction()))
                elif z3.is_algebraic_value(x):
                    vals.append(float(x.approx(20).as_fraction()))
                else:
                    vals.append(1.0)
            else:
                vals.append(model.eval(v, model_completion=True).as_long())
                if t == 'i' and vals[-1] >> 63:
                    vals[-1] -= 1 << 64
        inp[k] = vals
    return inp


def fp_value(x):
    if z3.is_fp_value(x) and x.isNaN():
        return float('nan')
    b = z3.simplify(z3.fpToIEEEBV(x))
    return u2d(b.as_long())


def conc_ctx(case, inp, outs=None, dom=None):
    dom = dom or ConcDom()
    ins = {}
    for k, (t, n) in case.ins.items():
        ins[k] = [RV(Fraction(v)) if t == 'd' else int(v) & ((1 << 64) - 1) for v in inp[k]]
    co = None
    if outs is not None:
        co = {}
        for k, (t, n) in case.outs.items():
            co[k] = list(outs[k])
    return Ctx(dom, ins, co)


def fp_ctx(case, inp, outs=None):
    dom = FPDom()
    ins = {k: [z3.FPVal(v, z3.Float64()) if t == 'd' else int(v) for v in inp[k]] for k, (t, n) in case.ins.items()}
    co = None
    if outs is not None:
        co = {k: [z3.FPVal(v, z3.Float64()) if t == 'd' else v for v in outs[k]] for k, (t, n) in case.outs.items()}
    return Ctx(dom, ins, co)


def judge(case, inp, rc, outs):
    """evaluates the specification on a native run; returns list of failed assertions (label, got, expected)"""
    if rc == 'skipped':
        return []
    if rc in ('crash', 'hang'):
        return [(rc, None, 'normal return')]
    if case.mode == 'fp':
        c = fp_ctx(case, inp, outs)
        if rc != 0:
            return [('throws', None, 'normal return')] if case.must_return else []
        case.post(c)
        bad = []
        for label, good, vals in c.goals:
            if not z3.is_true(z3.simplify(bz(good))):
                bad.append((label, str(vals[0]) if vals else '', str(vals[1]) if vals else ''))
        return bad
    c = conc_ctx(case, inp, outs)
    if rc != 0:
        return [('throws', None, 'normal return')] if case.must_return else []
    try:
        case.post(c)
    except ZeroDivisionError:
        return []
    bad = []
    for label, good, vals in c.goals:
        if good is not True and not (isinstance(good, z3.ExprRef) and z3.is_true(z3.simplify(good))):
            bad.append((label,) + tuple(show(v) for v in (tuple(vals) + ('', ''))[:2]))
    return bad


def show(v):
    if isinstance(v, RV):
        try:
            return float(v.value())
        except Exception:
            return str(v)
    return v


def pre_holds(case, inp):
    if case.mode == 'fp':
        c = fp_ctx(case, inp)
        return all(z3.is_true(z3.simplify(bz(p))) for p in case.pre(c))
    c = conc_ctx(case, inp)
    try:
        return all(p is True or (isinstance(p, z3.ExprRef) and z3.is_true(z3.simplify(p))) for p in case.pre(c))
    except (ZeroDivisionError, ValueError, OverflowError):
        return False


def random_inputs(case, rng, k):
    out = []
    if case.samples:
        for _ in range(k * 4):
            inp = case.samples(rng)
            if pre_holds(case, inp):
                out.append(inp)
            if len(out) >= k:
                return out
    tries = 0
    while len(out) < k and tries < 60 * k:
        tries += 1
        inp = {}
        for n, (t, cnt) in case.ins.items():
            if t == 'd':
                inp[n] = [rng.choice([-1, 1]) * rng.randrange(1, 13) / 4.0 for _ in range(cnt)]
            elif t == 'u':
                lim = rng.choice([2, 4, 8, 16, 32, 64])
                inp[n] = [rng.randrange(0, lim) for _ in range(cnt)]
            else:
                inp[n] = [rng.randrange(-9, 10) for _ in range(cnt)]
        if pre_holds(case, inp):
            out.append(inp)
    return out


def run_case(case, ll, so, seed, budget):
    """returns a JSON-able record"""
    rec = {'case': case.name, 'what': case.what, 'status': None, 'queries': 0, 'solver_s': 0.0, 'functions': [], 'externals': [],
           'goals': 0, 'normalised': 0, 'instructions': 0, 'states': 0, 'merges': 0, 'feasibility_queries': 0, 'validated': 0, 'samples': [],
           'violation': None, 'note': ''}
    t0 = time.time()
    stats = {'queries': 0, 'solver_s': 0.0}
    dom = FPDom() if case.mode == 'fp' else RealDom()
    try:
        mod = module(ll)
        ins = sym_inputs(case, dom)
        pctx = Ctx(dom, ins)
        pre = [p for p in case.pre(pctx)]
        mach, res = encode(case, mod, dom, ins, pre)
        rec['functions'] = sorted(mach.functions)
        rec['externals'] = sorted(mach.externals)
        rec['instructions'] = mach.n_instr
        rec['states'] = mach.n_states
        rec['merges'] = mach.n_merges
        rec['feasibility_queries'] = mach.n_checks
        stats['solver_s'] += mach.solver_time
        cex = []        # (label, model)
        unknown = []
        nret = 0
        for oc, outs in res:
            if oc.kind != 'ret':
                if oc.kind == 'throw' and not case.must_return:
                    continue
                # bad ending: must be unreachable
                good = z3.BoolVal(False)
                r = decide(list(oc.state.pc), dom.axioms, good, case.timeout, stats)
                rec['goals'] += 1
                if r == 'proved':
                    continue
                if r == 'unknown':
                    unknown.append('%s: %s' % (oc.kind, oc.detail))
                else:
                    cex.append(('%s: %s' % (oc.kind, oc.detail), list(oc.state.pc), good, r[1]))
                continue
            nret += 1
            c = Ctx(dom, ins, outs)
            case.post(c)
            rec['goals'] += len(c.goals)
            pc = list(oc.state.pc)
            # one query for all assertions whose two sides are expected to normalise to the same polynomial; the others get their own
            goals = [(l, bz(g)) for l, g, v in c.goals]
            simp, norm = [], []
            tq = time.time()
            for l, g in goals:
                (norm if z3.is_true(z3.simplify(g, som=True, sort_sums=True)) else simp).append((l, g))
            if norm:
                s = z3.Then(z3.With('simplify', som=True, sort_sums=True), 'smt').solver()
                s.set('timeout', 10000)
                s.add(*pc)
                s.add(z3.Or(*[z3.Not(g) for l, g in norm]))
                stats['queries'] += 1
                if s.check() == z3.unsat:
                    rec['normalised'] += len(norm)
                else:
                    simp += norm
            stats['solver_s'] += time.time() - tq
            for l, g in simp:
                if len(cex) >= 3:
                    break
                r = decide(pc, dom.axioms, g, case.timeout, stats)
                if r == 'proved':
                    continue
                if r == 'unknown':
                    unknown.append(l)
                    if len(unknown) > 3:
                        break
                else:
                    cex.append((l, pc, g, r[1]))
        rng = random.Random((seed << 20) ^ (hash_name(case.name)))
        # replay of counterexamples
        for label, pc, good, model in cex:
            tries = [model_inputs(case, ins, model, dom)]
            m2 = nice_model(case, ins, pc, dom, good)
            if m2 is not None:
                tries.insert(0, model_inputs(case, ins, m2, dom))
            if so:
                for inp in tries:
                    if case.mode != 'fp' and any(math.isnan(x) or math.isinf(x) for k, (t, n) in case.ins.items() if t == 'd' for x in inp[k]):
                        continue
                    if not pre_holds(case, inp):
                        continue
                    rc, outs = native(so, case, [inp])[0]
                    bad = judge(case, inp, rc, outs)
                    if bad:
                        rec['violation'] = violation(case, inp, rc, outs, bad, label)
                        break
            if rec['violation']:
                break
        if cex and so and not rec['violation'] and getattr(dom, 'ufs', None):
            # the model gave values to functions (log, pow, ...) which the real functions do not take there: look for real values
            more = random_inputs(case, rng, 24)
            for inp, (rc, outs) in zip(more, native(so, case, more) if more else []):
                bad = judge(case, inp, rc, outs)
                if bad:
                    rec['violation'] = violation(case, inp, rc, outs, bad, cex[0][0])
                    break
        # translator validation: the same inputs through the encoding and through the compiled code
        if so and not rec['violation']:
            inputs = random_inputs(case, rng, 3)
            if not inputs:
                w = nice_model(case, ins, [bz(p) for p in pre], dom, None)
                if w is not None:
                    cand = model_inputs(case, ins, w, dom)
                    if pre_holds(case, cand):
                        inputs = [cand]
            rec['witness'] = len(inputs)
            nat = native(so, case, inputs) if inputs else []
            for inp, (rc, outs) in zip(inputs, nat):
                bad = judge(case, inp, rc, outs)
                if bad:
                    rec['violation'] = violation(case, inp, rc, outs, bad, 'concrete validation run')
                    break
                if case.mode == 'real' and rc == 0:
                    why = crosscheck(case, mod, inp, outs, res, dom, ins)
                    if why:
                        rec['note'] += ' encoding/implementation mismatch: ' + why
                        unknown.append('encoding mismatch')
                        break
                rec['validated'] += 1
                if len(rec['samples']) < 1:
                    rec['samples'].append({'case': case.name, 'inputs': inp, 'outputs': outs})
        if rec['violation']:
            rec['status'] = 'violated'
        elif cex:
            rec['status'] = 'unknown'
            rec['note'] += ' counterexample to %s did not reproduce natively: %s' % (cex[0][0], json.dumps(model_inputs(case, ins, cex[0][3], dom)))
        elif unknown:
            rec['status'] = 'unknown'
            rec['note'] += ' undecided: ' + '; '.join(unknown[:4])
        elif nret == 0 and case.must_return:
            rec['status'] = 'unknown'
            rec['note'] += ' no path returns (vacuous)'
        elif rec['goals'] == 0:
            rec['status'] = 'unknown'
            rec['note'] += ' no assertion (vacuous)'
        elif so and not rec.get('witness'):
            rec['status'] = 'unknown'
            rec['note'] += ' no input satisfies the assumptions (vacuous)'
        else:
            rec['status'] = 'held'
    except (sym.Unsupported, ir.IRError, NotImplementedError) as e:
        rec['status'] = 'unknown'
        rec['note'] += ' not encodable: %s: %s' % (type(e).__name__, e)
    except Exception as e:
        rec['status'] = 'unknown'
        rec['note'] += ' internal error: ' + traceback.format_exc()[-1500:]
    if rec['status'] == 'unknown' and so and not rec['violation']:
        # the solver gave no answer: still compare real executions with the specification
        rng = random.Random(seed * 7919 + hash_name(case.name))
        try:
            inputs = random_inputs(case, rng, 40)
            for inp, (rc, outs) in zip(inputs, native(so, case, inputs)):
                bad = judge(case, inp, rc, outs)
                if bad:
                    rec['violation'] = violation(case, inp, rc, outs, bad, 'concrete run')
                    rec['status'] = 'violated'
                    break
        except Exception:
            rec['note'] += traceback.format_exc()[-500:]
    rec['queries'] = stats['queries']
    rec['solver_s'] = round(stats['solver_s'], 3)
    rec['wall_s'] = round(time.time() - t0, 3)
    return rec


def violation(case, inp, rc, outs, bad, label):
    return {'case': case.name, 'algebra': case.ns, 'program': case.cpp(), 'what': case.what, 'solver_goal': label, 'inputs': inp, 'native_rc': rc,
            'native_outputs': outs, 'failed': [{'assertion': b[0], 'got': b[1], 'expected': b[2]} for b in bad[:8]]}


def hash_name(s):
    h = 0
    for ch in s:
        h = (h * 131 + ord(ch)) & 0xffffffff
    return h


def nice_model(case, ins, pc, dom, good):
    """a model with small, well-scaled inputs"""
    for lo, hi, integral, tmo in ((-6, 6, True, 3000), (-16, 16, False, 3000)):
        s = z3.Solver()
        s.set('timeout', tmo)
        s.add(*pc)
        s.add(*dom.axioms)
        if good is not None:
            s.add(z3.Not(good))
        n = 0
        for k, (t, cnt) in case.ins.items():
            for v in ins[k]:
                if t == 'd':
                    if dom.mode == 'fp':
                        return None
                    s.add(v.n >= lo, v.n <= hi)
                    if integral:
                        n += 1
                        iv = z3.Int('nice!%d' % n)
                        s.add(v.n == z3.ToReal(iv) / 2)
        try:
            if s.check() == z3.sat:
                return s.model()
        except z3.Z3Exception:
            pass
    return None


def crosscheck(case, mod, inp, outs, res, dom, ins):
    """runs the IR on the concrete input with exact rationals and evaluates the symbolic result on it"""
    cd = ConcDom()
    cins = {k: [RV(Fraction(v)) if t == 'd' else int(v) & ((1 << 64) - 1) for v in inp[k]] for k, (t, n) in case.ins.items()}
    m, r = encode(case, mod, cd, cins, [])
    rets = [(oc, o) for oc, o in r if oc.kind == 'ret']
    if len(rets) != 1 or len(r) != 1:
        return 'concrete run of the encoding ends with %s' % [(oc.kind, oc.detail) for oc, _ in r]
    co = rets[0][1]
    for k, (t, n) in case.outs.items():
        for i in range(n):
            x, y = co[k][i], outs[k][i]
            if t == 'd':
                if not isinstance(x, RV) or not x.const():
                    return '%s[%d] is not a number in the encoding' % (k, i)
                if x.d == 0 or not close(y, x, 1e-6):
                    return '%s[%d]: encoding %s, implementation %s' % (k, i, x, y)
            else:
                if not isinstance(x, int) or (x - y) & ((1 << 64) - 1):
                    return '%s[%d]: encoding %s, implementation %s' % (k, i, x, y)
    # symbolic result under the substitution
    env = []
    for k, (t, n) in case.ins.items():
        for v, c in zip(ins[k], inp[k]):
            env.append((v.n, z3.RealVal(str(Fraction(c)))) if t == 'd' else (v, z3.BitVecVal(int(c) & ((1 << 64) - 1), 64)))
    if dom.sqrts or dom.ufs or dom.fresh_n:
        return None
    for oc, so in res:
        if oc.kind != 'ret':
            continue
        for k, (t, n) in case.outs.items():
            for i in range(n):
                x = so[k][i]
                if t == 'd':
                    nn = x.n if is_c(x.n) else frac(z3.simplify(z3.substitute(x.n, *env)))
                    dd = x.d if is_c(x.d) else frac(z3.simplify(z3.substitute(x.d, *env)))
                    if nn is None or dd is None or dd == 0:
                        return None if nn is None or dd is None else 'symbolic %s[%d] undefined' % (k, i)
                    if not close(outs[k][i], RV(nn / dd), 1e-6):
                        return 'symbolic %s[%d]: %s, implementation %s' % (k, i, nn / dd, outs[k][i])
                elif isinstance(x, z3.ExprRef):
                    v = z3.simplify(z3.substitute(x, *env))
                    if z3.is_bv_value(v) and (v.as_long() - outs[k][i]) & ((1 << 64) - 1):
                        return 'symbolic %s[%d]' % (k, i)
    return None


def frac(v):
    if z3.is_rational_value(v):
        return v.as_fraction()
    return None


# ---------------------------------------------------------------------------------------------- one property
def _task(a):
    prop, idx, ll, so, seed, budget = a
    case = CASES[idx]
    return run_case(case, ll, so, seed, budget)


CASES = []


def known_findings():
    p = os.path.join(VERIF, 'known-findings.jsonl')
    out = []
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if ln:
                out.append(json.loads(ln))
    return out


def load_cases(prop, tier):
    mod = importlib.import_module('specs.' + prop)
    cs = mod.cases(tier)
    names = set()
    for c in cs:
        if c.name in names:
            raise RuntimeError('duplicate case ' + c.name)
        names.add(c.name)
    return mod, cs


def main(argv):
    global CASES
    prop = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    only = None
    verbose = False
    for a in argv[1:]:
        if a in ('quick', 'thorough'):
            tier = a
        elif a == '-v':
            verbose = True
        else:
            only = a
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    t0 = time.time()
    sys.path.insert(0, VERIF)
    sys.setrecursionlimit(100000)
    mod, cases = load_cases(prop, tier)
    if only:
        import fnmatch
        cases = [c for c in cases if fnmatch.fnmatch(c.name, only)]
    CASES = cases
    index = {c.name: i for i, c in enumerate(cases)}
    tus = build.group(cases)
    work = tempfile.mkdtemp(prefix='gatlsv-')
    key = build.tree_hash() if os.environ.get('GATLSV_CACHE') else None
    jobs = int(os.environ.get('GATLSV_JOBS', '8'))
    limit = 820 if tier == 'quick' else 6 * 3600
    records = []
    build_errors = []
    violations = []
    undecided = []
    mp = multiprocessing.get_context('fork')
    try:
        for tu in tus:
            with open(os.path.join(work, tu.name + '.cpp'), 'w') as f:
                f.write(tu.src)
        pool = concurrent.futures.ProcessPoolExecutor(jobs, mp_context=mp)
        # start the workers before any thread exists
        list(pool.map(abs, range(jobs)))
        sem = concurrent.futures.ThreadPoolExecutor(jobs)
        futs = {}
        order = sorted(tus, key=lambda t: -sum(c.weight for c in t.cases))
        for tu in order:
            for which in ('ll', 'so'):
                futs[(tu.name, which)] = sem.submit(build.build_one, tu, work, which, 700, key)
        pending = {}
        todo = list(order)
        compile_s = 0
        while todo or pending:
            for tu in list(todo):
                fl, fs = futs[(tu.name, 'll')], futs[(tu.name, 'so')]
                if fl.done() and fs.done():
                    todo.remove(tu)
                    ll, e1 = fl.result()
                    so, e2 = fs.result()
                    if e2 is not None or e1 is not None:
                        build_errors.append({'tu': tu.name, 'cases': [c.name for c in tu.cases], 'clang': e1, 'g++': e2})
                        if len(tu.cases) > 1:
                            # isolate the offending harness
                            for c in tu.cases:
                                t1 = build.TU(tu.name + '__' + c.name, [c])
                                with open(os.path.join(work, t1.name + '.cpp'), 'w') as f:
                                    f.write(t1.src)
                                for which in ('ll', 'so'):
                                    futs[(t1.name, which)] = sem.submit(build.build_one, t1, work, which, 600, key)
                                todo.append(t1)
                            build_errors.pop()
                        continue
                    for c in tu.cases:
                        pending[pool.submit(_task, (prop, index[c.name], ll, so, seed, limit))] = c
            done = [f for f in pending if f.done()]
            for f in done:
                c = pending.pop(f)
                try:
                    records.append(f.result())
                except Exception as e:
                    records.append({'case': c.name, 'status': 'unknown', 'note': 'worker died: %r' % e, 'queries': 0, 'solver_s': 0, 'functions': [],
                                    'externals': [], 'goals': 0, 'normalised': 0, 'instructions': 0, 'states': 0, 'merges': 0, 'feasibility_queries': 0, 'validated': 0,
                                    'samples': [], 'violation': None})
                if verbose:
                    r = records[-1]
                    print('%-40s %-9s goals=%d q=%d instr=%d states=%d %.1fs %s' % (r['case'], r['status'], r['goals'], r['queries'], r['instructions'], r['states'], r.get('wall_s', 0), r['note'][:300]), flush=True)
                    if r['violation']:
                        print(json.dumps(r['violation'], indent=1)[:3000])
            if not done:
                time.sleep(0.02)
            if os.environ.get('GATLSV_FAILFAST') and any(r['status'] == 'violated' for r in records):
                break    # development only: mutant sweeps
            if time.time() - t0 > limit:
                for c in list(pending.values()):
                    undecided.append('%s: time limit' % c.name)
                for tu in todo:
                    undecided.append('%s: time limit (build)' % tu.name)
                break
        for p in list(pool._processes.values()) if pending else []:
            p.kill()
        pool.shutdown(wait=False, cancel_futures=True)
        sem.shutdown(wait=False, cancel_futures=True)
        return finish(prop, tier, seed, mod, cases, records, build_errors, undecided, t0, work, verbose, only)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def finish(prop, tier, seed, mod, cases, records, build_errors, undecided, t0, work, verbose, only):
    ev_dir = os.path.join(VERIF, 'evidence')
    os.makedirs(ev_dir, exist_ok=True)
    findings = [f for f in known_findings() if f.get('property') == prop and f.get('status') == 'finding']
    listed = {f['case']: f for f in findings}
    byname = {c.name: c for c in cases}
    bad = []
    known = []
    for r in records:
        if r['status'] == 'violated':
            f = listed.get(r['case'])
            if f is not None and all(any(fn == x['assertion'] or fn == '*' for fn in f['assertions']) for x in r['violation']['failed']):
                known.append((f, r))
            else:
                bad.append(r['violation'])
        elif r['status'] != 'held':
            undecided.append('%s:%s' % (r['case'], r['note']))
    for b in build_errors:
        if b['g++'] is not None and not b['g++'].startswith('RESOURCE'):
            names = b['cases']
            f = listed.get(names[0])
            if f is not None and 'does not compile' in f['assertions']:
                known.append((f, None))
            else:
                bad.append({'case': names[0], 'what': byname[names[0]].what, 'program': byname[names[0]].cpp(), 'failed': [{'assertion': 'does not compile', 'got': b['g++'], 'expected': 'a program that compiles on the unchanged tree'}]})
        else:
            undecided.append('%s: build: %s' % (b['tu'], (b['clang'] or b['g++'])[:600]))
    held = [r for r in records if r['status'] == 'held']
    funcs = sorted(set(f for r in records for f in r['functions']))
    ext = sorted(set(f for r in records for f in r['externals']))
    samples = []
    for r in records:
        samples.extend(r['samples'])
    rng = random.Random(seed)
    rng.shuffle(samples)
    cov = {
        'states': sum(r['states'] for r in records),
        'transitions': sum(r['instructions'] for r in records),
        'traces_validated_against_impl': sum(r['validated'] for r in records),
        'samples': samples[:4],
        'cases': len(cases), 'cases_held': len(held),
        'assertions': sum(r['goals'] for r in records),
        'assertions_by_normalisation': sum(r['normalised'] for r in records),
        'solver_queries': sum(r['queries'] for r in records),
        'feasibility_queries': sum(r['feasibility_queries'] for r in records),
        'solver_seconds': round(sum(r['solver_s'] for r in records), 2),
        'merged_states': sum(r['merges'] for r in records),
        'functions_encoded': len(funcs),
        'functions_encoded_sample': demangle(funcs)[:25],
        'stubbed_externals': ext,
        'case_list': [{'case': r['case'], 'status': r['status'], 'assertions': r['goals'], 'queries': r['queries'], 'solver_s': r['solver_s'], 'instructions': r['instructions'], 'bound_loop_iterations': byname[r['case']].bound} for r in records],
        'bounds': getattr(mod, 'BOUNDS', ''),
        'undecided': undecided[:40],
        'solver': 'z3 ' + z3.get_version_string(),
    }
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'coverage': cov,
          'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])) + COMMON_ASSUMPTIONS,
          'wall_s': round(time.time() - t0, 2), 'violations': len(bad)}
    if not only:
        with open(os.path.join(ev_dir, prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
    for f, r in known:
        print('KNOWN-FINDING: property=%s %s' % (prop, f['what']))
    rep_dir = os.path.join(ev_dir, 'replay')
    if bad:
        os.makedirs(rep_dir, exist_ok=True)
    for k, v in enumerate(bad[:40]):
        path = os.path.join(rep_dir, '%s-%d.json' % (prop, k))
        with open(path, 'w') as fh:
            json.dump(v, fh, indent=1, default=str)
        print('VIOLATION property=%s replay=%s' % (prop, path))
        for x in v['failed'][:2]:
            print('  %s (%s): %s got %s expected %s' % (v['case'], v['what'], x['assertion'], str(x['got'])[:300], str(x['expected'])[:200]))
    for u in undecided[:20]:
        print('UNDECIDED %s' % u[:600])
    print('%s %s: %d cases, %d held, %d violated, %d undecided, %d known; %d assertions, %d queries, solver %.1fs, wall %.1fs' % (
        prop, tier, len(cases), len(held), len(bad), len(undecided), len(known), cov['assertions'], cov['solver_queries'], cov['solver_seconds'], ev['wall_s']))
    sys.stdout.flush()
    if bad:
        return 1
    if undecided:
        return 2
    return 0


COMMON_ASSUMPTIONS = [
    'in real-valued cases a double is a mathematical real: rounding, overflow and NaN are outside the claim',
    'C library mathematical functions are uninterpreted (equal arguments give equal results; sqrt(x)>=0 and sqrt(x)^2=x for x>=0)',
    'clang 18 at -O1 compiles the same headers with GATL_VERIF defined; every case is cross-checked natively against g++-11 without it',
]


def demangle(names):
    try:
        p = subprocess.run(['c++filt'], input='\n'.join(n[1:].strip('"') for n in names).encode(), stdout=subprocess.PIPE)
        return [x[:200] for x in p.stdout.decode().split('\n') if x]
    except Exception:
        return names
