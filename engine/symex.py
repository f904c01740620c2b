"""Symbolic executor for the LLVM IR of a harness and the /repo code it instantiates."""

import ctypes
import heapq
import math
import random
import os
import shutil
import struct
import subprocess
import tempfile
import time
from fractions import Fraction

import z3

from . import ir
from . import dom
from . import taylor
from .dom import (RV, IV, FB, DomainError, VARS, rv_add, rv_mul, rv_neg, rv_const, to_rv, p_add,
                  p_sub, p_mul, p_neg, p_scale, p_const, p_var, p_is_const, p_cval, p_z3, p_z3i,
                  p_vars, p_range, p_integral, up)

FSORT = {'half': z3.FPSort(5, 11), 'float': z3.Float32(), 'double': z3.Float64()}
RNE = z3.RNE()
INF = math.inf


class Inconclusive(Exception):
    pass


class Stop(Exception):
    """path ends"""


class Ptr:
    __slots__ = ('obj', 'off')

    def __init__(self, obj, off):
        self.obj = obj
        self.off = off

    def __repr__(self):
        return 'Ptr(%s,%s)' % (self.obj, self.off)

    def __eq__(self, o):
        return (isinstance(o, Ptr) and self.obj == o.obj and isinstance(self.off, int)
                and isinstance(o.off, int) and self.off == o.off)

    def __hash__(self):
        return hash((self.obj, self.off))


class FPtr:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, FPtr) and o.name == self.name

    def __hash__(self):
        return hash(self.name)


class PIte:
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b):
        self.c = c
        self.a = a
        self.b = b


class Pk:
    """opaque bytes holding non-integer cells, e.g. {float,int} passed as i64"""
    __slots__ = ('n', 'cells')

    def __init__(self, n, cells):
        self.n = n
        self.cells = cells


class Undef:
    __slots__ = ('ty',)

    def __init__(self, ty=None):
        self.ty = ty


UNDEF = Undef()
NULL = Ptr(0, 0)


class Obj:
    __slots__ = ('size', 'cells', 'own', 'name', 'const', 'heap')

    def __init__(self, size, name, own, const=False, heap=False):
        self.size = size
        self.cells = {}
        self.own = own
        self.name = name
        self.const = const
        self.heap = heap

    def copy(self, own):
        o = Obj(self.size, self.name, own, self.const, self.heap)
        o.cells = dict(self.cells)
        return o


class Frame:
    __slots__ = ('fn', 'regs', 'bi', 'ip', 'prev', 'iters', 'dst', 'rty', 'allocs', 'uid', 'bkey',
                 'cnt')

    def __init__(self, fn, uid):
        self.fn = fn
        self.regs = {}
        self.bi = 0
        self.ip = 0
        self.prev = None
        self.iters = {}
        self.dst = None
        self.rty = None
        self.allocs = []
        self.uid = uid
        self.bkey = None
        self.cnt = {}

    def copy(self):
        f = Frame.__new__(Frame)
        f.fn = self.fn
        f.regs = dict(self.regs)
        f.bi = self.bi
        f.ip = self.ip
        f.prev = self.prev
        f.iters = dict(self.iters)
        f.dst = self.dst
        f.rty = self.rty
        f.allocs = list(self.allocs)
        f.uid = self.uid
        f.bkey = self.bkey
        f.cnt = dict(self.cnt)
        return f


class Wild:
    """result of a division by a value that may be zero: may be stored but not looked at"""
    def __repr__(self):
        return 'WILD'


WILD = Wild()


class State:
    __slots__ = ('frames', 'mem', 'pc', 'own', 'syms', 'steps', 'defs', 'heapn', 'inputs')

    def __init__(self):
        self.frames = []
        self.mem = {}
        self.pc = []
        self.own = object()
        self.syms = {}
        self.inputs = {}        # inputs of this path (real mode)
        self.steps = 0
        self.heapn = 0

    def fork(self):
        s = State.__new__(State)
        s.frames = [f.copy() for f in self.frames]
        s.mem = dict(self.mem)
        s.pc = list(self.pc)
        s.own = object()
        self.own = object()
        s.syms = dict(self.syms)
        s.inputs = dict(self.inputs)
        s.steps = self.steps
        s.heapn = self.heapn
        return s


class Violation:
    def __init__(self, kind, msg, inputs, where):
        self.kind = kind
        self.msg = msg
        self.inputs = inputs
        self.where = where


def f32(x):
    return ctypes.c_float(x).value


def f16(x):
    try:
        return struct.unpack('<e', struct.pack('<e', x))[0]
    except OverflowError:
        return math.copysign(INF, x)


def rnd(fmt, x):
    if fmt == 'double':
        return x
    if fmt == 'float':
        return f32(x)
    if fmt == 'half':
        return f16(x)
    return x


def frac_round(q, fmt):
    """correctly rounded conversion Fraction -> binary fp"""
    if fmt == 'double':
        try:
            return float(q)
        except OverflowError:
            return math.copysign(INF, q)
    d = float(q)
    # avoid double rounding: nudge using sticky comparison
    if Fraction(d) != q and d != 0:
        # round-to-odd at double precision
        bits = struct.unpack('<Q', struct.pack('<d', d))[0]
        if not bits & 1:
            if (Fraction(d) < q) == (d > 0):
                bits |= 1
            else:
                bits = (bits - 1) | 1
        d = struct.unpack('<d', struct.pack('<Q', bits))[0]
    return rnd(fmt, d)


libm = ctypes.CDLL('libm.so.6')


def _libm(name, n, single):
    f = getattr(libm, name + ('f' if single else ''))
    t = ctypes.c_float if single else ctypes.c_double
    f.restype = t
    f.argtypes = [t] * n
    return f


def ins_uses(ins):
    """registers read by a (non-phi) instruction"""
    out = []

    def add(v):
        if isinstance(v, tuple) and len(v) == 2 and v[0] == 'r':
            out.append(v[1])
    add(ins.a)
    add(ins.b)
    add(ins.c)
    if ins.op == 'alloca' and ins.a is not None:
        add(ins.a[1])
    elif ins.op == 'getelementptr':
        for _, v in ins.b:
            add(v)
    elif ins.op == 'call':
        if ins.a[0] == '%':
            out.append(ins.a)
        for _, v, _b in ins.b:
            add(v)
    return out


def liveness(fn):
    lv = getattr(fn, 'live', None)
    if lv is not None:
        return lv
    n = len(fn.code)
    use = [set() for _ in range(n)]
    dfn = [set() for _ in range(n)]
    phid = [set() for _ in range(n)]
    edge = {}
    for b in range(n):
        for ins in fn.code[b]:
            if ins.op == 'phi':
                phid[b].add(ins.dst)
                for lab, v in ins.a.items():
                    if v[0] == 'r':
                        edge.setdefault((fn.labels[lab], b), set()).add(v[1])
                continue
            for r in ins_uses(ins):
                if r not in dfn[b]:
                    use[b].add(r)
            if ins.dst:
                dfn[b].add(ins.dst)
    live_in = [set() for _ in range(n)]
    live_out = [set() for _ in range(n)]
    changed = True
    while changed:
        changed = False
        for b in range(n - 1, -1, -1):
            o = set()
            for s in fn.succ[b]:
                o |= (live_in[s] - phid[s]) | edge.get((b, s), set())
            i = use[b] | (o - dfn[b])
            if o != live_out[b] or i != live_in[b]:
                live_out[b], live_in[b] = o, i
                changed = True
    # live after instruction ip (for frames suspended in a call): computed on demand
    fn.live = (live_in, live_out, {})
    return fn.live


def live_at(fn, bi, ip, top):
    live_in, live_out, memo = liveness(fn)
    k = (bi, ip, top)
    r = memo.get(k)
    if r is None:
        r = set(live_out[bi])
        code = fn.code[bi]
        for j in range(len(code) - 1, ip - (1 if top else 0), -1):
            ins = code[j]
            if ins.dst:
                r.discard(ins.dst)
            if ins.op != 'phi':
                r.update(ins_uses(ins))
        memo[k] = r
    return r


NONE = frozenset()


class Exec:
    def __init__(self, mod, opts):
        self.mod = mod
        self.o = dict(mode='bv', merge=True, overflow=False, loop=2000, steps=3000000, paths=20000,
                      feas_ms=4000, assert_ms=120000, heap=False, kissat=False, fmode='fp')
        self.o.update(opts)
        self.real = self.o['mode'] == 'real'
        dom.TM[0] = bool(int(self.o.get('tm', 0))) and self.real
        dom.TMBITS[0] = int(self.o.get('tmbits', 62))
        self.merge = self.o['merge'] not in (False, 'no', 0) and not self.real
        self.selective = self.o['merge'] != 'full'
        self.lazy = self.merge and bool(self.o.get('lazy'))
        self.funcs_used = {}
        self.stats = dict(queries=0, unsat=0, sat=0, unknown=0, solver_s=0.0, paths=0, steps=0,
                          asserts=0, obligations=0, interval=0, merges=0, forks=0)
        self.sites = {}        # assert site -> reached count
        self.viol = []
        self.open = []
        self.seen, self.glanced = [], set()
        self.inconcl = []
        self.solver = z3.SolverFor('QF_FPBV') if self.o['mode'] == 'fp' else z3.SolverFor('QF_BV')
        self.stack = []
        self.uids = {}
        self.inputs = {}        # key -> (kind, z3 term)
        self.fresh = 0
        self.globs = {}
        self.gids = {}
        self.axioms = []
        self.axid = 0
        self.cache = {}
        self.nints = {}
        self.divcache = {}
        self.trigcache = {}
        self.addr = {}
        self.notes = set()
        self.deadline = None
        self.base = None
        self.axby = {}        # aux var id -> list of axioms

    # ------------------------------------------------------------------ solver
    def _sync(self, pc):
        """bring the incremental solver to exactly this path condition"""
        st = self.stack
        k = 0
        n = min(len(st), len(pc))
        while k < n and st[k] is pc[k]:
            k += 1
        if len(st) > k:
            self.solver.pop(len(st) - k)
            del st[k:]
        for c in pc[k:]:
            self.solver.push()
            self.solver.add(c)
            st.append(c)

    def check(self, pc, extra, ms=None):
        """sat/unsat/unknown of pc and extra"""
        t0 = time.time()
        if self.deadline and t0 > self.deadline:
            raise Inconclusive('time budget of this entry exhausted')
        self.stats['queries'] += 1
        if self.real:
            r, m = self.check_real(pc, extra, ms)
        else:
            self._sync(pc)
            self.solver.set('timeout', ms or self.o['feas_ms'])
            r = self.solver.check(extra) if extra is not None else self.solver.check()
            m = self.solver.model() if r == z3.sat else None
        t1 = time.time() - t0
        self.stats['solver_s'] += t1
        self.stats['slowest_s'] = max(self.stats.get('slowest_s', 0), t1)
        self.stats[str(r)] += 1
        return r, m

    def pvars(self, e, acc=None):
        """aux/real variable ids in a z3 expression"""
        key = e.get_id()
        c = self.cache.get(key)
        if c is not None and c[0].eq(e):
            return c[1]
        out = set()
        seen = set()
        work = [e]
        while work:
            x = work.pop()
            i = x.get_id()
            if i in seen:
                continue
            seen.add(i)
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                v = VARS.byname.get(x.decl().name())
                if v is not None:
                    out.add(v.id)
            else:
                work.extend(x.children())
        self.cache[key] = (e, out)
        return out

    def real_context(self, pc, extra):
        """extra + transitively relevant part of pc, variable ranges and defining axioms"""
        need = set(self.pvars(extra)) if extra is not None else set()
        chosen = []
        if extra is not None:
            chosen.append(extra)
        pending = list(pc)
        if extra is None:
            for c in pending:
                need |= self.pvars(c)
        doneax = set()
        changed = True
        while changed:
            changed = False
            rest = []
            for c in pending:
                vs = self.pvars(c)
                if not vs or vs & need or any(self.divof.get(v, NONE) & need for v in vs):
                    chosen.append(c)
                    if not vs <= need:
                        need |= vs
                    changed = True
                else:
                    rest.append(c)
            pending = rest
            for v in list(need):
                if v in doneax:
                    continue
                doneax.add(v)
                for a in self.axby.get(v, ()):
                    chosen.append(a)
                    vs = self.pvars(a)
                    if not vs <= need:
                        need |= vs
                    changed = True
        chosen += VARS.constraints(need)
        return chosen

    def check_real(self, pc, extra, ms):
        cs = self.real_context(pc, extra)
        s = z3.Solver()
        s.set('timeout', ms or self.o['feas_ms'])
        s.add(cs)
        r = s.check()
        if r == z3.unknown:
            # nonlinear: try the nlsat tactic
            g = z3.Goal()
            g.add(cs)
            t = z3.TryFor(z3.Then('simplify', 'propagate-values', 'solve-eqs', 'qfnra-nlsat'),
                          ms or self.o['feas_ms'])
            s2 = t.solver()
            s2.add(cs)
            try:
                r2 = s2.check()
            except z3.Z3Exception:
                r2 = z3.unknown
            if r2 != z3.unknown:
                return r2, (s2.model() if r2 == z3.sat else None)
        return r, (s.model() if r == z3.sat else None)

    def feasible(self, st, cond):
        if isinstance(cond, bool):
            return cond
        r, _ = self.check(st.pc, cond)
        return r != z3.unsat

    def kissat(self, cs, ms):
        """bit-blast with z3, decide with kissat; model re-derived by z3 when sat"""
        g = z3.Goal()
        g.add(cs)
        sub = z3.Then('simplify', 'propagate-values', 'solve-eqs', 'elim-uncnstr', 'simplify',
                      'bit-blast', 'simplify', 'tseitin-cnf')(g)
        if len(sub) != 1:
            return z3.unknown
        if sub[0].inconsistent():
            return z3.unsat
        txt = sub[0].dimacs(False)
        if not txt.startswith('p cnf'):
            return z3.unknown
        d = tempfile.mkdtemp(prefix='vsat')
        try:
            fn = os.path.join(d, 'q.cnf')
            with open(fn, 'w') as f:
                f.write(txt)
            p = subprocess.run(['kissat', '-q', '-n', '--time=%d' % max(1, ms // 1000), fn],
                               stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            return {10: z3.sat, 20: z3.unsat}.get(p.returncode, z3.unknown)
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def decide(self, st, cond):
        """decide satisfiability of pc & cond for an obligation (strong budget)"""
        r, m = self.check(st.pc, cond, self.o['feas_ms'])
        if r != z3.unknown:
            return r, m
        ms = self.o['assert_ms']
        if self.real:
            return self.check(st.pc, cond, ms)
        t0 = time.time()
        try:
            if self.o['mode'] == 'bv' and shutil.which('kissat') and not self.o.get('nokissat'):
                r = self.kissat(st.pc + [cond], ms)
                if r == z3.unsat:
                    self.stats['unsat'] += 1
                    self.stats['kissat'] = self.stats.get('kissat', 0) + 1
                    return r, None
            tac = z3.Then('simplify', 'propagate-values', 'fpa2bv', 'simplify', 'solve-eqs', 'elim-uncnstr',
                          'bit-blast', 'simplify', 'sat')
            s = z3.TryFor(tac, ms).solver()
            s.add(st.pc)
            s.add(cond)
            r = s.check()
            return r, (s.model() if r == z3.sat else None)
        except z3.Z3Exception:
            return z3.unknown, None
        finally:
            self.stats['queries'] += 1
            self.stats['solver_s'] += time.time() - t0

    # ------------------------------------------------------------------ violations
    def path_inputs(self, st):
        return dict(self.inputs, **st.inputs) if st is not None else self.inputs

    def model_inputs(self, m, st=None):
        out = {}
        rest = []

        def value(t):
            # inputs the query did not mention are independent of it: any model of the path will do
            v = m.eval(t, model_completion=False)
            if z3.is_rational_value(v) or z3.is_int_value(v) or z3.is_algebraic_value(v) or st is None:
                return v
            if not rest:
                rest.append(self.check(st.pc, None)[1])
            return rest[0].eval(t, model_completion=False) if rest[0] is not None else v
        for key, (kind, t, var) in self.path_inputs(st).items():
            if kind in ('f32', 'f64', 'f16') and self.real:
                v = value(t)
                if z3.is_algebraic_value(v):
                    v = v.approx(40)
                if z3.is_rational_value(v):
                    q = Fraction(v.numerator_as_long(), v.denominator_as_long())
                else:
                    q = Fraction(0)
                    if var.lo is not None and var.lo > 0:
                        q = Fraction(var.lo)
                    if var.hi is not None and var.hi < 0:
                        q = Fraction(var.hi)
                fmt = {'f32': 'float', 'f64': 'double', 'f16': 'half'}[kind]
                f = frac_round(q, fmt)
                lo, hi = var.lo, var.hi
                if lo is not None and Fraction(f) < lo:
                    f = math.nextafter(f, INF) if fmt == 'double' else f32(f32(f) + 2 * abs(f) * 2.0 ** -23 + 1e-45)
                if hi is not None and Fraction(f) > hi:
                    f = math.nextafter(f, -INF) if fmt == 'double' else f32(f32(f) - 2 * abs(f) * 2.0 ** -23 - 1e-45)
                out[key] = f.hex()
            elif self.real:
                v = value(t)
                if z3.is_int_value(v):
                    out[key] = str(v.as_long())
                else:
                    x = 0
                    if var is not None:
                        if var.lo is not None and var.lo > 0:
                            x = int(var.lo)
                        if var.hi is not None and var.hi < 0:
                            x = int(var.hi)
                    out[key] = str(x)
            else:
                v = m.eval(t, model_completion=True)
                if kind in ('f32', 'f64', 'f16'):
                    b = z3.simplify(z3.fpToIEEEBV(v))
                    if not z3.is_bv_value(b):
                        out[key] = 'nan'
                        continue
                    n = b.as_long()
                    w = b.size()
                    f = struct.unpack({16: '<e', 32: '<f', 64: '<d'}[w],
                                      n.to_bytes(w // 8, 'little'))[0]
                    out[key] = f.hex() if f == f and abs(f) != INF else repr(f)
                else:
                    n = v.as_long()
                    w = v.size()
                    if n >> (w - 1):
                        n -= 1 << w
                    out[key] = str(n)
        return out

    def where(self, st):
        return ' <- '.join(f.fn.name for f in reversed(st.frames[-4:]))

    def report(self, st, kind, msg, model, cond=None):
        v = Violation(kind, msg, self.model_inputs(model, st) if model is not None else {},
                      self.where(st))
        v.more = []
        if cond is not None and not self.real:
            pass
        self.viol.append(v)
        if len(self.viol) >= self.o.get('maxviol', 4):
            raise Inconclusive('stopped after %d counterexamples' % len(self.viol))

    def oblige(self, st, ok, kind, msg):
        """ok must hold on every model of pc.  Afterwards assume it."""
        self.stats['obligations'] += 1
        if ok is True:
            return
        if self.o.get('blind'):
            if ok is False:
                self.glance(st)
                raise Stop()
            return
        if ok is False:
            r, m = self.check(st.pc, None, self.o['assert_ms'])
            if r == z3.sat:
                self.report(st, kind, msg, m)
            elif r == z3.unknown:
                self.inconcl.append('%s: %s (path feasibility unknown)' % (kind, msg))
            raise Stop()
        if isinstance(ok, FB):
            self.oblige_fb(st, ok, kind, msg)
            return
        neg = z3.Not(ok)
        if not self.real:
            sn = z3.simplify(neg)
            if z3.is_false(sn):
                self.stats['simplified'] = self.stats.get('simplified', 0) + 1
                return
        r, m = self.decide(st, neg)
        if r == z3.unsat:
            return
        if r == z3.sat:
            self.report(st, kind, msg, m)
            st.pc.append(ok)
            if not self.feasible(st, None if False else z3.BoolVal(True)):
                raise Stop()
            return
        self.inconcl.append('%s: %s (solver gave no answer)' % (kind, msg))
        st.pc.append(ok)

    def oblige_fb(self, st, fb, kind, msg):
        if fb.mf is False:
            return
        if fb.mf is True:
            r, m = self.check(st.pc, None, self.o['assert_ms'])
        else:
            r, m = self.decide(st, fb.mf)
        if r == z3.unsat:
            return
        if r == z3.unknown:
            g = self.guesses(st)
            if g:
                # not decided: inputs of this path are still worth a run of the real code
                v = Violation(kind, msg + ' (undecided, inputs guessed)', g[0], self.where(st))
                v.more = g[1:]
                self.viol.append(v)
                if len(self.viol) >= self.o.get('maxviol', 4):
                    raise Inconclusive('stopped after %d counterexamples' % len(self.viol))
            else:
                self.inconcl.append('%s: %s (solver gave no answer)' % (kind, msg))
            return
        cands = []
        t0 = time.time()
        if fb.rob is not None:
            for k in (1e6, 1e4, 1e3, 100.0, 10.0, 3.0, 1.0, 0.5, 0.1):
                c = fb.rob(k)
                if c is None or time.time() - t0 > 8:
                    continue
                r2, m2 = self.check(st.pc, c, self.o['feas_ms'])
                if r2 == z3.sat:
                    cands.append(m2)
                    if len(cands) >= 3:
                        break
        cands.append(m)
        v = Violation(kind, msg, self.model_inputs(cands[0], st), self.where(st))
        v.more = [self.model_inputs(x, st) for x in cands[1:]] + self.guesses(st)
        self.viol.append(v)
        if len(self.viol) >= self.o.get('maxviol', 4):
            raise Inconclusive('stopped after %d counterexamples' % len(self.viol))

    def guesses(self, st, n=5):
        """input assignments that follow the path of st (real mode)"""
        rnd = random.Random(self.o.get('seed', 1))
        out = []
        ins = self.path_inputs(st)
        if len(ins) <= 4 and any(v[2] is not None and v[2].kind == 'I' for v in ins.values()):
            n *= 3
        for i in range(n):
            near, side = [], []
            for key, (kind, t, var) in ins.items():
                if var is None or var.lo is None or var.hi is None:
                    continue
                lo, hi = Fraction(var.lo), Fraction(var.hi)
                if i % 2 and var.kind == 'I' and len(ins) <= 4:
                    # an arbitrary value of those the path leaves
                    try:
                        lo, hi = self.path_range(st, var)
                    except Exception:
                        pass
                    p = Fraction(math.floor(lo + (hi - lo) * Fraction(rnd.random())))
                    near.append(t == int(p))
                    side.append(t >= int(p))
                    continue
                w = hi - lo
                f = rnd.choice((0.02, 0.1, 0.3, 0.5, 0.7, 0.9, 0.98))
                p = lo + w * Fraction(f)
                z = z3.ToReal(t) if var.kind == 'I' else t
                e = w / 100 + (1 if var.kind == 'I' else 0)
                near.append(z3.And(z >= dom.zc(p - e), z <= dom.zc(p + e)))
                side.append((z <= dom.zc(p)) if rnd.random() < 0.5 else (z >= dom.zc(p)))
            half = list(near)
            rnd.shuffle(half)
            for part in (near, half[:len(half) // 2], side, side[:len(side) // 2], []):
                r, m = self.check(st.pc, z3.And(part) if part else None, self.o['feas_ms'])
                if r == z3.sat:
                    g = self.model_inputs(m, st)
                    if g not in out:
                        out.append(g)
                    break
        return out

    def glance(self, st):
        """remember inputs that follow the path of st"""
        key = tuple(c.get_id() for c in st.pc)
        if key in self.glanced:
            return
        self.glanced.add(key)
        for g in self.guesses(st, 2):
            if g not in self.seen:
                self.seen.append(g)
        if self.seen:
            self.dump()
        if len(self.seen) >= 80:
            raise Inconclusive('enough')

    def probe(self, why):
        """the exploration ended early: inputs of the paths still open are worth a run of the real code"""
        if self.viol:
            return
        gs = []
        for st in self.open:
            try:
                gs += [g for g in self.guesses(st, 4) if g not in gs]
            except Exception:
                pass
            if len(gs) >= 12:
                break
        if gs:
            v = Violation('unfinished', why + ' (undecided, inputs guessed)', gs[0], '')
            v.more = gs[1:]
            self.viol.append(v)

    # ------------------------------------------------------------------ helpers
    def newvar(self, kind, lo=None, hi=None, base='aux'):
        self.fresh += 1
        return VARS.new('%s!%d' % (base, self.fresh), kind, lo, hi)

    def axiom(self, var, a):
        self.axby.setdefault(var.id, []).append(a)

    def undef(self, ty):
        ty = self.mod.resolve(ty)
        self.fresh += 1
        self.notes.add('uninitialised value modelled as arbitrary')
        if ty.k == 'i':
            if ty.n == 1:
                return z3.Bool('undef!%d' % self.fresh)
            if self.real:
                v = VARS.new('undef!%d' % self.fresh, 'I', -(1 << (ty.n - 1)), (1 << (ty.n - 1)) - 1)
                return IV(p_var(v), v.lo, v.hi, ty.n)
            return z3.BitVec('undef!%d' % self.fresh, ty.n)
        if ty.k == 'f':
            if self.real:
                v = VARS.new('undef!%d' % self.fresh, 'R', Fraction(-10 ** 6), Fraction(10 ** 6))
                return RV(p_var(v), -1e6, 1e6, 0.0)
            return z3.FP('undef!%d' % self.fresh, FSORT[ty.name])
        if ty.k in ('vec', 'arr'):
            return [self.undef(ty.sub) for _ in range(ty.n)]
        if ty.k == 'struct':
            return [self.undef(x) for x in ty.sub]
        if ty.k == 'ptr':
            return Ptr(-1, 0)
        raise Inconclusive('undef of %r' % ty)

    def const(self, st, ty, c):
        k = c[0]
        if k == 'int':
            t = self.mod.resolve(ty)
            if t.k == 'i' and t.n == 1:
                return bool(c[1])
            return c[1]
        if k == 'fp':
            return c[1]
        if k == 'null':
            return NULL
        if k == 'undef':
            return self.undef(ty)
        if k == 'zero':
            return self.zero(ty)
        if k == 'global':
            return self.global_ptr(st, c[1])
        if k == 'gep':
            base = self.const(st, ir.PTR, c[2])
            off = 0
            t = c[1]
            first = True
            for it, ic in c[3]:
                v = ic[1]
                w = it.n
                if v >> (w - 1):
                    v -= 1 << w
                if first:
                    off += v * self.mod.size(t)
                    first = False
                else:
                    r = self.mod.resolve(t)
                    if r.k == 'struct':
                        off += self.mod.offsets(r)[v]
                        t = r.sub[v]
                    else:
                        off += v * self.mod.size(r.sub)
                        t = r.sub
            return Ptr(base.obj, base.off + off)
        if k == 'agg':
            return [self.const(st, t, x) for t, x in c[1]]
        if k == 'bytes':
            return list(c[1])
        raise Inconclusive('const ' + k)

    def zero(self, ty):
        t = self.mod.resolve(ty)
        if t.k == 'i':
            return False if t.n == 1 else 0
        if t.k == 'f':
            return Fraction(0) if t.name == 'x86_fp80' else 0.0
        if t.k == 'ptr':
            return NULL
        if t.k in ('vec', 'arr'):
            return [self.zero(t.sub) for _ in range(t.n)]
        return [self.zero(x) for x in t.sub]

    def global_ptr(self, st, name):
        if name in self.mod.funcs or name in self.mod.declared:
            return FPtr(name)
        if name not in self.gids:
            self.gids[name] = 'g:' + name
        gid = self.gids[name]
        if gid not in st.mem:
            ty, init, isc = self.mod.globals[name]
            if init is not None and init[0] == 'alias':
                return self.global_ptr(st, init[1])
            try:
                size = self.mod.size(ty)
            except ir.IRError:
                size = 64
            o = Obj(size, name, st.own, isc)
            st.mem[gid] = o
            if init is not None:
                self.init_global(st, o, ty, init, 0)
        return Ptr(gid, 0)

    def init_global(self, st, o, ty, c, off):
        t = self.mod.resolve(ty)
        if c[0] == 'bytes':
            for i, b in enumerate(c[1]):
                o.cells[off + i] = (1, b)
            return
        if c[0] == 'agg':
            if t.k == 'struct':
                offs = self.mod.offsets(t)
                for (et, ec), eo in zip(c[1], offs):
                    self.init_global(st, o, et, ec, off + eo)
            else:
                es = self.mod.size(t.sub)
                for i, (et, ec) in enumerate(c[1]):
                    self.init_global(st, o, et, ec, off + i * es)
            return
        if t.k in ('arr', 'struct', 'vec'):
            if c[0] == 'undef':
                return
            self.init_global_zero(o, t, off)
            return
        o.cells[off] = (self.mod.size(t), self.const(st, t, c))

    def init_global_zero(self, o, t, off):
        t = self.mod.resolve(t)
        if t.k == 'struct':
            for x, eo in zip(t.sub, self.mod.offsets(t)):
                self.init_global_zero(o, x, off + eo)
        elif t.k in ('arr', 'vec'):
            es = self.mod.size(t.sub)
            for i in range(t.n):
                self.init_global_zero(o, t.sub, off + i * es)
        else:
            o.cells[off] = (self.mod.size(t), self.zero(t))

    # ------------------------------------------------------------------ memory
    def wobj(self, st, oid):
        o = st.mem[oid]
        if o.own is not st.own:
            o = o.copy(st.own)
            st.mem[oid] = o
        return o

    def as_bits(self, v, size):
        """cell value -> int / BV of size*8 bits"""
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, int):
            return v
        if isinstance(v, float):
            if size == 8:
                return struct.unpack('<Q', struct.pack('<d', v))[0]
            if size == 4:
                return struct.unpack('<I', struct.pack('<f', v))[0]
            return struct.unpack('<H', struct.pack('<e', v))[0]
        if isinstance(v, z3.FPRef):
            return z3.fpToIEEEBV(v)
        if isinstance(v, z3.BitVecRef):
            return v
        if isinstance(v, z3.BoolRef):
            return z3.If(v, z3.BitVecVal(1, size * 8), z3.BitVecVal(0, size * 8))
        if isinstance(v, Ptr) and v == NULL:
            return 0
        if isinstance(v, IV):
            return v
        raise DomainError('bits of %r' % (v,))

    def byte_at(self, o, off):
        """(cell_off, size, val) covering byte off or None"""
        c = o.cells.get(off)
        if c is not None:
            return off, c[0], c[1]
        for d in range(1, 16):
            c = o.cells.get(off - d)
            if c is not None:
                if c[0] > d:
                    return off - d, c[0], c[1]
                return None
        return None

    def from_bits(self, v, ty):
        if ty.k == 'i':
            if ty.n == 1:
                if isinstance(v, int):
                    return bool(v & 1)
                if isinstance(v, z3.BoolRef):
                    return v
                return z3.Extract(0, 0, v) == 1
            if isinstance(v, int):
                return v & ((1 << ty.n) - 1)
            if isinstance(v, z3.BitVecRef) and v.size() > ty.n:
                return z3.Extract(ty.n - 1, 0, v)
            return v
        if ty.k == 'f':
            if isinstance(v, int):
                if ty.name == 'double':
                    return struct.unpack('<d', struct.pack('<Q', v))[0]
                if ty.name == 'float':
                    return struct.unpack('<f', struct.pack('<I', v))[0]
                if ty.name == 'half':
                    return struct.unpack('<e', struct.pack('<H', v))[0]
                if v == 0:
                    return Fraction(0)
            if isinstance(v, z3.BitVecRef) and ty.name in FSORT:
                return z3.fpBVToFP(v, FSORT[ty.name])
        if ty.k == 'ptr' and isinstance(v, int) and v == 0:
            return NULL
        raise DomainError('from_bits %r' % ty)

    def conv(self, v, ty, size):
        """cell value of matching size -> value of type ty"""
        k = ty.k
        if k == 'f':
            if isinstance(v, (float, RV, z3.FPRef, Fraction)):
                return v
            if isinstance(v, Pk):
                if len(v.cells) == 1:
                    return v.cells[0][2]
            return self.from_bits(self.as_bits(v, size), ty)
        if k == 'i':
            if ty.n == 1:
                if isinstance(v, (bool, z3.BoolRef, FB)):
                    return v
                return self.from_bits(self.as_bits(v, size), ty)
            if isinstance(v, bool):
                return int(v)
            if isinstance(v, int):
                return v
            if isinstance(v, (z3.BitVecRef, IV, Pk)):
                return v
            if isinstance(v, (RV, Fraction)):
                return Pk(size, [(0, size, v)])
            if isinstance(v, (Ptr, PIte, FPtr)):
                return v
            if isinstance(v, FB):
                return v
            return self.from_bits(self.as_bits(v, size), ty)
        if k == 'ptr':
            if isinstance(v, (Ptr, PIte, FPtr)):
                return v
            if isinstance(v, int) and v == 0:
                return NULL
            if isinstance(v, int) and v in self.addr:
                return self.addr[v]
        raise DomainError('load of %r as %r' % (v, ty))

    def load_cells(self, o, off, ty):
        t = self.mod.resolve(ty)
        if t.k in ('vec', 'arr'):
            es = self.mod.size(t.sub)
            return [self.load_cells(o, off + i * es, t.sub) for i in range(t.n)]
        if t.k == 'struct':
            return [self.load_cells(o, off + eo, x) for x, eo in zip(t.sub, self.mod.offsets(t))]
        size = self.mod.size(t) if t.k != 'i' else (t.n + 7) // 8
        c = o.cells.get(off)
        if c is not None and c[0] == size:
            v = c[1]
            if v is UNDEF:
                v = self.undef(t)
                return v
            return self.conv(v, t, size)
        parts = []
        i = 0
        simple = True
        while i < size:
            b = self.byte_at(o, off + i)
            if b is None:
                parts.append((i, 1, UNDEF))
                i += 1
                continue
            co, cs, cv = b
            if cv is UNDEF:
                parts.append((i, 1, UNDEF))
                i += 1
                continue
            if co == off + i and cs <= size - i:
                parts.append((i, cs, cv))
                i += cs
            else:
                simple = False
                bits = self.as_bits(cv, cs)
                d = off + i - co
                n = min(cs - d, size - i)
                if isinstance(bits, int):
                    parts.append((i, n, (bits >> (8 * d)) & ((1 << (8 * n)) - 1)))
                elif isinstance(bits, IV):
                    raise DomainError('byte access into a mathematical integer')
                else:
                    parts.append((i, n, z3.Extract(8 * (d + n) - 1, 8 * d, bits)))
                i += n
        if any(isinstance(p[2], (RV, Fraction, Ptr, PIte, FPtr, IV, Pk, FB)) for p in parts):
            out = []
            for i, n, v in parts:
                if v is UNDEF:
                    continue
                if isinstance(v, Pk):
                    out.extend((i + a, b, c) for a, b, c in v.cells)
                else:
                    out.append((i, n, v))
            return Pk(size, out)
        # combine
        if all(p[2] is UNDEF for p in parts):
            return self.undef(t)
        acc = 0
        sym = False
        for i, n, v in parts:
            if v is UNDEF:
                self.fresh += 1
                self.notes.add('uninitialised value modelled as arbitrary')
                v = z3.BitVec('undef!%d' % self.fresh, 8 * n) if not self.real else 0
            else:
                v = self.as_bits(v, n)
            if isinstance(v, int):
                v &= (1 << (8 * n)) - 1
            else:
                sym = True
            if not sym:
                acc |= v << (8 * i)
            else:
                if isinstance(v, int):
                    v = z3.BitVecVal(v, 8 * n)
                if i == 0:
                    acc = v
                else:
                    if isinstance(acc, int):
                        acc = z3.BitVecVal(acc, 8 * i)
                    acc = z3.Concat(v, acc)
        return self.from_bits(acc, t)

    def clear(self, o, off, size):
        """remove/split cells overlapping [off, off+size)"""
        cells = o.cells
        for d in range(1, 16):
            c = cells.get(off - d)
            if c is not None and c[0] > d:
                self.split(o, off - d)
        i = off
        end = off + size
        if size > len(cells):
            keys = [k for k in cells if off <= k < end]
        else:
            keys = [k for k in range(off, end) if k in cells]
        for k in keys:
            c = cells[k]
            if k + c[0] > end:
                self.split(o, k)
        for k in keys:
            cells.pop(k, None)
        if size <= len(cells):
            for k in range(off, end):
                cells.pop(k, None)
        else:
            for k in [k for k in cells if off <= k < end]:
                del cells[k]

    def split(self, o, k):
        n, v = o.cells.pop(k)
        if v is UNDEF:
            return
        if isinstance(v, Pk):
            for a, b, c in v.cells:
                o.cells[k + a] = (b, c)
            return
        bits = self.as_bits(v, n)
        for i in range(n):
            if isinstance(bits, int):
                o.cells[k + i] = (1, (bits >> (8 * i)) & 255)
            elif isinstance(bits, IV):
                raise DomainError('splitting a mathematical integer')
            else:
                o.cells[k + i] = (1, z3.Extract(8 * i + 7, 8 * i, bits))

    def store_cells(self, o, off, ty, v):
        t = self.mod.resolve(ty)
        if t.k in ('vec', 'arr'):
            es = self.mod.size(t.sub)
            for i in range(t.n):
                self.store_cells(o, off + i * es, t.sub, v[i])
            return
        if t.k == 'struct':
            for x, eo, y in zip(t.sub, self.mod.offsets(t), v):
                self.store_cells(o, off + eo, x, y)
            return
        size = self.mod.size(t) if t.k != 'i' else (t.n + 7) // 8
        c = o.cells.get(off)
        if c is None or c[0] != size:
            self.clear(o, off, size)
        if isinstance(v, Pk):
            o.cells.pop(off, None)
            for a, b, x in v.cells:
                o.cells[off + a] = (b, x)
            return
        o.cells[off] = (size, v)

    def targets(self, st, p):
        """ite-pointer -> list of (cond list, Ptr)"""
        if isinstance(p, PIte):
            out = []
            for c, q in self.targets(st, p.a):
                out.append(([p.c] + c, q))
            for c, q in self.targets(st, p.b):
                out.append(([z3.Not(p.c)] + c, q))
            return out
        return [([], p)]

    def offsets_for(self, st, o, p, size, what):
        """candidate concrete offsets of a symbolic one; in-bounds obligation"""
        off = p.off
        if o.size - size < 0:
            self.oblige(st, False, 'memory', '%s out of bounds of %s' % (what, o.name))
        al = size
        cands = list(range(0, o.size - size + 1, al))
        key = (off.get_id(), o.size, size, id(st.pc[-1]) if st.pc else 0)
        self.oblige(st, z3.Or([off == c for c in cands]), 'memory',
                    '%s out of bounds of %s' % (what, self.oname(o)))
        if len(cands) > 6:
            # narrow by solver: only offsets feasible on this path
            keep = []
            for c in cands:
                r, _ = self.check(st.pc, off == c, 300)
                if r != z3.unsat:
                    keep.append(c)
            cands = keep
        return cands

    def oname(self, o):
        return o.name if isinstance(o.name, str) else str(o.name)

    def load(self, st, p, ty):
        if isinstance(p, PIte):
            tl = self.targets(st, p)
            vals = []
            for cs, q in tl:
                vals.append((z3.And(cs) if len(cs) != 1 else cs[0], q))
            res = None
            for c, q in reversed(vals):
                if not self.feasible(st, c):
                    continue
                n = len(st.pc)
                st.pc.append(c)
                v = self.load(st, q, ty)
                del st.pc[n:]
                res = v if res is None else self.ite_t(c, v, res, ty)
            if res is None:
                raise Stop()
            return res
        if not isinstance(p, Ptr):
            self.oblige(st, False, 'memory', 'load through a bad pointer')
        o = st.mem.get(p.obj)
        if o is None:
            self.oblige(st, False, 'memory', 'load through null, dangling or uninitialised pointer')
        size = self.mod.size(ty)
        off = p.off
        if isinstance(off, int):
            if off < 0 or off + size > o.size:
                self.oblige(st, False, 'memory', 'load out of bounds of %s' % self.oname(o))
            return self.load_cells(o, off, ty)
        if isinstance(off, IV):
            raise DomainError('symbolic offset in real mode')
        cands = self.offsets_for(st, o, p, size, 'load')
        if not cands:
            raise Stop()
        res = None
        for c in cands:
            v = self.load_cells(o, c, ty)
            res = v if res is None else self.ite_t(off == c, v, res, ty)
        return res

    def store(self, st, p, ty, v):
        if isinstance(p, PIte):
            tl = self.targets(st, p)
            for cs, q in tl:
                c = z3.And(cs) if len(cs) != 1 else cs[0]
                if not self.feasible(st, c):
                    continue
                n = len(st.pc)
                st.pc.append(c)
                old = self.load(st, q, ty)
                self.store(st, q, ty, self.ite_t(c, v, old, ty))
                del st.pc[n:]
            return
        if not isinstance(p, Ptr):
            self.oblige(st, False, 'memory', 'store through a bad pointer')
        o = st.mem.get(p.obj)
        if o is None:
            self.oblige(st, False, 'memory', 'store through null, dangling or uninitialised pointer')
        if o.const:
            self.oblige(st, False, 'memory', 'store to constant %s' % self.oname(o))
        size = self.mod.size(ty)
        off = p.off
        if isinstance(off, int):
            if off < 0 or off + size > o.size:
                self.oblige(st, False, 'memory', 'store out of bounds of %s' % self.oname(o))
            self.store_cells(self.wobj(st, p.obj), off, ty, v)
            return
        if isinstance(off, IV):
            raise DomainError('symbolic offset in real mode')
        cands = self.offsets_for(st, o, p, size, 'store')
        w = self.wobj(st, p.obj)
        for c in cands:
            old = self.load_cells(w, c, ty)
            self.store_cells(w, c, ty, self.ite_t(off == c, v, old, ty))

    def alloc(self, st, size, oid, name, heap=False):
        st.mem[oid] = Obj(size, name, st.own, heap=heap)
        return Ptr(oid, 0)

    def memcpy(self, st, d, s, n):
        if n == 0:
            return
        so = st.mem.get(s.obj) if isinstance(s, Ptr) else None
        do = st.mem.get(d.obj) if isinstance(d, Ptr) else None
        if so is None or do is None:
            self.oblige(st, False, 'memory', 'copy through a bad pointer')
        if not isinstance(s.off, int) or not isinstance(d.off, int):
            # symbolic offsets: word by word through loads
            w = 1
            for k in (8, 4, 2):
                if n % k == 0:
                    w = k
                    break
            # use the element size actually stored
            t = ir.int_ty(8 * w)
            vals = []
            for i in range(0, n, w):
                vals.append(self.load(st, Ptr(s.obj, self.addoff(s.off, i)), t))
            for j, i in enumerate(range(0, n, w)):
                self.store(st, Ptr(d.obj, self.addoff(d.off, i)), t, vals[j])
            return
        if s.off < 0 or s.off + n > so.size:
            self.oblige(st, False, 'memory', 'copy reads out of bounds of %s' % self.oname(so))
        if d.off < 0 or d.off + n > do.size:
            self.oblige(st, False, 'memory', 'copy writes out of bounds of %s' % self.oname(do))
        got = []
        i = 0
        while i < n:
            b = self.byte_at(so, s.off + i)
            if b is None:
                i += 1
                continue
            co, cs, cv = b
            if co == s.off + i and cs <= n - i:
                got.append((i, cs, cv))
                i += cs
            else:
                bits = self.as_bits(cv, cs)
                k = s.off + i - co
                if isinstance(bits, int):
                    got.append((i, 1, (bits >> (8 * k)) & 255))
                else:
                    got.append((i, 1, z3.Extract(8 * k + 7, 8 * k, bits)))
                i += 1
        w = self.wobj(st, d.obj)
        self.clear(w, d.off, n)
        for i, cs, cv in got:
            w.cells[d.off + i] = (cs, cv)

    def addoff(self, off, i):
        if isinstance(off, int):
            return off + i
        return off + i

    def memset(self, st, d, b, n):
        if n == 0:
            return
        do = st.mem.get(d.obj)
        if do is None:
            self.oblige(st, False, 'memory', 'memset through a bad pointer')
        if d.off < 0 or d.off + n > do.size:
            self.oblige(st, False, 'memory', 'memset out of bounds of %s' % self.oname(do))
        w = self.wobj(st, d.obj)
        self.clear(w, d.off, n)
        for i in range(n):
            w.cells[d.off + i] = (1, b)

    # ------------------------------------------------------------------ values
    def ite(self, c, a, b):
        if a is b:
            return a
        if c is True:
            return a
        if c is False:
            return b
        if isinstance(a, list):
            return [self.ite(c, x, y) for x, y in zip(a, b)]
        if isinstance(a, (bool, int, float)) and type(a) == type(b) and a == b and \
                not (isinstance(a, float) and math.copysign(1, a) != math.copysign(1, b)):
            return a
        if a is UNDEF or b is UNDEF:
            return b if a is UNDEF else a
        if isinstance(a, (Ptr, PIte, FPtr)) or isinstance(b, (Ptr, PIte, FPtr)):
            if a == b:
                return a
            if isinstance(a, int) and a == 0:
                a = NULL
            if isinstance(b, int) and b == 0:
                b = NULL
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj:
                return Ptr(a.obj, self.ite(c, self.bv(a.off, 64), self.bv(b.off, 64)))
            return PIte(c, a, b)
        if isinstance(a, (bool, z3.BoolRef)) and isinstance(b, (bool, z3.BoolRef)):
            return z3.If(c, self.zb(a), self.zb(b))
        if isinstance(a, (float, z3.FPRef)) and isinstance(b, (float, z3.FPRef)):
            if isinstance(a, z3.FPRef):
                s = a.sort()
            elif isinstance(b, z3.FPRef):
                s = b.sort()
            else:
                raise NeedSort()
            return z3.If(c, self.zf(a, s), self.zf(b, s))
        if isinstance(a, (int, z3.BitVecRef)) and isinstance(b, (int, z3.BitVecRef)):
            if isinstance(a, z3.BitVecRef):
                w = a.size()
            elif isinstance(b, z3.BitVecRef):
                w = b.size()
            else:
                raise NeedSort()
            return z3.If(c, self.bv(a, w), self.bv(b, w))
        raise DomainError('ite of %r and %r' % (type(a), type(b)))

    def ite_t(self, c, a, b, ty):
        """ite with known type"""
        t = self.mod.resolve(ty)
        if t.k == 'i' and t.n > 1 and isinstance(a, int) and isinstance(b, int):
            if a == b:
                return a
            return z3.If(c, self.bv(a, t.n), self.bv(b, t.n))
        if t.k == 'f' and isinstance(a, float) and isinstance(b, float):
            return z3.If(c, self.zf(a, FSORT[t.name]), self.zf(b, FSORT[t.name]))
        if t.k in ('vec', 'arr'):
            return [self.ite_t(c, x, y, t.sub) for x, y in zip(a, b)]
        if t.k == 'struct':
            return [self.ite_t(c, x, y, s) for x, y, s in zip(a, b, t.sub)]
        return self.ite(c, a, b)

    def bv(self, v, w):
        if isinstance(v, bool):
            v = int(v)
        if isinstance(v, int):
            return z3.BitVecVal(v, w)
        return v

    def zb(self, v):
        if isinstance(v, bool):
            return z3.BoolVal(v)
        return v

    def zf(self, v, sort):
        if isinstance(v, float):
            return z3.FPVal(v, sort)
        return v

    def sgn(self, v, w):
        return v - (1 << w) if v >> (w - 1) else v

    def to_iv(self, v, w):
        if isinstance(v, IV):
            return v
        if isinstance(v, int):
            s = self.sgn(v, w)
            return IV(p_const(s), s, s, w)
        raise DomainError('IV from %r' % (v,))

    def is_sym(self, v):
        return isinstance(v, (z3.ExprRef, RV, IV, FB))

    # integer ops --------------------------------------------------------
    def int_bin(self, st, op, a, b, w, flags):
        if isinstance(a, int) and isinstance(b, int):
            return self.int_conc(st, op, a, b, w)
        if isinstance(a, IV) or isinstance(b, IV):
            return self.iv_bin(st, op, a, b, w, flags)
        if isinstance(a, (Ptr, PIte, FPtr)) or isinstance(b, (Ptr, PIte, FPtr)):
            return self.ptr_bin(st, op, a, b, w)
        if isinstance(a, Pk) or isinstance(b, Pk):
            return self.pk_bin(st, op, a, b, w)
        # identities
        if isinstance(b, int):
            if b == 0:
                if op in ('add', 'sub', 'or', 'xor', 'shl', 'lshr', 'ashr'):
                    return a
                if op in ('mul', 'and'):
                    return 0
            if b == 1 and op in ('mul', 'sdiv', 'udiv'):
                return a
            if op == 'and' and b == (1 << w) - 1:
                return a
        if isinstance(a, int):
            if a == 0:
                if op in ('add', 'or', 'xor'):
                    return b
                if op in ('mul', 'and', 'shl', 'lshr', 'ashr'):
                    return 0
            if a == 1 and op == 'mul':
                return b
            if op == 'and' and a == (1 << w) - 1:
                return b
        x, y = self.bv(a, w), self.bv(b, w)
        if self.o['overflow'] and 'nsw' in flags and op in ('add', 'sub', 'mul'):
            if op == 'add':
                ok = z3.And(z3.BVAddNoOverflow(x, y, True), z3.BVAddNoUnderflow(x, y))
            elif op == 'sub':
                ok = z3.And(z3.BVSubNoOverflow(x, y), z3.BVSubNoUnderflow(x, y, True))
            else:
                ok = z3.And(z3.BVMulNoOverflow(x, y, True), z3.BVMulNoUnderflow(x, y))
            self.oblige(st, ok, 'ub', 'signed integer overflow')
        if op == 'add':
            return x + y
        if op == 'sub':
            return x - y
        if op == 'mul':
            return x * y
        if op == 'and':
            return x & y
        if op == 'or':
            return x | y
        if op == 'xor':
            return x ^ y
        if op in ('shl', 'lshr', 'ashr'):
            if isinstance(b, int):
                if b >= w:
                    self.oblige(st, False, 'ub', 'shift amount out of range')
            else:
                self.oblige(st, z3.ULT(y, w), 'ub', 'shift amount out of range')
            return x << y if op == 'shl' else z3.LShR(x, y) if op == 'lshr' else x >> y
        if isinstance(b, int):
            if b == 0:
                self.oblige(st, False, 'ub', 'division by zero')
        else:
            self.oblige(st, y != 0, 'ub', 'division by zero')
        if op in ('sdiv', 'srem') and not (isinstance(b, int) and b != (1 << w) - 1):
            self.oblige(st, z3.Not(z3.And(x == (1 << (w - 1)), y == (1 << w) - 1)), 'ub',
                        'signed division overflow')
        if op == 'udiv':
            return z3.UDiv(x, y)
        if op == 'sdiv':
            return x / y
        if op == 'urem':
            return z3.URem(x, y)
        return z3.SRem(x, y)

    def int_conc(self, st, op, a, b, w):
        M = (1 << w) - 1
        if op == 'add':
            return (a + b) & M
        if op == 'sub':
            return (a - b) & M
        if op == 'mul':
            return (a * b) & M
        if op == 'and':
            return a & b
        if op == 'or':
            return a | b
        if op == 'xor':
            return a ^ b
        if op in ('shl', 'lshr', 'ashr'):
            if b >= w:
                self.oblige(st, False, 'ub', 'shift amount out of range')
            if op == 'shl':
                return (a << b) & M
            if op == 'lshr':
                return a >> b
            return (self.sgn(a, w) >> b) & M
        if b == 0:
            self.oblige(st, False, 'ub', 'division by zero')
        if op == 'udiv':
            return a // b
        if op == 'urem':
            return a % b
        x, y = self.sgn(a, w), self.sgn(b, w)
        if y == -1 and x == -(1 << (w - 1)):
            self.oblige(st, False, 'ub', 'signed division overflow')
        q = abs(x) // abs(y)
        if (x < 0) != (y < 0):
            q = -q
        if op == 'sdiv':
            return q & M
        return (x - q * y) & M

    def ptr_bin(self, st, op, a, b, w):
        if op == 'sub' and isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj:
            if isinstance(a.off, int) and isinstance(b.off, int):
                return (a.off - b.off) & ((1 << w) - 1)
            return self.bv(a.off, 64) - self.bv(b.off, 64)
        if op in ('add', 'sub') and isinstance(a, Ptr) and isinstance(b, int):
            b = self.sgn(b, w)
            return Ptr(a.obj, a.off + b if op == 'add' else a.off - b)
        if op == 'sub' and isinstance(a, PIte):
            return self.ite_t(a.c, self.ptr_bin(st, op, a.a, b, w), self.ptr_bin(st, op, a.b, b, w), ir.int_ty(w))
        if op == 'sub' and isinstance(b, PIte):
            return self.ite_t(b.c, self.ptr_bin(st, op, a, b.a, w), self.ptr_bin(st, op, a, b.b, w), ir.int_ty(w))
        raise DomainError('pointer arithmetic ' + op)

    def pk_bin(self, st, op, a, b, w):
        if op == 'lshr' and isinstance(a, Pk) and isinstance(b, int) and b % 8 == 0:
            k = b // 8
            return self.pk_norm(Pk(a.n, [(o - k, s, v) for o, s, v in a.cells if o >= k]))
        raise DomainError('integer operation on packed floats')

    def pk_norm(self, p):
        return p

    # mathematical integers ------------------------------------------------
    def iv_range(self, poly, lo, hi):
        r = p_range(poly) if len(poly) < 60 else None
        if r is not None:
            a, b = r
            # floats are outward, integers: ceil/floor with slack
            if abs(a) < 2 ** 52:
                lo = max(lo, math.ceil(a - 1e-9 * max(1, abs(a))))
            if abs(b) < 2 ** 52:
                hi = min(hi, math.floor(b + 1e-9 * max(1, abs(b))))
        return lo, hi

    def iv_mk(self, st, poly, lo, hi, w, signed=True):
        lo, hi = self.iv_range(poly, lo, hi)
        if p_is_const(poly):
            return int(p_cval(poly)) & ((1 << w) - 1)
        if lo < -(1 << (w - 1)) or hi > (1 << w) - 1 or (lo < 0 and hi >= (1 << (w - 1))):
            # the machine operation may wrap: prove it does not on this path
            z = p_z3i(poly)
            L, H = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if lo < 0 else (0, (1 << w) - 1)
            if lo < 0 and not signed:
                # unsigned arithmetic dipping below zero: wraps by design
                r, _ = self.check(st.pc, z < 0)
                if r == z3.unsat:
                    lo = 0
                    if hi <= (1 << w) - 1:
                        return IV(poly, lo, hi, w)
            r, m = self.decide(st, z3.Or(z < L, z > H))
            if r == z3.unsat:
                lo, hi = max(lo, L), min(hi, H)
            elif r == z3.sat and signed:
                self.report(st, 'ub', 'signed integer overflow', m)
                st.pc.append(z3.And(z >= L, z <= H))
                lo, hi = max(lo, L), min(hi, H)
            else:
                # modular reduction
                q = self.newvar('I', None, None, 'wrap')
                v = self.newvar('I', L, H, 'mod')
                self.axiom(v, v.z + q.z * (1 << w) == z)
                return IV(p_var(v), L, H, w)
        return IV(poly, lo, hi, w)

    def iv_bin(self, st, op, a, b, w, flags):
        if op in ('and', 'or', 'xor') and isinstance(a, int):
            a, b = b, a
        A, B = self.to_iv(a, w), self.to_iv(b, w)
        sg = 'nsw' in flags
        if op == 'add':
            return self.iv_mk(st, p_add(A.poly, B.poly), A.lo + B.lo, A.hi + B.hi, w, sg)
        if op == 'sub':
            return self.iv_mk(st, p_sub(A.poly, B.poly), A.lo - B.hi, A.hi - B.lo, w, sg)
        if op == 'mul':
            c = [x * y for x in (A.lo, A.hi) for y in (B.lo, B.hi)]
            return self.iv_mk(st, p_mul(A.poly, B.poly), min(c), max(c), w, sg)
        if op == 'shl' and isinstance(b, int):
            k = 1 << b
            return self.iv_mk(st, p_scale(A.poly, Fraction(k)), A.lo * k, A.hi * k, w, sg)
        if b == 0 and isinstance(b, int) and op in ('ashr', 'lshr', 'or', 'xor'):
            return A
        if isinstance(b, int) and b:
            if op in ('ashr', 'lshr'):
                if op == 'lshr' and A.lo < 0:
                    raise DomainError('logical shift of possibly negative value')
                return self.iv_div(st, A, 1 << b, 'floor', w)[0]
            if op == 'and':
                if (b & (b + 1)) == 0:
                    return self.iv_div(st, A, b + 1, 'floor', w)[1]
                s = self.sgn(b, w)
                if s < 0 and ((-s) & (-s - 1)) == 0:
                    q, r = self.iv_div(st, A, -s, 'floor', w)
                    return self.iv_bin(st, 'sub', A, r, w, {'nsw'})
            if op == 'or':
                s = self.sgn(b, w)
                if s < 0 and ((-s) & (-s - 1)) == 0:
                    r = self.iv_div(st, A, -s, 'floor', w)[1]
                    return self.iv_bin(st, 'add', r, b, w, {'nsw'})
            if op in ('sdiv', 'srem'):
                d = self.sgn(b, w)
                if d > 0:
                    return self.iv_div(st, A, d, 'trunc', w)[0 if op == 'sdiv' else 1]
            if op in ('udiv', 'urem'):
                if A.lo < 0:
                    raise DomainError('unsigned division of possibly negative value')
                return self.iv_div(st, A, b, 'floor', w)[0 if op == 'udiv' else 1]
        if op in ('or', 'xor', 'add'):
            # no common bits
            for X, Y in ((A, B), (B, A)):
                if X.lo >= 0 and X.hi < self.iv_unit(Y):
                    return self.iv_mk(st, p_add(A.poly, B.poly), A.lo + B.lo, A.hi + B.hi, w, True)
        if op in ('sdiv', 'srem', 'udiv', 'urem'):
            return self.iv_divv(st, A, B, op, w)
        raise DomainError('integer %s on symbolic value' % op)

    def iv_unit(self, A):
        """a power of two dividing the value"""
        if not dom.p_integral(A.poly):
            return 1
        g = 0
        for c in A.poly.values():
            g = math.gcd(g, int(c))
        return g & -g

    def iv_div(self, st, A, d, kind, w):
        if d == 1:
            return A, 0
        ends = [x // d if kind == 'floor' or x >= 0 else -(-x // d) for x in (A.lo, A.hi)]
        if ends[0] == ends[1]:
            # one quotient over the whole range
            q = ends[0]
            return q & ((1 << w) - 1), self.iv_mk(st, p_sub(A.poly, p_const(Fraction(q * d))), A.lo - q * d, A.hi - q * d, w, True)
        key = (tuple(sorted(A.poly.items())), d, kind if A.lo < 0 else 'floor')
        hit = self.divcache.get(key)
        if hit is None:
            if kind == 'trunc' and A.lo < 0:
                ql = -((-A.lo) // d)
                qh = A.hi // d if A.hi >= 0 else -((-A.hi) // d)
                q = self.newvar('I', ql, qh, 'q')
                r = self.newvar('I', -(d - 1) if A.lo < 0 else 0, d - 1 if A.hi > 0 else 0, 'r')
                z = p_z3i(A.poly)
                ax = [z == q.z * d + r.z,
                      z3.Implies(z >= 0, r.z >= 0), z3.Implies(z <= 0, r.z <= 0)]
            else:
                q = self.newvar('I', A.lo // d, A.hi // d, 'q')
                r = self.newvar('I', 0, d - 1, 'r')
                ax = [p_z3i(A.poly) == q.z * d + r.z]
            for x in ax:
                self.axiom(q, x)
                self.axiom(r, x)
            # what is known of quotient and remainder constrains the dividend
            self.divof[q.id] = self.divof[r.id] = frozenset(self.pvars(ax[0]))
            hit = (q, r)
            self.divcache[key] = hit
        q, r = hit
        return IV(p_var(q), q.lo, q.hi, w), IV(p_var(r), r.lo, r.hi, w)

    def iv_divv(self, st, A, B, op, w):
        """division by a symbolic positive integer, non-negative dividend"""
        if A.lo < 0 or B.lo < 0:
            raise DomainError('division of possibly negative symbolic values')
        zb = p_z3i(B.poly)
        if B.lo == 0:
            self.oblige(st, zb != 0, 'ub', 'division by zero')
        q = self.newvar('I', 0, A.hi // max(1, B.lo), 'q')
        r = self.newvar('I', 0, max(0, B.hi - 1), 'r')
        ax = [p_z3i(A.poly) == q.z * zb + r.z, r.z < zb]
        for x in ax:
            self.axiom(q, x)
            self.axiom(r, x)
        v = q if op in ('sdiv', 'udiv') else r
        return IV(p_var(v), v.lo, v.hi, w)

    def iv_cmp(self, st, pred, a, b, w):
        A, B = self.to_iv(a, w), self.to_iv(b, w)
        if pred[0] == 'u':
            for X in (A, B):
                if X.lo < 0:
                    if p_is_const(X.poly):
                        continue
                    r, _ = self.check(st.pc, p_z3i(X.poly) < 0)
                    if r != z3.unsat:
                        raise DomainError('unsigned comparison of possibly negative value')
            if p_is_const(A.poly) and A.lo < 0:
                A = IV(p_const(A.lo + (1 << w)), A.lo + (1 << w), A.lo + (1 << w), w)
            if p_is_const(B.poly) and B.lo < 0:
                B = IV(p_const(B.lo + (1 << w)), B.lo + (1 << w), B.lo + (1 << w), w)
        elif pred[0] == 's':
            for X in (A, B):
                if X.hi >= (1 << (w - 1)):
                    raise DomainError('signed comparison of large unsigned value')
        d = p_sub(A.poly, B.poly)
        if p_is_const(d):
            c = p_cval(d)
            return {'eq': c == 0, 'ne': c != 0, 'lt': c < 0, 'le': c <= 0, 'gt': c > 0,
                    'ge': c >= 0}[pred[-2:]]
        p = pred[-2:]
        lo, hi = A.lo - B.hi, A.hi - B.lo
        lo, hi = self.iv_range(d, lo, hi)
        if p == 'lt' and (hi < 0 or lo >= 0):
            return hi < 0
        if p == 'le' and (hi <= 0 or lo > 0):
            return hi <= 0
        if p == 'gt' and (lo > 0 or hi <= 0):
            return lo > 0
        if p == 'ge' and (lo >= 0 or hi < 0):
            return lo >= 0
        if p in ('eq', 'ne') and (lo > 0 or hi < 0):
            return p == 'ne'
        z = p_z3i(d)
        return {'eq': z == 0, 'ne': z != 0, 'lt': z < 0, 'le': z <= 0, 'gt': z > 0,
                'ge': z >= 0}[p]

    def icmp(self, st, pred, a, b, ty):
        t = self.mod.resolve(ty)
        w = t.n if t.k == 'i' else 64
        if t.k == 'ptr' or isinstance(a, (Ptr, PIte, FPtr)) or isinstance(b, (Ptr, PIte, FPtr)):
            return self.pcmp(st, pred, a, b)
        if t.k == 'i' and t.n == 1:
            if isinstance(a, FB) or isinstance(b, FB):
                if isinstance(a, FB) and isinstance(b, bool):
                    if (pred == 'ne') == (not b):
                        return a
                    return FB(a.mf, a.mt)
                raise DomainError('icmp on fuzzy booleans')
            if isinstance(a, bool) and isinstance(b, bool):
                return (a == b) if pred == 'eq' else (a != b) if pred == 'ne' else \
                    self.icmp(st, pred, int(a), int(b), ir.I[8])
            x, y = self.zb(a), self.zb(b)
            if pred == 'eq':
                return x == y
            if pred == 'ne':
                return x != y
            raise DomainError('ordered comparison of booleans')
        if isinstance(a, FB):
            # zext'ed fuzzy bool compared with a constant
            if isinstance(b, int) and b in (0, 1):
                tr = (pred == 'ne') == (b == 0)
                if pred in ('eq', 'ne'):
                    return a if tr else FB(a.mf, a.mt)
            raise DomainError('comparison of fuzzy boolean')
        if isinstance(a, int) and isinstance(b, int):
            if pred[0] == 's':
                a, b = self.sgn(a, w), self.sgn(b, w)
            p = pred[-2:]
            return {'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b,
                    'ge': a >= b}[p]
        if isinstance(a, IV) or isinstance(b, IV):
            return self.iv_cmp(st, pred, a, b, w)
        x, y = self.bv(a, w), self.bv(b, w)
        return {'eq': lambda: x == y, 'ne': lambda: x != y, 'slt': lambda: x < y,
                'sle': lambda: x <= y, 'sgt': lambda: x > y, 'sge': lambda: x >= y,
                'ult': lambda: z3.ULT(x, y), 'ule': lambda: z3.ULE(x, y),
                'ugt': lambda: z3.UGT(x, y), 'uge': lambda: z3.UGE(x, y)}[pred]()

    def pcmp(self, st, pred, a, b):
        if isinstance(a, PIte):
            x, y = self.pcmp(st, pred, a.a, b), self.pcmp(st, pred, a.b, b)
            return self.ite(a.c, x, y)
        if isinstance(b, PIte):
            x, y = self.pcmp(st, pred, a, b.a), self.pcmp(st, pred, a, b.b)
            return self.ite(b.c, x, y)
        if isinstance(a, int) and a == 0:
            a = NULL
        if isinstance(b, int) and b == 0:
            b = NULL
        if isinstance(a, FPtr) or isinstance(b, FPtr):
            eq = a == b
            if pred in ('eq', 'ne'):
                return eq if pred == 'eq' else not eq
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.obj != b.obj:
                if pred == 'eq':
                    return False
                if pred == 'ne':
                    return True
                raise DomainError('ordering of unrelated pointers')
            x, y = a.off, b.off
            if isinstance(x, int) and isinstance(y, int):
                p = pred[-2:]
                return {'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y,
                        'ge': x >= y}[p]
            p = pred if pred in ('eq', 'ne') else 's' + pred[1:]
            return self.icmp(st, p, self.off64(x), self.off64(y), ir.I[64])
        raise DomainError('pointer comparison')

    def off64(self, x):
        return x & ((1 << 64) - 1) if isinstance(x, int) else x

    # floats ---------------------------------------------------------------
    def fbin(self, st, op, a, b, ty):
        fmt = ty.name
        if a is WILD or b is WILD:
            return WILD
        if fmt == 'x86_fp80':
            return self.fbin_ld(st, op, a, b)
        if isinstance(a, float) and isinstance(b, float):
            return self.fconc(op, a, b, fmt)
        if isinstance(a, RV) or isinstance(b, RV):
            return self.fbin_rv(st, op, a, b, fmt)
        s = FSORT[fmt]
        x, y = self.zf(a, s), self.zf(b, s)
        if op == 'fadd':
            return z3.fpAdd(RNE, x, y)
        if op == 'fsub':
            return z3.fpSub(RNE, x, y)
        if op == 'fmul':
            return z3.fpMul(RNE, x, y)
        if op == 'fdiv':
            return z3.fpDiv(RNE, x, y)
        raise DomainError(op)

    def fconc(self, op, a, b, fmt):
        if op == 'fadd':
            r = a + b
        elif op == 'fsub':
            r = a - b
        elif op == 'fmul':
            r = a * b
        elif op == 'fdiv':
            if b == 0:
                if a == 0 or a != a:
                    r = math.nan
                else:
                    r = math.copysign(INF, a) * math.copysign(1, b)
            else:
                try:
                    r = a / b
                except OverflowError:
                    r = math.copysign(INF, a) * math.copysign(1, b)
        else:
            r = math.fmod(a, b)
        return rnd(fmt, r)

    def fbin_ld(self, st, op, a, b):
        if isinstance(a, RV) or isinstance(b, RV):
            return self.fbin_rv(st, op, a, b, 'x86_fp80')
        if isinstance(a, float) or isinstance(b, float):
            raise DomainError('non-finite reference arithmetic')
        if isinstance(a, z3.ExprRef) or isinstance(b, z3.ExprRef):
            raise DomainError('long double over fp terms')
        if op == 'fadd':
            return a + b
        if op == 'fsub':
            return a - b
        if op == 'fmul':
            return a * b
        if op == 'fdiv':
            if b == 0:
                raise DomainError('reference division by zero')
            return a / b
        raise DomainError(op)

    def fbin_rv(self, st, op, a, b, fmt):
        if op in ('fadd', 'fsub'):
            r = rv_add(a, b, fmt, op == 'fsub')
            if fmt != 'x86_fp80' and r.err:
                r = self.residue(r, op, a, b, fmt)
            return self.norm(r, fmt)
        if op == 'fmul':
            for x, y in ((a, b), (b, a)):
                if isinstance(x, float) and x == 0.0:
                    # exact zero (sign of zero is not tracked by this abstraction)
                    return 0.0
            return self.norm(self.reduce(rv_mul(a, b, fmt)), fmt)
        if op == 'fdiv':
            return self.fdiv_rv(st, a, b, fmt)
        raise DomainError(op)

    def residue(self, r, op, a, b, fmt):
        """taking a summand off a sum again leaves the other one but for rounding"""
        def slack(x, errs):
            return up(max(0.0, x.err - sum(errs)) + 1e-14 * x.err)
        if op == 'fadd':
            own = slack(r, [to_rv(a).err, to_rv(b).err])
            self.prov[id(r)] = (r, 'sum', a, b, own)
        else:
            hit = self.prov.get(id(a))
            if hit is not None:
                def same(x, y):
                    return x is y or isinstance(x, float) and isinstance(y, float) and x == y
                _, kind, p, q, e = hit
                if kind == 'sum' and (same(b, p) or same(b, q)):
                    o = to_rv(q if same(b, p) else p)
                    # |a - b| is at most |o| + e before rounding
                    e2 = dom.rounding(up(o.mag() + o.err + e), fmt)
                    e = up(e + e2)
                    if up(o.err + e) < r.err:
                        r = RV(o.poly, o.lo, o.hi, up(o.err + e))
                        self.prov[id(r)] = (r, 'near', q if same(b, p) else p, None, e)
                elif kind == 'near' and same(b, p):
                    e = up(e + dom.rounding(e, fmt))
                    if e < r.err:
                        r = RV({}, 0.0, 0.0, e)
        while len(self.prov) > 64:
            del self.prov[next(iter(self.prov))]
        return r

    def norm(self, r, fmt):
        if not r.poly and r.err == 0.0:
            return 0.0 if fmt != 'x86_fp80' else Fraction(0)
        return r

    def reduce(self, r):
        """rewrite s*s -> 1 - c*c for registered sine/cosine pairs, sqrt squares -> argument"""
        if not self.rules:
            return r
        hit = False
        for m in r.poly:
            for i in range(len(m) - 1):
                if m[i] == m[i + 1] and m[i] in self.rules:
                    hit = True
                    break
            if hit:
                break
        if not hit:
            return r
        poly = r.poly
        changed = True
        while changed:
            changed = False
            out = {}
            for m, c in poly.items():
                done = False
                for i in range(len(m) - 1):
                    if m[i] == m[i + 1] and m[i] in self.rules:
                        rest = m[:i] + m[i + 2:]
                        out = p_add(out, p_mul({rest: c}, self.rules[m[i]]))
                        done = changed = True
                        break
                if not done:
                    out = p_add(out, {m: c})
            poly = out
        return RV(poly, r.lo, r.hi, r.err)

    rules = {}
    prov = {}
    divof = {}

    def fdiv_rv(self, st, a, b, fmt):
        A, B = to_rv(a), to_rv(b)
        if p_is_const(B.poly) and B.err == 0.0:
            c = p_cval(B.poly)
            if c == 0:
                raise DomainError('division by zero')
            inv = Fraction(1) / c
            poly = p_scale(A.poly, inv)
            f = float(inv)
            cs = (A.lo * f, A.hi * f)
            lo, hi = dom._out(min(cs), max(cs))
            lo, hi = dom._out(lo, hi)
            err = up(up(A.err * abs(f)))
            ex = dom._pow2(B)
            r = dom._round(poly, lo, hi, err, fmt, ex)
            if ex and fmt != 'x86_fp80' and A.poly:
                r.err = up(r.err + dom.ETA[fmt]) if r.err or abs(c) > 1 else 0.0
            return r
        # bounds of |b|
        lo, hi = B.lo - B.err, B.hi + B.err
        if lo <= 0 <= hi:
            lo2, hi2 = self.refine(st, B)
            B = RV(B.poly, lo2, hi2, B.err)
            lo, hi = B.lo - B.err, B.hi + B.err
            if lo <= 0 <= hi:
                # maybe separated by sign: prove |b| >= some margin
                return self.fdiv_split(st, A, B, fmt)
        mn = min(abs(lo), abs(hi)) * (1 - 1e-12)
        if not A.poly and A.err == 0.0:
            return A
        if dom.TM[0] and not (self.o.get('quo') and not p_is_const(A.poly) and not p_is_const(B.poly)
                              and self.isinput(A.poly) and self.isinput(B.poly)
                              and not set(v for m in A.poly for v in m) & set(v for m in B.poly for v in m)):
            try:
                q = taylor.div(A, B)
                return dom._round(q.poly, q.lo, q.hi, q.err, fmt)
            except DomainError:
                pass
        key = ('div', tuple(sorted(A.poly.items())), tuple(sorted(B.poly.items())))
        v = self.divcache.get(key)
        cs = (A.lo / B.lo if B.lo else 0, A.lo / B.hi if B.hi else 0, A.hi / B.lo if B.lo else 0,
              A.hi / B.hi if B.hi else 0)
        ql, qh = dom._out(min(cs), max(cs))
        ql, qh = dom._out(ql, qh)
        if dom.TM[0]:
            # centred
            if v is not None and (v[1] - v[2] > Fraction(ql) or v[1] + v[2] < Fraction(qh)):
                # known from a path with another range
                key += (ql, qh)
                v = self.divcache.get(key)
            if v is None:
                mid = Fraction((ql + qh) / 2)
                rad = max(Fraction(qh) - mid, mid - Fraction(ql))
                v = (self.newvar('R', Fraction(-1), Fraction(1), 'quo'), mid, rad)
                self.axiom(v[0], (v[0].z * dom.zc(rad) + dom.zc(mid)) * p_z3(B.poly) == p_z3(A.poly))
                self.divcache[key] = v
            qm = max(abs(ql), abs(qh))
            err = up((A.err + up(qm * B.err)) / mn * (1 + 1e-12)) if (A.err or B.err) else 0.0
            return dom._round(p_add(dom.p_scale(dom.p_var(v[0]), v[2]), dom.p_const(v[1])), ql, qh, err, fmt)
        if v is None:
            v = self.newvar('R', Fraction(ql), Fraction(qh), 'quo')
            self.axiom(v, v.z * p_z3(B.poly) == p_z3(A.poly))
            self.divcache[key] = v
        else:
            # ranges of the quotient may differ between paths
            v.lo = min(v.lo, Fraction(ql))
            v.hi = max(v.hi, Fraction(qh))
        qm = max(abs(ql), abs(qh))
        err = up((A.err + up(qm * B.err)) / mn * (1 + 1e-12)) if (A.err or B.err) else 0.0
        return dom._round(p_var(v), ql, qh, err, fmt)

    def isinput(self, poly):
        """a linear function of one variable"""
        m = [m for m in poly if m]
        return len(m) == 1 and len(m[0]) == 1

    def path_range(self, st, v):
        """range that conditions of the path on v alone leave to it"""
        cs = [c for c in st.pc if self.pvars(c) == {v.id}]
        key = ('prange', v.id, tuple(c.get_id() for c in cs))
        hit = self.cache.get(key)
        if hit is None:
            rng = [Fraction(v.lo), Fraction(v.hi)]
            cs = [c for c in cs if len(c.sexpr()) < 1000]
            for i in range(2 if cs else 0):
                o = z3.Optimize()
                o.set('timeout', 1000)
                o.add(cs + VARS.constraints([v.id]))
                h = o.maximize(v.z) if i else o.minimize(v.z)
                self.stats['queries'] += 1
                if o.check() != z3.sat:
                    continue
                self.stats['sat'] += 1
                b = o.upper(h) if i else o.lower(h)
                if z3.is_rational_value(b):
                    rng[i] = Fraction(b.numerator_as_long(), b.denominator_as_long())
                elif z3.is_int_value(b):
                    rng[i] = Fraction(b.as_long())
            hit = self.cache[key] = rng
        return hit

    def fdiv_split(self, st, A, B, fmt):
        if self.o.get('wild'):
            return WILD
        raise DomainError('division by a value not bounded away from zero')

    def refine(self, st, v):
        """tighten the interval of v on this path by solver queries (doubling search)"""
        key = ('rng', tuple(sorted(v.poly.items())), tuple(c.get_id() for c in st.pc))
        hit = self.cache.get(key)
        if hit:
            return hit
        z = p_z3(v.poly)
        lo, hi = v.lo, v.hi
        if lo <= 0 <= hi:
            r, _ = self.check(st.pc, z <= 0)
            if r == z3.unsat:
                lo = 0.0
            else:
                r, _ = self.check(st.pc, z >= 0)
                if r == z3.unsat:
                    hi = 0.0
        # find a margin from zero
        if lo == 0.0 or hi == 0.0:
            for k in range(0, 40, 2):
                m = max(abs(lo), abs(hi)) * 2.0 ** -(k + 1)
                c = z3.And(z < dom.zc(Fraction(m)), z > dom.zc(Fraction(-m)))
                r, _ = self.check(st.pc, c)
                if r == z3.unsat:
                    if lo == 0.0:
                        lo = m
                    else:
                        hi = -m
                    break
        self.cache[key] = (lo, hi)
        return lo, hi

    def fcmp(self, st, pred, a, b, ty):
        fmt = ty.name
        if a is WILD or b is WILD:
            raise DomainError('comparison of the result of a division by a value that may be zero')
        if isinstance(a, RV) or isinstance(b, RV):
            return self.fcmp_rv(st, pred, a, b)
        if isinstance(a, (float, Fraction)) and isinstance(b, (float, Fraction)):
            un = a != a or b != b
            if pred == 'ord':
                return not un
            if pred == 'uno':
                return un
            if pred == 'true':
                return True
            if pred == 'false':
                return False
            if un:
                return pred[0] == 'u'
            return {'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b,
                    'ge': a >= b}[pred[1:]]
        s = FSORT[fmt]
        x, y = self.zf(a, s), self.zf(b, s)
        un = z3.Or(z3.fpIsNaN(x), z3.fpIsNaN(y))
        if pred == 'ord':
            return z3.Not(un)
        if pred == 'uno':
            return un
        p = pred[1:]
        e = {'eq': lambda: z3.fpEQ(x, y), 'ne': lambda: z3.Not(z3.fpEQ(x, y)),
             'lt': lambda: z3.fpLT(x, y), 'le': lambda: z3.fpLEQ(x, y),
             'gt': lambda: z3.fpGT(x, y), 'ge': lambda: z3.fpGEQ(x, y)}[p]()
        if pred == 'one':
            return z3.And(e, z3.Not(un))
        if pred[0] == 'u' and p != 'ne':
            return z3.Or(e, un)
        return e

    def unround(self, d, lo, hi):
        """range of a polynomial where rounded values are replaced by what was rounded"""
        r, s = {}, 0.0
        for m, c in d.items():
            if len(m) == 1 and m[0] in self.nints:
                q, e = self.nints[m[0]]
                r = p_add(r, p_scale(q, c))
                s = up(s + abs(float(c)) * e * (1 + 1e-12))
            else:
                r = p_add(r, {m: c})
        if not s:
            return lo, hi
        rng = p_range(r)
        if rng is None:
            return lo, hi
        return max(lo, rng[0] - s), min(hi, rng[1] + s)

    def fcmp_rv(self, st, pred, a, b):
        if pred in ('ord', 'true'):
            return True
        if pred in ('uno', 'false'):
            return False
        for x in (a, b):
            if isinstance(x, float) and (x != x or abs(x) == INF):
                # finite symbolic value against inf/nan
                if x != x:
                    return pred[0] == 'u'
                other_left = x is b
                big = x > 0
                p = pred[1:]
                lt = big if other_left else not big
                return {'eq': False, 'ne': True, 'lt': lt, 'le': lt, 'gt': not lt,
                        'ge': not lt}[p]
        A, B = to_rv(a), to_rv(b)
        d = p_sub(A.poly, B.poly)
        e = A.err + B.err
        if e:
            e = up(e)
        p = pred[1:]
        if p_is_const(d) and not e:
            c = p_cval(d)
            return {'eq': c == 0, 'ne': c != 0, 'lt': c < 0, 'le': c <= 0, 'gt': c > 0,
                    'ge': c >= 0}[p]
        lo, hi = dom._out(A.lo - B.hi, A.hi - B.lo)
        lo, hi = dom._tighten(d, lo, hi)
        if self.nints:
            lo, hi = self.unround(d, lo, hi)
        if p in ('gt', 'ge'):
            d = p_neg(d)
            lo, hi = -hi, -lo
            p = {'gt': 'lt', 'ge': 'le'}[p]
        E = dom.zc(Fraction(e)) if e else None
        if p in ('lt', 'le'):
            if hi + e < 0:
                return True
            if lo - e > 0:
                return False
            z = p_z3(d)
            if not e:
                return z < 0 if p == 'lt' else z <= 0
            mt = z < E if p == 'lt' else z <= E
            mf = z >= -E if p == 'lt' else z > -E

            def rob(k):
                return z > dom.zc(Fraction(e) * Fraction(k))
            return FB(mt, mf, rob)
        if lo - e > 0 or hi + e < 0:
            return p == 'ne'
        z = p_z3(d)
        if not e:
            return z == 0 if p == 'eq' else z != 0
        near = z3.And(z <= E, z >= -E)
        yes = z3.BoolVal(True)
        if p == 'eq':
            return FB(near, yes)
        return FB(yes, near)

    def b_and(self, a, b):
        if a is False or b is False:
            return False
        if a is True:
            return b
        if b is True:
            return a
        if isinstance(a, FB) or isinstance(b, FB):
            a, b = self.to_fb(a), self.to_fb(b)
            return FB(z3.And(a.mt, b.mt), z3.Or(a.mf, b.mf), self.rob2(a, b))
        return z3.And(a, b)

    def rob2(self, a, b):
        ra = a.rob or (lambda k: a.mf)
        rb = b.rob or (lambda k: b.mf)
        return lambda k: z3.Or(self.zb(ra(k)), self.zb(rb(k)))

    def b_or(self, a, b):
        if a is True or b is True:
            return True
        if a is False:
            return b
        if b is False:
            return a
        if isinstance(a, FB) or isinstance(b, FB):
            a, b = self.to_fb(a), self.to_fb(b)
            return FB(z3.Or(a.mt, b.mt), z3.And(a.mf, b.mf))
        return z3.Or(a, b)

    def to_fb(self, a):
        if isinstance(a, FB):
            return FB(self.zb(a.mt), self.zb(a.mf), a.rob)
        if isinstance(a, bool):
            return FB(z3.BoolVal(a), z3.BoolVal(not a))
        return FB(a, z3.Not(a))

    def b_not(self, a):
        if isinstance(a, bool):
            return not a
        if isinstance(a, FB):
            return FB(a.mf, a.mt)
        return z3.Not(a)

    # ------------------------------------------------------------------ run
    def intern(self, key):
        i = self.uids.get(key)
        if i is None:
            i = len(self.uids) + 1
            self.uids[key] = i
        return i

    def blockkey(self, fr):
        fn = fr.fn
        return tuple((fn.rpo[h], fr.iters.get(h, 0)) for h in fn.nest[fr.bi]) + ((fn.rpo[fr.bi], 0),)

    def key(self, st):
        k = []
        fs = st.frames
        for i, f in enumerate(fs):
            k.extend(f.bkey or self.blockkey(f))
            if i + 1 < len(fs):
                k.append((f.ip, 0))
        return tuple(k)

    def enter(self, st, fr, target):
        """transfer control to block index target"""
        fn = fr.fn
        h = fn.loops
        src = fr.bi
        if target in h:
            if src in h[target]:
                fr.iters[target] = fr.iters.get(target, 0) + 1
                if fr.iters[target] > self.o['loop']:
                    self.loop_bound(st, fr)
            else:
                fr.iters[target] = 0
        fr.prev = fn.blocks[src][0]
        fr.bi = target
        fr.ip = 0
        fr.bkey = self.blockkey(fr)
        # phis, evaluated in parallel
        code = fn.code[target]
        if code and code[0].op == 'phi':
            vals = []
            for ins in code:
                if ins.op != 'phi':
                    break
                vals.append((ins.dst, self.val(st, fr, ins.ty, ins.a[fr.prev])))
                fr.ip += 1
            for d, v in vals:
                fr.regs[d] = v

    def loop_bound(self, st, fr):
        r, m = self.check(st.pc, None, self.o['assert_ms'])
        if r == z3.unsat:
            raise Stop()
        if r == z3.sat:
            self.report(st, 'loop', 'loop in %s exceeds %d iterations' % (fr.fn.name, self.o['loop']), m)
        else:
            self.inconcl.append('loop bound reached in ' + fr.fn.name)
        raise Stop()

    def val(self, st, fr, ty, v):
        if v[0] == 'r':
            return fr.regs[v[1]]
        return self.const(st, ty, v[1])

    def run(self, entry, seconds=None):
        if seconds:
            self.deadline = time.time() + seconds
        fn = self.mod.funcs.get('@' + entry)
        if fn is None:
            raise Inconclusive('no entry ' + entry)
        self.rules = {}
        st = State()
        fr = Frame(fn, self.intern(('entry', entry)))
        fr.bkey = self.blockkey(fr)
        st.frames.append(fr)
        self.funcs_used[fn.name] = fn.ninstr
        heap = []
        cnt = 0
        pending = {}
        live = [st]

        # scheduling: in merging mode a heap ordered by program position
        def push(s):
            nonlocal cnt
            cnt += 1
            k = self.key(s)
            if self.merge:
                lst = pending.get(k)
                if lst is None:
                    pending[k] = [s]
                    heapq.heappush(heap, (k, cnt))
                else:
                    lst.append(s)
            else:
                heap.append(s)
        push(st)
        while heap:
            if self.merge:
                k, _ = heapq.heappop(heap)
                lst = pending.pop(k)
                s, rest = self.merge_list(lst)
                if rest:
                    cnt += 1
                    pending[k] = rest
                    heapq.heappush(heap, (k, cnt))
            else:
                s = heap.pop()
            self.open = [s] + (heap[-8:] if not self.merge else [])
            while True:
                self.open[0] = s
                try:
                    out = self.step_block(s)
                except Stop:
                    self.stats['paths'] += 1
                    if self.stats['paths'] > self.o['paths']:
                        raise Inconclusive('path budget exhausted')
                    break
                if len(out) == 1 and (not heap or not self.merge):
                    s = out[0]
                    continue
                for x in reversed(out):
                    push(x)
                break
            if self.deadline and time.time() > self.deadline:
                raise Inconclusive('time budget of this entry exhausted')

    # -- merging
    def merge_list(self, lst):
        """merge mergeable states of one program point; returns (one state, remaining states)"""
        if len(lst) == 1:
            return lst[0], []
        for x in lst:
            self.prune(x)
        s = lst[0]
        rest = []
        for o in lst[1:]:
            if not self.selective or self.compatible(s, o):
                s = self.merge_states(s, o)
            else:
                rest.append(o)
        return s, rest

    def prune(self, st):
        """drop dead registers"""
        n = len(st.frames)
        for i, f in enumerate(st.frames):
            lv = live_at(f.fn, f.bi, f.ip, i == n - 1)
            if i == n - 1:
                f.regs = {k: v for k, v in f.regs.items() if k in lv}
            else:
                f.regs = {k: v for k, v in f.regs.items() if k in lv}

    def differ(self, x, y):
        """two values that must not be folded into an ite: distinct concrete integers/pointers"""
        if x is y:
            return False
        if isinstance(x, bool) or isinstance(y, bool):
            return False
        if isinstance(x, int) and isinstance(y, int):
            return x != y
        if isinstance(x, Ptr) and isinstance(y, Ptr):
            return not (x == y)
        if isinstance(x, list) and isinstance(y, list):
            return any(self.differ(a, b) for a, b in zip(x, y))
        return False

    def compatible(self, a, b):
        for fa, fb in zip(a.frames, b.frames):
            for k, v in fa.regs.items():
                if k in fb.regs and self.differ(v, fb.regs[k]):
                    return False
        for oid, oa in a.mem.items():
            ob = b.mem.get(oid)
            if ob is None or ob is oa:
                continue
            cb = ob.cells
            for k, c in oa.cells.items():
                d = cb.get(k)
                if d is not None and d is not c and c[0] == d[0] and self.differ(c[1], d[1]):
                    return False
        return True

    def merge_states(self, a, b):
        self.stats['merges'] += 1
        n = 0
        while n < len(a.pc) and n < len(b.pc) and (a.pc[n] is b.pc[n] or a.pc[n].eq(b.pc[n])):
            n += 1
        ca = z3.And(a.pc[n:]) if len(a.pc) - n != 1 else a.pc[n]
        cb = z3.And(b.pc[n:]) if len(b.pc) - n != 1 else b.pc[n]
        if len(a.pc) == n:
            ca = z3.BoolVal(True)
        if len(b.pc) == n:
            cb = z3.BoolVal(True)
        r = a.fork()
        # choose the simpler guard
        if len(b.pc) - n == 1 and len(a.pc) - n != 1:
            c = z3.Not(cb)
        else:
            c = ca
        if z3.is_not(ca) and ca.arg(0).eq(cb) or z3.is_not(cb) and cb.arg(0).eq(ca):
            r.pc = a.pc[:n]
        else:
            r.pc = a.pc[:n] + [z3.Or(ca, cb)]
        for fr, fa, fb in zip(r.frames, a.frames, b.frames):
            regs = {}
            for k, v in fa.regs.items():
                if k not in fb.regs:
                    continue
                w = fb.regs[k]
                if v is w:
                    regs[k] = v
                    continue
                try:
                    regs[k] = self.ite_reg(c, v, w, fr.fn, k)
                except (DomainError, NeedSort):
                    continue
            fr.regs = regs
            fr.cnt = {k: max(fa.cnt.get(k, 0), fb.cnt.get(k, 0)) for k in set(fa.cnt) | set(fb.cnt)}
            al = list(fa.allocs)
            for x in fb.allocs:
                if x not in al:
                    al.append(x)
            fr.allocs = al
        for oid in list(r.mem):
            ob = b.mem.get(oid)
            oa = r.mem[oid]
            if ob is None or ob is oa:
                continue
            if oa.const:
                continue
            self.merge_obj(r, oid, oa, ob, c)
        for oid, ob in b.mem.items():
            if oid not in r.mem:
                r.mem[oid] = ob
        for k, v in b.syms.items():
            r.syms[k] = max(v, r.syms.get(k, 0))
        for k, v in b.inputs.items():
            if not r.inputs.setdefault(k, v)[1].eq(v[1]):
                raise Inconclusive('input %s has different ranges on merged paths' % k)
        r.heapn = max(a.heapn, b.heapn)
        return r

    def ite_reg(self, c, v, w, fn, k):
        try:
            return self.ite(c, v, w)
        except NeedSort:
            ty = self.reg_ty(fn, k)
            if ty is None:
                raise
            return self.ite_t(c, v, w, ty)

    def reg_ty(self, fn, k):
        m = getattr(fn, 'regty', None)
        if m is None:
            m = {r: t for t, r in fn.params}
            for blk in fn.code:
                for ins in blk:
                    if ins.dst:
                        if ins.op in ('icmp', 'fcmp'):
                            m[ins.dst] = ir.I[1]
                        elif ins.op in ('getelementptr', 'alloca'):
                            m[ins.dst] = ir.PTR
                        elif ins.op == 'extractvalue':
                            t = ins.ty
                            for i in ins.x:
                                t = self.mod.resolve(t)
                                t = t.sub[i] if t.k == 'struct' else t.sub
                            m[ins.dst] = t
                        elif ins.op == 'extractelement':
                            m[ins.dst] = self.mod.resolve(ins.ty).sub
                        else:
                            m[ins.dst] = ins.ty
            fn.regty = m
        return m.get(k)

    def merge_obj(self, r, oid, oa, ob, c):
        w = None
        ka, kb = oa.cells, ob.cells
        for k in set(ka) | set(kb):
            x, y = ka.get(k), kb.get(k)
            if x is y:
                continue
            if x is not None and y is not None and x[0] == y[0]:
                if x[1] is y[1]:
                    continue
                try:
                    v = self.ite(c, x[1], y[1])
                except NeedSort:
                    if isinstance(x[1], float):
                        v = z3.If(c, z3.FPVal(x[1], FSORT[{2: 'half', 4: 'float', 8: 'double'}[x[0]]]),
                                  z3.FPVal(y[1], FSORT[{2: 'half', 4: 'float', 8: 'double'}[x[0]]]))
                    else:
                        v = z3.If(c, z3.BitVecVal(x[1], 8 * x[0]), z3.BitVecVal(y[1], 8 * x[0]))
                if w is None:
                    w = self.wobj(r, oid)
                w.cells[k] = (x[0], v)
            elif x is None and y is not None and self.byte_at(oa, k) is None and \
                    not any((k + i) in ka for i in range(1, y[0])):
                # initialised only on one side: the other is arbitrary
                if w is None:
                    w = self.wobj(r, oid)
                w.cells[k] = (y[0], self.half_init(c, None, y))
            elif y is None and x is not None and self.byte_at(ob, k) is None and \
                    not any((k + i) in kb for i in range(1, x[0])):
                if w is None:
                    w = self.wobj(r, oid)
                w.cells[k] = (x[0], self.half_init(c, x, None))
            else:
                # differing granularity: normalise to bytes
                oa2 = oa.copy(object())
                ob2 = ob.copy(object())
                for o in (oa2, ob2):
                    for kk in list(o.cells):
                        if o.cells[kk][0] > 1:
                            self.split(o, kk)
                w = self.wobj(r, oid)
                w.cells = oa2.cells
                self.merge_obj(r, oid, oa2, ob2, c)
                return

    def half_init(self, c, x, y):
        v = x[1] if x is not None else y[1]
        n = x[0] if x is not None else y[0]
        self.fresh += 1
        if isinstance(v, (int, bool, z3.BitVecRef)):
            u = z3.BitVec('undef!%d' % self.fresh, 8 * n)
            v = self.bv(v, 8 * n)
        elif isinstance(v, (float, z3.FPRef)):
            s = FSORT[{2: 'half', 4: 'float', 8: 'double'}[n]]
            u = z3.FP('undef!%d' % self.fresh, s)
            v = self.zf(v, s)
        elif isinstance(v, z3.BoolRef):
            u = z3.Bool('undef!%d' % self.fresh)
        else:
            return v
        return z3.If(c, v, u) if x is not None else z3.If(c, u, v)

    # -- one basic block (or until a branch); returns successor states
    def step_block(self, st):
        o = self.o
        while True:
            fr = st.frames[-1]
            code = fr.fn.code[fr.bi]
            n = len(code)
            regs = fr.regs
            while fr.ip < n:
                ins = code[fr.ip]
                op = ins.op
                st.steps += 1
                self.stats['steps'] += 1
                if op == 'br':
                    return self.do_br(st, fr, ins)
                if op == 'jmp':
                    self.enter(st, fr, fr.fn.labels[ins.a])
                    return [st]
                if op == 'switch':
                    return self.do_switch(st, fr, ins)
                if op == 'ret':
                    v = self.val(st, fr, ins.ty, ins.a) if ins.a is not None else None
                    for oid in fr.allocs:
                        st.mem.pop(oid, None)
                    st.frames.pop()
                    if not st.frames:
                        raise Stop()
                    up_ = st.frames[-1]
                    if fr.dst is not None:
                        up_.regs[fr.dst] = v
                    up_.ip += 1
                    break
                if op == 'call':
                    r = self.do_call(st, fr, ins)
                    if r == 'pushed':
                        break
                    if isinstance(r, tuple) and r[0] == 'fork':
                        return r[1]
                    fr.ip += 1
                    continue
                if op == 'fptosi' or op == 'fptoui':
                    v = self.val(st, fr, ins.x, ins.a)
                    if isinstance(v, RV):
                        outs = self.fptosi_rv(st, fr, ins, v)
                        if outs is not None:
                            return outs
                        fr.ip += 1
                        continue
                if op == 'select' and self.real:
                    r = self.select_real(st, fr, ins)
                    if r is not None:
                        return r
                    fr.ip += 1
                    continue
                self.simple(st, fr, ins)
                fr.ip += 1
            else:
                raise Inconclusive('fell off a block')
            if st.steps > o['steps']:
                raise Inconclusive('step budget exhausted')

    def simp_cond(self, c):
        if isinstance(c, z3.BoolRef):
            s = z3.simplify(c)
            if z3.is_true(s):
                return True
            if z3.is_false(s):
                return False
        return c

    def do_br(self, st, fr, ins):
        c = self.val(st, fr, ir.I[1], ins.c)
        fn = fr.fn
        la, lb = fn.labels[ins.a], fn.labels[ins.b]
        lazy = self.lazy and fn.nest[la] == fn.nest[lb] == fn.nest[fr.bi] and \
            la not in fn.loops and lb not in fn.loops
        return self.branch(st, c, lambda s: self.enter(s, s.frames[-1], la),
                           lambda s: self.enter(s, s.frames[-1], lb), lazy)

    def branch(self, st, c, ft, ff, lazy=False):
        if isinstance(c, int) and not isinstance(c, bool):
            c = bool(c)
        if not self.real:
            c = self.simp_cond(c)
        if c is True:
            ft(st)
            return [st]
        if c is False:
            ff(st)
            return [st]
        if isinstance(c, FB):
            ct, cf = c.mt, c.mf
        else:
            ct, cf = c, z3.Not(c)
        tt = lazy or ct is True or (ct is not False and self.feasible(st, ct))
        if not tt:
            if not isinstance(c, FB):
                pass
            elif isinstance(cf, z3.ExprRef):
                st.pc.append(cf)
            ff(st)
            return [st]
        tf = lazy or cf is True or (cf is not False and self.feasible(st, cf))
        if not tf:
            if isinstance(c, FB) and isinstance(ct, z3.ExprRef):
                st.pc.append(ct)
            ft(st)
            return [st]
        self.stats['forks'] += 1
        s2 = st.fork()
        if isinstance(ct, z3.ExprRef):
            st.pc.append(ct)
        if isinstance(cf, z3.ExprRef):
            s2.pc.append(cf)
        out = []
        for s, f in ((st, ft), (s2, ff)):
            try:
                f(s)
                out.append(s)
            except Stop:
                self.stats['paths'] += 1
        if not out:
            raise Stop()
        return out

    def do_switch(self, st, fr, ins):
        v = self.val(st, fr, ins.ty, ins.a)
        w = ins.ty.n
        if isinstance(v, bool):
            v = int(v)
        if isinstance(v, int):
            for cv, lab in ins.c:
                if cv == v:
                    self.enter(st, fr, fr.fn.labels[lab])
                    return [st]
            self.enter(st, fr, fr.fn.labels[ins.b])
            return [st]
        out = []
        neg = []
        for cv, lab in ins.c:
            c = self.icmp(st, 'eq', v, cv, ins.ty)
            if c is False:
                continue
            c = self.zb(c)
            neg.append(z3.Not(c))
            if self.feasible(st, c):
                s = st.fork()
                s.pc.append(c)
                self.enter(s, s.frames[-1], fr.fn.labels[lab])
                out.append(s)
        d = z3.And(neg) if neg else z3.BoolVal(True)
        if self.feasible(st, d):
            st.pc.append(d)
            self.enter(st, fr, fr.fn.labels[ins.b])
            out.append(st)
        if not out:
            raise Stop()
        return out

    def select_real(self, st, fr, ins):
        """selects over symbolic conditions in real mode fork the path"""
        c = self.val(st, fr, ir.I[1], ins.c)
        if isinstance(c, bool):
            v = self.val(st, fr, ins.ty, ins.a if c else ins.b)
            fr.regs[ins.dst] = v
            return None
        t = self.mod.resolve(ins.ty)
        a = self.val(st, fr, ins.ty, ins.a)
        b = self.val(st, fr, ins.ty, ins.b)
        if t.k == 'i' and t.n == 1:
            # logical and / or
            if b is False:
                fr.regs[ins.dst] = self.b_and(c, a)
                return None
            if a is True:
                fr.regs[ins.dst] = self.b_or(c, b)
                return None

        def put(v):
            def f(s):
                s.frames[-1].regs[ins.dst] = v
                s.frames[-1].ip += 1
            return f
        return self.branch(st, c, put(a), put(b))

    def simple(self, st, fr, ins):
        op = ins.op
        regs = fr.regs
        ty = ins.ty
        if op in ir.BIN:
            a = self.val(st, fr, ty, ins.a)
            b = self.val(st, fr, ty, ins.b)
            t = self.mod.resolve(ty)
            if t.k == 'i':
                if t.n == 1:
                    regs[ins.dst] = self.bool_bin(op, a, b)
                else:
                    regs[ins.dst] = self.int_bin(st, op, a, b, t.n, ins.x)
            elif t.k == 'f':
                regs[ins.dst] = self.fbin(st, op, a, b, t)
            else:
                out = []
                for x, y in zip(a, b):
                    out.append(self.fbin(st, op, x, y, t.sub) if t.sub.k == 'f' else
                               self.int_bin(st, op, x, y, t.sub.n, ins.x))
                regs[ins.dst] = out
        elif op == 'load':
            regs[ins.dst] = self.load(st, self.val(st, fr, ir.PTR, ins.a), ty)
        elif op == 'store':
            v = self.val(st, fr, ty, ins.a)
            self.store(st, self.val(st, fr, ir.PTR, ins.b), ty, v)
        elif op == 'getelementptr':
            regs[ins.dst] = self.gep(st, fr, ins)
        elif op == 'icmp':
            a = self.val(st, fr, ty, ins.a)
            b = self.val(st, fr, ty, ins.b)
            regs[ins.dst] = self.icmp(st, ins.x, a, b, ty)
        elif op == 'fcmp':
            a = self.val(st, fr, ty, ins.a)
            b = self.val(st, fr, ty, ins.b)
            regs[ins.dst] = self.fcmp(st, ins.x, a, b, self.mod.resolve(ty))
        elif op == 'alloca':
            n = 1
            if ins.a is not None:
                n = self.val(st, fr, ins.a[0], ins.a[1])
                if not isinstance(n, int):
                    raise Inconclusive('symbolic alloca size')
            k = fr.cnt.get(ins.dst, 0)
            fr.cnt[ins.dst] = k + 1
            oid = ('a', fr.uid, ins.dst, k)
            fr.allocs.append(oid)
            regs[ins.dst] = self.alloc(st, n * self.mod.size(ty), oid, ins.dst + ' in ' + fr.fn.name)
        elif op in ir.CASTS:
            regs[ins.dst] = self.cast(st, op, self.val(st, fr, ins.x, ins.a), ins.x, ty)
        elif op == 'fneg':
            regs[ins.dst] = self.fneg(self.val(st, fr, ty, ins.a))
        elif op == 'select':
            c = self.val(st, fr, ir.I[1], ins.c)
            c = self.simp_cond(c)
            a = self.val(st, fr, ty, ins.a)
            b = self.val(st, fr, ty, ins.b)
            regs[ins.dst] = a if c is True else b if c is False else self.ite_t(c, a, b, ty)
        elif op == 'freeze':
            regs[ins.dst] = self.val(st, fr, ty, ins.a)
        elif op == 'extractvalue':
            v = self.val(st, fr, ty, ins.a)
            for i in ins.x:
                v = v[i]
            regs[ins.dst] = v
        elif op == 'insertvalue':
            v = self.val(st, fr, ty, ins.a)
            e = self.val(st, fr, None, ins.b) if ins.b[0] == 'r' else \
                self.const(st, self.elem_ty(ty, ins.x), ins.b[1])
            regs[ins.dst] = self.insert(v, ins.x, e)
        elif op == 'extractelement':
            v = self.val(st, fr, ty, ins.a)
            i = self.val(st, fr, ins.x, ins.b)
            regs[ins.dst] = v[i]
        elif op == 'insertelement':
            v = list(self.val(st, fr, ty, ins.a))
            i = self.val(st, fr, ir.I[64], ins.c)
            v[i] = self.val(st, fr, self.mod.resolve(ty).sub, ins.b)
            regs[ins.dst] = v
        elif op == 'unreachable':
            self.oblige(st, False, 'ub', 'control reaches an unreachable point')
        elif op == 'nop':
            pass
        else:
            raise Inconclusive('unsupported instruction: ' + ins.src)

    def elem_ty(self, ty, idx):
        for i in idx:
            t = self.mod.resolve(ty)
            ty = t.sub[i] if t.k == 'struct' else t.sub
        return ty

    def insert(self, v, idx, e):
        v = list(v)
        if len(idx) == 1:
            v[idx[0]] = e
        else:
            v[idx[0]] = self.insert(v[idx[0]], idx[1:], e)
        return v

    def bool_bin(self, op, a, b):
        if isinstance(a, int):
            a = bool(a)
        if isinstance(b, int):
            b = bool(b)
        if op == 'and':
            return self.b_and(a, b)
        if op == 'or':
            return self.b_or(a, b)
        if op in ('xor', 'add', 'sub'):
            if isinstance(a, bool) and isinstance(b, bool):
                return a != b
            if b is True:
                return self.b_not(a)
            if a is True:
                return self.b_not(b)
            if b is False:
                return a
            if a is False:
                return b
            if isinstance(a, FB) or isinstance(b, FB):
                a, b = self.to_fb(a), self.to_fb(b)
                return FB(z3.Or(z3.And(a.mt, b.mf), z3.And(a.mf, b.mt)),
                          z3.Or(z3.And(a.mt, b.mt), z3.And(a.mf, b.mf)))
            return z3.Xor(a, b)
        raise DomainError('i1 ' + op)

    def fneg(self, v):
        if v is WILD:
            return v
        if isinstance(v, (float, Fraction)):
            return -v
        if isinstance(v, RV):
            return rv_neg(v)
        if isinstance(v, list):
            return [self.fneg(x) for x in v]
        return z3.fpNeg(v)

    def gep(self, st, fr, ins):
        base = self.val(st, fr, ir.PTR, ins.a)
        off = 0
        sym = None
        t = ins.ty
        first = True
        for it, iv in ins.b:
            v = self.val(st, fr, it, iv)
            if first:
                scale = self.mod.size(t)
                first = False
            else:
                r = self.mod.resolve(t)
                if r.k == 'struct':
                    off += self.mod.offsets(r)[v]
                    t = r.sub[v]
                    continue
                t = r.sub
                scale = self.mod.size(t)
            if isinstance(v, bool):
                v = int(v)
            if isinstance(v, int):
                off += self.sgn(v, it.n) * scale
            elif isinstance(v, z3.BitVecRef):
                if v.size() < 64:
                    v = z3.SignExt(64 - v.size(), v)
                e = v * scale if scale != 1 else v
                sym = e if sym is None else sym + e
            elif isinstance(v, IV):
                e = IV(p_scale(v.poly, Fraction(scale)), v.lo * scale, v.hi * scale, 64)
                sym = e if sym is None else self.iv_bin(st, 'add', sym, e, 64, {'nsw'})
            else:
                raise DomainError('gep index %r' % (v,))
        return self.ptr_add(st, base, off, sym)

    def ptr_add(self, st, base, off, sym):
        if isinstance(base, PIte):
            return PIte(base.c, self.ptr_add(st, base.a, off, sym), self.ptr_add(st, base.b, off, sym))
        if isinstance(base, int) and base == 0:
            base = NULL
        if not isinstance(base, Ptr):
            raise DomainError('gep on %r' % (base,))
        o = base.off
        if sym is None:
            if off == 0:
                return base
            if isinstance(o, IV):
                return Ptr(base.obj, self.iv_bin(st, 'add', o, off & ((1 << 64) - 1), 64, {'nsw'}))
            return Ptr(base.obj, o + off)
        if isinstance(sym, IV):
            o2 = o if isinstance(o, IV) else (o & ((1 << 64) - 1))
            r = self.iv_bin(st, 'add', sym, o2, 64, {'nsw'})
            r = self.iv_bin(st, 'add', r, off & ((1 << 64) - 1), 64, {'nsw'}) if off else r
            if isinstance(r, int):
                r = self.sgn(r, 64)
            return Ptr(base.obj, r)
        e = sym
        if isinstance(o, int):
            if o + off:
                e = sym + (o + off)
        else:
            e = o + sym
            if off:
                e = e + off
        s = z3.simplify(e)
        if z3.is_bv_value(s):
            return Ptr(base.obj, s.as_signed_long())
        return Ptr(base.obj, e)

    def cast(self, st, op, v, sty, dty):
        s = self.mod.resolve(sty)
        d = self.mod.resolve(dty)
        if op == 'bitcast':
            return self.bitcast(v, s, d)
        if op in ('ptrtoint', 'inttoptr', 'addrspacecast'):
            if op == 'inttoptr' and isinstance(v, int):
                return NULL if v == 0 else Ptr(-1, v)
            return v
        if op in ('zext', 'sext', 'trunc'):
            return self.icast(st, op, v, s, d)
        if op in ('sitofp', 'uitofp'):
            return self.itof(st, op, v, s, d)
        if v is WILD:
            return v
        if op == 'fpext':
            if isinstance(v, RV):
                return v
            if isinstance(v, float):
                if d.name == 'x86_fp80':
                    if v != v or abs(v) == INF:
                        return v
                    return Fraction(v)
                return v
            if d.name == 'x86_fp80':
                raise DomainError('long double over fp terms')
            return z3.fpFPToFP(RNE, v, FSORT[d.name])
        if op == 'fptrunc':
            if isinstance(v, RV):
                return dom._round(v.poly, v.lo, v.hi, v.err, d.name)
            if isinstance(v, Fraction):
                return frac_round(v, d.name)
            if isinstance(v, float):
                return rnd(d.name, v)
            return z3.fpFPToFP(RNE, v, FSORT[d.name])
        if op in ('fptosi', 'fptoui'):
            if isinstance(v, (float, Fraction)):
                if v != v or abs(v) == INF:
                    self.oblige(st, False, 'ub', 'conversion of non-finite value to integer')
                i = int(v)
                L, H = (-(1 << (d.n - 1)), (1 << (d.n - 1)) - 1) if op == 'fptosi' else (0, (1 << d.n) - 1)
                if i < L or i > H:
                    self.oblige(st, False, 'ub', 'float to integer conversion out of range')
                return i & ((1 << d.n) - 1)
            f = z3.FPVal
            sort = v.sort()
            if op == 'fptosi':
                lo, hi = -(2.0 ** (d.n - 1)), 2.0 ** (d.n - 1)
                ok = z3.And(z3.Not(z3.fpIsNaN(v)), z3.fpLT(v, z3.FPVal(hi, sort)),
                            z3.fpGEQ(v, z3.FPVal(lo, sort)))
            else:
                ok = z3.And(z3.Not(z3.fpIsNaN(v)), z3.fpLT(v, z3.FPVal(2.0 ** d.n, sort)),
                            z3.fpGT(v, z3.FPVal(-1.0, sort)))
            self.oblige(st, ok, 'ub', 'float to integer conversion out of range')
            return z3.fpToSBV(z3.RTZ(), v, z3.BitVecSort(d.n)) if op == 'fptosi' else \
                z3.fpToUBV(z3.RTZ(), v, z3.BitVecSort(d.n))
        raise DomainError(op)

    def icast(self, st, op, v, s, d):
        if s.n == 1:
            if isinstance(v, bool):
                return (int(v) if op == 'zext' else (((1 << d.n) - 1) if v else 0))
            if isinstance(v, FB):
                return v
            one = 1 if op == 'zext' else (1 << d.n) - 1
            if self.real:
                nv = self.newvar('I', 0 if op == 'zext' else -1, 1 if op == 'zext' else 0, 'b2i')
                self.axiom(nv, nv.z == z3.If(v, 1 if op == 'zext' else -1, 0))
                return IV(p_var(nv), nv.lo, nv.hi, d.n)
            return z3.If(v, z3.BitVecVal(one, d.n), z3.BitVecVal(0, d.n))
        if isinstance(v, FB):
            if op == 'trunc' and d.n == 1:
                return v
            return v
        if isinstance(v, int):
            if op == 'zext':
                return v
            if op == 'sext':
                return self.sgn(v, s.n) & ((1 << d.n) - 1)
            r = v & ((1 << d.n) - 1)
            return bool(r) if d.n == 1 else r
        if isinstance(v, IV):
            if op == 'sext':
                if v.hi >= (1 << (s.n - 1)):
                    half, z = 1 << (s.n - 1), p_z3i(v.poly)
                    if self.check(st.pc, z >= half)[0] == z3.unsat:
                        return IV(v.poly, v.lo, half - 1, d.n)
                    if v.lo < 0:
                        raise DomainError('sext of unsigned-looking value')
                    nv = self.newvar('I', -half, half - 1, 'sx')
                    self.axiom(nv, nv.z == z3.If(z >= half, z - 2 * half, z))
                    return IV(p_var(nv), -half, half - 1, d.n)
                return IV(v.poly, v.lo, v.hi, d.n)
            if op == 'zext':
                if v.lo < 0:
                    z = p_z3i(v.poly)
                    r, _ = self.check(st.pc, z < 0)
                    if r == z3.unsat:
                        return IV(v.poly, 0, v.hi, d.n)
                    nv = self.newvar('I', 0, (1 << s.n) - 1, 'zx')
                    self.axiom(nv, nv.z == z3.If(z < 0, z + (1 << s.n), z))
                    return IV(p_var(nv), 0, (1 << s.n) - 1, d.n)
                return IV(v.poly, v.lo, v.hi, d.n)
            if d.n == 1:
                q, r = self.iv_div(st, v, 2, 'floor', s.n)
                return p_z3i(r.poly) == 1
            if v.lo >= -(1 << (d.n - 1)) and v.hi < (1 << (d.n - 1)) or \
                    (v.lo >= 0 and v.hi < (1 << d.n)):
                return IV(v.poly, v.lo, v.hi, d.n)
            return self.iv_mk(st, v.poly, v.lo, v.hi, d.n, False)
        if isinstance(v, (Ptr, PIte)):
            return v
        if isinstance(v, Pk):
            if op == 'trunc':
                n = d.n // 8
                cs = [c for c in v.cells if c[0] < n]
                if len(cs) == 1 and cs[0][0] == 0 and cs[0][1] == n and not isinstance(cs[0][2], (RV, float, Fraction)):
                    return cs[0][2]
                return Pk(n, cs)
            return Pk(d.n // 8, v.cells)
        if op == 'zext':
            return z3.ZeroExt(d.n - s.n, v)
        if op == 'sext':
            return z3.SignExt(d.n - s.n, v)
        if d.n == 1:
            return z3.Extract(0, 0, v) == 1
        return z3.Extract(d.n - 1, 0, v)

    def refined(self, st, v):
        """stand-in variable for an affine integer expression, with the range the path condition
        leaves to it; expressions that differ by a factor share the variable"""
        lead = [c for m, c in sorted(v.poly.items()) if m]
        if not lead or any(len(m) > 1 for m in v.poly):
            return None
        if dom.TM[0]:
            return self.refined_tm(st, v)
        g = Fraction(0)
        for c in v.poly.values():
            g = Fraction(math.gcd(g.numerator, int(c)))
        if lead[0] < 0:
            g = -g
        prim = {m: c / g for m, c in v.poly.items()}
        z = p_z3i(prim)
        have = set(c.get_id() for c in st.pc)
        known = self.trigcache.setdefault(('refined', tuple(sorted(prim.items()))), [])
        hit = None
        for x, pc in known:
            if all(c.get_id() in have for c in pc):
                hit = (x, pc)
        if hit is None:
            t0 = time.time()
            rng = []
            for up_ in (False, True):
                o = z3.Optimize()
                o.set('timeout', self.o['feas_ms'])
                o.add(self.real_context(st.pc, z == z))
                o.add(self.real_context(st.pc, None))
                h = o.maximize(z) if up_ else o.minimize(z)
                self.stats['queries'] += 1
                if o.check() != z3.sat:
                    self.stats['solver_s'] += time.time() - t0
                    return None
                b = o.upper(h) if up_ else o.lower(h)
                if not z3.is_int_value(b):
                    return None
                self.stats['sat'] += 1
                rng.append(b.as_long())
            self.stats['solver_s'] += time.time() - t0
            x = self.newvar('R', Fraction(rng[0]), Fraction(rng[1]), 'int')
            self.axiom(x, x.z == z3.ToReal(z))
            hit = (x, list(st.pc))
            known.append(hit)
        x = hit[0]
        lo, hi = sorted((g * x.lo, g * x.hi))
        return {(x.id,): Fraction(g)}, lo, hi

    def refined_tm(self, st, v):
        """the same with centred and scaled variables, one for each integer variable"""
        out = {}
        have = set(c.get_id() for c in st.pc)
        for m, c in v.poly.items():
            if not m:
                out = p_add(out, dom.p_const(c))
                continue
            known = self.trigcache.setdefault(('refined', m), [])
            hit = None
            for h in known:
                if all(k.get_id() in have for k in h[1]):
                    hit = h
                    break
            if hit is None:
                n = VARS.v[m[0]]
                lo, hi = self.path_range(st, n)
                lo, hi = Fraction(math.ceil(lo)), Fraction(math.floor(hi))
                mid, rad = (lo + hi) / 2, (hi - lo) / 2
                if rad:
                    x = self.newvar('R', Fraction(-1), Fraction(1), 'int')
                    self.axiom(x, z3.ToReal(n.z) == dom.zc(mid) + dom.zc(rad) * x.z)
                    p = p_add(dom.p_const(mid), p_scale(p_var(x), rad))
                else:
                    p = dom.p_const(mid)
                hit = (p, list(st.pc))
                known.append(hit)
            out = p_add(out, p_scale(hit[0], c))
        r = dom.p_range(out)
        return out, r[0], r[1]

    def itof(self, st, op, v, s, d):
        if isinstance(v, bool):
            v = int(v)
            if op == 'sitofp':
                v = -v
            return Fraction(v) if d.name == 'x86_fp80' else float(v)
        if isinstance(v, int):
            if op == 'sitofp':
                v = self.sgn(v, s.n)
            if d.name == 'x86_fp80':
                return Fraction(v)
            return frac_round(Fraction(v), d.name)
        if isinstance(v, IV):
            lo, hi = v.lo, v.hi
            if self.o.get('refine'):
                r = self.refined(st, v)
                if r:
                    return dom._round(r[0], dom.fl_lo(r[1]), dom.fl_hi(r[2]), 0.0, d.name)
            return dom._round(v.poly, dom.fl_lo(Fraction(lo)), dom.fl_hi(Fraction(hi)), 0.0, d.name)
        if isinstance(v, FB) or isinstance(v, z3.BoolRef):
            raise DomainError('itof of boolean')
        if d.name == 'x86_fp80':
            raise DomainError('long double from bit-vector')
        if op == 'sitofp':
            return z3.fpSignedToFP(RNE, v, FSORT[d.name])
        return z3.fpUnsignedToFP(RNE, v, FSORT[d.name])

    def bitcast(self, v, s, d):
        if s.k == 'f' and d.k == 'i':
            if isinstance(v, RV):
                return Pk(s.n, [(0, s.n, v)])
            return self.as_bits(v, s.n)
        if s.k == 'i' and d.k == 'f':
            if isinstance(v, Pk):
                return v.cells[0][2]
            return self.from_bits(v, d)
        if s.k == d.k and s.k in ('i', 'f', 'ptr'):
            return v
        # via a temporary object
        o = Obj(max(self.mod.size(s), self.mod.size(d)), 'tmp', None)
        self.store_cells(o, 0, s, v)
        return self.load_cells(o, 0, d)

    def fptosi_rv(self, st, fr, ins, v):
        """float->int of an RV.  Integral exact values stay symbolic; otherwise fork over values."""
        d = self.mod.resolve(ins.ty)
        if v.err == 0.0 and p_integral(v.poly):
            lo, hi = math.ceil(v.lo), math.floor(v.hi)
            fr.regs[ins.dst] = self.iv_mk(st, v.poly, lo, hi, d.n, True)
            return None
        key = ('f2i', tuple(sorted(v.poly.items())), v.err)
        lo, hi = v.lo - v.err, v.hi + v.err
        cl, ch = math.trunc(lo), math.trunc(hi)
        if ch - cl <= self.o.get('f2i', 16):
            outs = []
            E = Fraction(v.err)
            z = p_z3(v.poly)
            conds = []
            for k in range(cl, ch + 1):
                if k > 0:
                    c = z3.And(z >= dom.zc(k - E), z < dom.zc(k + 1 + E))
                elif k < 0:
                    c = z3.And(z > dom.zc(k - 1 - E), z <= dom.zc(k + E))
                else:
                    c = z3.And(z > dom.zc(-1 - E), z < dom.zc(1 + E))
                conds.append((k, c))
            for k, c in conds:
                if len(conds) > 1 and not self.feasible(st, c):
                    continue
                s = st.fork()
                if len(conds) > 1:
                    s.pc.append(c)
                s.frames[-1].regs[ins.dst] = k & ((1 << d.n) - 1)
                s.frames[-1].ip += 1
                outs.append(s)
            if not outs:
                raise Stop()
            if len(outs) > 1:
                self.stats['forks'] += len(outs) - 1
            return outs
        # symbolic integer with bracketing axioms
        nv = self.newvar('I', cl, ch, 'f2i')
        E = dom.zc(Fraction(v.err))
        z = p_z3(v.poly)
        self.axiom(nv, z3.Implies(nv.zr > 0, z3.And(z >= nv.zr - E, z < nv.zr + 1 + E)))
        self.axiom(nv, z3.Implies(nv.zr < 0, z3.And(z > nv.zr - 1 - E, z <= nv.zr + E)))
        self.axiom(nv, z3.Implies(nv.zr == 0, z3.And(z > -1 - E, z < 1 + E)))
        fr.regs[ins.dst] = self.iv_mk(st, p_var(nv), cl, ch, d.n, True)
        return None

    # ------------------------------------------------------------------ calls
    def do_call(self, st, fr, ins):
        name = ins.a
        if name[0] == '%':
            f = fr.regs[name]
            if isinstance(f, PIte):
                fs = self.targets(st, f)
                if all(isinstance(q, FPtr) for _, q in fs) and len({q.name for _, q in fs}) == 1:
                    f = fs[0][1]
                else:
                    raise DomainError('symbolic function pointer')
            if not isinstance(f, FPtr):
                self.oblige(st, False, 'memory', 'call through a bad function pointer')
            name = f.name
        args = []
        for ty, v, byval in ins.b:
            x = self.val(st, fr, ty, v)
            if byval is not None:
                k = fr.cnt.get('byval', 0)
                fr.cnt['byval'] = k + 1
                oid = ('bv', fr.uid, id(ins), k)
                p = self.alloc(st, self.mod.size(byval), oid, 'by-value argument')
                fr.allocs.append(oid)
                self.memcpy(st, p, x, self.mod.size(byval))
                x = p
            args.append(x)
        fn = self.mod.funcs.get(name)
        if fn is not None and name in self.o.get('summaries', {}):
            fn = None
        if fn is not None:
            if len(st.frames) > 200:
                r, m = self.check(st.pc, None, self.o['assert_ms'])
                if r == z3.sat:
                    self.report(st, 'loop', 'recursion deeper than 200 frames', m)
                raise Stop()
            self.funcs_used[name] = fn.ninstr
            uid = self.intern((fr.uid, fr.bkey, fr.ip, tuple(sorted(fr.iters.items()))))
            nf = Frame(fn, uid)
            nf.dst = ins.dst
            nf.rty = ins.ty
            for (t, r), v in zip(fn.params, args):
                nf.regs[r] = v
            nf.bkey = self.blockkey(nf)
            st.frames.append(nf)
            return 'pushed'
        from . import lib
        return lib.call(self, st, fr, ins, name[1:].strip('"'), args)


class NeedSort(Exception):
    pass
