"""External functions: harness API, LLVM intrinsics, libc/libm models."""

import collections
import math
import os
import sys
from fractions import Fraction

import mpmath
import z3

from . import dom, ir, taylor
from .dom import RV, IV, FB, DomainError, VARS, p_var, p_z3, p_z3i, p_add, p_sub, p_mul, p_const, \
    p_neg, p_is_const, p_cval, p_scale, to_rv, rv_neg, up, rv_add, rv_mul
from .symex import (Stop, Inconclusive, Ptr, PIte, FPtr, NULL, UNDEF, FSORT, RNE, rnd, frac_round,
                    _libm, INF)

mpmath.mp.dps = 60


def cstr(ex, st, p):
    o = st.mem[p.obj]
    out = []
    i = p.off
    while True:
        b = o.cells[i][1]
        if b == 0:
            break
        out.append(b)
        i += 1
    return bytes(out).decode()


def frac(x):
    """mpf -> Fraction, exactly"""
    x = mpmath.mpf(x)
    s, m, e, _ = x._mpf_
    m = int(m)
    v = Fraction(m) * (Fraction(2) ** e)
    return -v if s else v


def symname(ex, st, name):
    k = st.syms.get(name, 0)
    st.syms[name] = k + 1
    return '%s#%d' % (name, k)


def setinput(ex, st, key, inp):
    ex.inputs[key] = inp
    st.inputs[key] = inp


def ranged(key, lo, hi):
    """variable name; the same input may have another range on another path"""
    v = VARS.byname.get(key)
    if v is None or (v.lo == lo and v.hi == hi):
        return key
    return '%s@%s..%s' % (key, lo, hi)


def sgn(v, w):
    return v - (1 << w) if v >> (w - 1) else v


def sym_int(ex, st, name, lo, hi, w, signed, kind):
    if isinstance(lo, int) and isinstance(hi, int) and lo == hi:
        symname(ex, st, name)
        return lo & ((1 << w) - 1)
    key = symname(ex, st, name)
    if ex.real:
        v = VARS.new(ranged(key, lo, hi), 'I', lo, hi, key)
        setinput(ex, st, key, (kind, v.z, v))
        return IV(p_var(v), lo, hi, w)
    x = z3.BitVec(key, w)
    ex.inputs[key] = (kind, x, None)
    full = (lo == (-(1 << (w - 1)) if signed else 0)) and hi == ((1 << (w - 1)) - 1 if signed else (1 << w) - 1)
    if not full:
        if signed:
            st.pc.append(z3.And(x >= lo, x <= hi))
        else:
            st.pc.append(z3.And(z3.UGE(x, lo), z3.ULE(x, hi)))
    return x


Span = collections.namedtuple('Span', 'lo hi kind')


def sym_fp(ex, st, name, lo, hi, fmt, kind, anyv=False):
    key = symname(ex, st, name)
    if ex.real:
        if anyv:
            raise DomainError('unbounded float in real mode')
        if lo == hi:
            return lo
        if dom.TM[0]:
            # centred and scaled variable
            mid = (Fraction(lo) + Fraction(hi)) / 2
            rad = Fraction(hi) - mid
            v = VARS.new(key + '~', 'R', Fraction(-1), Fraction(1), key)
            setinput(ex, st, key, (kind, v.z * dom.zc(rad) + dom.zc(mid), Span(Fraction(lo), Fraction(hi), 'R')))
            return RV(dom.p_add(dom.p_scale(p_var(v), rad), dom.p_const(mid)), lo, hi, 0.0)
        v = VARS.new(ranged(key, Fraction(lo), Fraction(hi)), 'R', Fraction(lo), Fraction(hi), key)
        setinput(ex, st, key, (kind, v.z, v))
        return RV(p_var(v), lo, hi, 0.0)
    x = z3.FP(key, FSORT[fmt])
    ex.inputs[key] = (kind, x, None)
    if not anyv:
        s = FSORT[fmt]
        st.pc.append(z3.And(z3.fpGEQ(x, z3.FPVal(lo, s)), z3.fpLEQ(x, z3.FPVal(hi, s))))
    return x


def conc(x):
    if not isinstance(x, (int, float, Fraction)):
        raise DomainError('concrete value expected')
    return x


def call(ex, st, fr, ins, name, a):
    h = TABLE.get(name)
    if h is None:
        if name.startswith('llvm.'):
            h = intrinsic(name)
        if h is None:
            raise Inconclusive('call to unmodelled function ' + name)
        TABLE[name] = h
    r = h(ex, st, fr, ins, a)
    if isinstance(r, tuple) and len(r) == 2 and r[0] == 'fork':
        return r
    if ins.dst is not None:
        fr.regs[ins.dst] = r
    return None


# ---- harness API ------------------------------------------------------------
def api_int(w, signed, kind):
    def f(ex, st, fr, ins, a):
        lo, hi = conc(a[1]), conc(a[2])
        if signed:
            lo, hi = sgn(lo, w), sgn(hi, w)
        return sym_int(ex, st, cstr(ex, st, a[0]), lo, hi, w, signed, kind)
    return f


def api_fp(fmt, kind):
    def f(ex, st, fr, ins, a):
        return sym_fp(ex, st, cstr(ex, st, a[0]), conc(a[1]), conc(a[2]), fmt, kind)
    return f


def api_fp_any(fmt, kind):
    def f(ex, st, fr, ins, a):
        return sym_fp(ex, st, cstr(ex, st, a[0]), None, None, fmt, kind, True)
    return f


def api_bool(ex, c):
    if isinstance(c, int) and not isinstance(c, bool):
        return bool(c)
    if isinstance(c, z3.BitVecRef):
        return c != 0
    if isinstance(c, IV):
        return p_z3i(c.poly) != 0
    return c


def vassume(ex, st, fr, ins, a):
    c = api_bool(ex, a[0])
    if c is True:
        return
    if c is False:
        raise Stop()
    if isinstance(c, FB):
        c = c.mt
        if c is True:
            return
    if not ex.feasible(st, c):
        raise Stop()
    st.pc.append(c)


def reached(ex, st, ins, msg):
    if ex.o.get('blind'):
        ex.glance(st)
        return
    k = id(ins)
    s = ex.sites.get(k)
    if s is None:
        r, m = ex.check(st.pc, None, ex.o['assert_ms'])
        if r == z3.unsat:
            raise Stop()
        ex.sites[k] = s = [0, msg, str(r), ex.model_inputs(m, st) if m is not None else {}]
    elif s[2] != 'sat' and s[0] < 20:
        r, m = ex.check(st.pc, None, ex.o['assert_ms'])
        if r == z3.sat:
            s[2] = 'sat'
            s[3] = ex.model_inputs(m, st)
    s[0] += 1


def vassert(ex, st, fr, ins, a):
    c = api_bool(ex, a[0])
    msg = cstr(ex, st, a[1])
    reached(ex, st, ins, msg)
    ex.stats['asserts'] += 1
    ex.oblige(st, c, 'assert', msg)


def spots(ex, st, poly, t):
    """values of the independent variables of a polynomial where it is larger than t"""
    vs = sorted({v for m in poly for v in m})
    if len(vs) < 2 or len(vs) > 12 or any(ex.axby.get(v) for v in vs):
        return []
    vs = [VARS.v[v] for v in vs]
    if any(v.kind != 'R' or v.lo is None or v.hi is None for v in vs):
        return []
    rng = [ex.path_range(st, v) for v in vs]
    out = []
    for i in range(8):
        at = {}
        for k, (v, (lo, hi)) in enumerate(zip(vs, rng)):
            f = Fraction(1 + (3 * i + 5 * k * (i + 1)) % 16, 18)
            at[v.id] = Fraction(float(lo + (hi - lo) * f))
        s = 0
        for m, c in poly.items():
            for v in m:
                c = c * at[v]
            s += c
        if abs(s) > t:
            out.append([(v, at[v.id]) for v in vs])
            if len(out) >= 3:
                break
    return out


def vclose(ex, st, fr, ins, a):
    """|a-b| <= tol"""
    msg = cstr(ex, st, a[3])
    reached(ex, st, ins, msg)
    ex.stats['asserts'] += 1
    x, y, t = a[0], a[1], a[2]
    ld = ir.F['x86_fp80']
    for v in (x, y, t):
        if isinstance(v, float) and (v != v or abs(v) == INF):
            ex.oblige(st, False, 'assert', msg + ' (non-finite result)')
            return
    d = ex.fbin(st, 'fsub', x, y, ld)
    if isinstance(t, (Fraction, int)) and isinstance(d, Fraction):
        ex.oblige(st, abs(d) <= t, 'assert', msg)
        return
    if ex.o.get('blind'):
        return
    if isinstance(d, RV) and isinstance(t, Fraction):
        d = coarsen(d, t)
        if len(d.poly) > ex.o.get('maxmono', 400) or max(map(len, d.poly), default=0) > 2:
            r = dom.p_range(d.poly)
            hit = r is not None and max(-r[0], r[1]) + d.err <= t or within(ex, st, d.poly, t, Fraction(d.err))
            if hit is True:
                ex.stats['interval'] += 1
                ex.stats['obligations'] += 1
                return
            if os.environ.get('VDEBUG'):
                print('vclose', msg, 'range', r, 'err', d.err, 'tol', float(t), 'monomials', len(d.poly),
                      hit and (hit[0].name, float(hit[1])),
                      [list(map(float, ex.path_range(st, VARS.v[v]))) for v in set(v for mm in d.poly for v in mm)], file=sys.stderr)
            if hit:
                # the solver completes this value to an input
                x, val = hit
                n = len(ex.viol)
                ex.oblige(st, FB(z3.BoolVal(True), x.z == dom.zc(val)), 'assert', msg)
                if len(ex.viol) > n:
                    return
            for vals in spots(ex, st, d.poly, t + Fraction(d.err)):
                n = len(ex.viol)
                ex.oblige(st, FB(z3.BoolVal(True), z3.And([x.z == dom.zc(v) for x, v in vals])), 'assert', msg)
                if len(ex.viol) > n:
                    return
        if ex.o.get('debug') and os.environ.get('VCLOSE'):
            print('vclose', msg, 'terms', len(d.poly), 'range', dom.p_range(d.poly), 'err', float(d.err), 'tol', float(t), file=sys.stderr)
        for p in (d.poly, p_neg(d.poly)):
            z = p_z3(p)
            e = d.err
            if p_is_const(p) and not e:
                ex.oblige(st, p_cval(p) <= t, 'assert', msg)
                continue
            lim = dom.zc(t)
            E = Fraction(e)

            def rob(k, z=z):
                return z > dom.zc(t + E * Fraction(k))
            ex.oblige(st, FB(z3.BoolVal(True), z > dom.zc(t - E), rob), 'assert', msg)
        return
    c1 = ex.fcmp(st, 'ole', d, t, ld)
    c2 = ex.fcmp(st, 'ole', ex.fneg(d), t, ld)
    ex.oblige(st, c1, 'assert', msg)
    ex.oblige(st, c2, 'assert', msg)


def within(ex, st, poly, tol, err):
    """is |poly| <= tol-err proven over the variable's range on this path (one variable: branch and
    bound with exact Taylor shifts); else a value of the variable with |poly| > tol+err or False"""
    t = tol - err
    vs = set(v for m in poly for v in m)
    if len(vs) != 1 or t <= 0:
        return False
    x = VARS.v[vs.pop()]
    if x.lo is None or x.hi is None:
        return False
    c = [Fraction(0)] * (1 + max(map(len, poly)))
    for m, q in poly.items():
        c[len(m)] = q
    work = [tuple(ex.path_range(st, x))]
    left = 400
    while work:
        lo, hi = work.pop()
        mid, rad = (lo + hi) / 2, (hi - lo) / 2
        b = list(c)
        for i in range(len(b) - 1):
            for j in range(len(b) - 2, i - 1, -1):
                b[j] += mid * b[j + 1]
        # shorten the numbers, outward
        b = [dom.fl_hi(abs(q)) if i else q for i, q in enumerate(b)]
        bound = Fraction(0)
        for q in reversed(b[1:]):
            bound = Fraction(dom.fl_hi((bound + Fraction(q)) * rad))
        if abs(b[0]) + bound <= t:
            continue
        left -= 1
        if abs(b[0]) > tol + err:
            return x, mid
        if left < 0:
            return False
        work += [(lo, mid), (mid, hi)]
    return True


def coarsen(d, t):
    """round coefficients to few bits (difference charged to the error bound) so that the solver
    works with small rationals"""
    if t <= 0:
        return d
    tot = 0.0
    out = {}
    step = float(t) * 2.0 ** -24 / max(1, len(d.poly))
    for m, c in d.poly.items():
        mag = 1.0
        for v in m:
            x = VARS.v[v]
            if x.lo is None or x.hi is None:
                return d
            mag *= max(abs(float(x.lo)), abs(float(x.hi)))
        if mag == 0 or mag == INF:
            return d
        k = math.ceil(math.log2(mag / step)) if step else 0
        k = max(k, 0)
        n = round(c * (1 << k))
        q = Fraction(n, 1 << k)
        if q:
            out[m] = q
        if q != c:
            tot += 0.5000001 * 2.0 ** -k * mag * 1.0000001
    return RV(out, d.lo - tot, d.hi + tot, up(d.err + tot) if tot else d.err)


def vreach(ex, st, fr, ins, a):
    reached(ex, st, ins, 'reach: ' + cstr(ex, st, a[0]))


def vfail(ex, st, fr, ins, a):
    ex.oblige(st, False, 'abort', 'assertion inside the library failed or abort() called')
    raise Stop()


def vstop(ex, st, fr, ins, a):
    raise Stop()


# ---- integer intrinsics -----------------------------------------------------
def ty_w(ex, ins):
    return ex.mod.resolve(ins.ty).n


def i_abs(ex, st, fr, ins, a):
    w = ty_w(ex, ins)
    v = a[0]
    if isinstance(v, int):
        return abs(sgn(v, w)) & ((1 << w) - 1)
    if isinstance(v, IV):
        if v.lo >= 0:
            return v
        neg = ex.iv_bin(st, 'sub', 0, v, w, {'nsw'})
        if v.hi <= 0:
            return neg
        return fork(ex, st, ins, ex.icmp(st, 'sge', v, 0, ir.int_ty(w)), v, neg)
    return z3.If(v < 0, -v, v)


def fork(ex, st, ins, c, x, y):
    def put(v):
        def f(s):
            if ins.dst is not None:
                s.frames[-1].regs[ins.dst] = v
            s.frames[-1].ip += 1
        return f
    return ('fork', ex.branch(st, c, put(x), put(y)))


def i_minmax(pred):
    def f(ex, st, fr, ins, a):
        t = ex.mod.resolve(ins.ty)
        c = ex.icmp(st, pred, a[0], a[1], t)
        if isinstance(c, bool):
            return a[0] if c else a[1]
        if ex.real:
            return fork(ex, st, ins, c, a[0], a[1])
        return ex.ite_t(c, a[0], a[1], t)
    return f


def i_sadd_sat(ex, st, fr, ins, a):
    raise Inconclusive('saturating intrinsic')


# ---- memory -----------------------------------------------------------------
def m_memcpy(ex, st, fr, ins, a):
    n = a[2]
    if not isinstance(n, int):
        n = concretize(ex, st, n)
    ex.memcpy(st, a[0], a[1], n)
    return a[0]


def concretize(ex, st, n):
    """unique value of n on this path"""
    r, m = ex.check(st.pc, None)
    if m is None or not isinstance(n, z3.BitVecRef):
        raise Inconclusive('symbolic length')
    v = m.eval(n, model_completion=True).as_long()
    r, _ = ex.check(st.pc, n != v)
    if r != z3.unsat:
        raise Inconclusive('symbolic length')
    return v


def m_memset(ex, st, fr, ins, a):
    n = a[2]
    if not isinstance(n, int):
        n = concretize(ex, st, n)
    v = a[1]
    if isinstance(v, int):
        v &= 255
    elif isinstance(v, z3.BitVecRef) and v.size() > 8:
        v = z3.Extract(7, 0, v)
    ex.memset(st, a[0], v, n)
    return a[0]


def m_new(ex, st, fr, ins, a):
    n = a[0]
    if not isinstance(n, int):
        n = concretize(ex, st, n)
    st.heapn += 1
    k = fr.cnt.get('heap', 0)
    fr.cnt['heap'] = k + 1
    oid = ('h', fr.uid, id(ins), k)
    return ex.alloc(st, n, oid, 'heap block', heap=True)


def m_delete(ex, st, fr, ins, a):
    p = a[0]
    if isinstance(p, Ptr):
        if p == NULL:
            return
        o = st.mem.get(p.obj)
        if o is None or not o.heap or p.off != 0:
            ex.oblige(st, False, 'memory', 'delete of a bad pointer')
        del st.mem[p.obj]
        return
    raise Inconclusive('delete of symbolic pointer')


def nothing(ex, st, fr, ins, a):
    return 0


def guard_acquire(ex, st, fr, ins, a):
    v = ex.load(st, a[0], ir.I[8])
    if isinstance(v, int) and v == 0:
        return 1
    return 0


def guard_release(ex, st, fr, ins, a):
    ex.store(st, a[0], ir.I[8], 1)


# ---- floating point ---------------------------------------------------------
def fty(ex, ins):
    return ex.mod.resolve(ins.ty).name


def mpf(q):
    return mpmath.mpf(q.numerator) / mpmath.mpf(q.denominator)


def tm_unary(fname, v):
    if fname in taylor.FN:
        return taylor.apply(fname, v)
    if fname in ('log10', 'log2'):
        k = taylor.mpconst(lambda: 1 / mpmath.log(10 if fname == 'log10' else 2))
        return taylor.mul(taylor.apply('log', v), k)
    if fname == 'exp2':
        return taylor.apply('exp', taylor.mul(v, taylor.mpconst(lambda: mpmath.log(2))))
    if fname == 'tan':
        return taylor.div(taylor.apply('sin', v), taylor.apply('cos', v))
    return None


def tm_binary(ex, st, fname, x, y):
    if fname == 'atan2':
        x, y = to_rv(x), to_rv(y)
        if ex.o.get('quo') and (y.lo - y.err > 0 or y.hi + y.err < 0):
            q = taylor.apply('atan', ex.fdiv_rv(st, x, y, 'x86_fp80'))
            if y.lo > 0:
                return q
            pi = taylor.mpconst(lambda: +mpmath.pi)
            if x.lo - x.err > 0:
                return taylor.add(q, pi)
            if x.hi + x.err < 0:
                return taylor.add(q, pi, -1)
        return taylor.atan2(x, y)
    if fname == 'pow' and not isinstance(y, RV):
        y = Fraction(y)
        if y.denominator == 1 and 0 <= y <= 16:
            r = dom.rv_const(1)
            for _ in range(int(y)):
                r = taylor.mul(r, x)
            return r
        return taylor.apply('exp', taylor.mul(taylor.apply('log', x), dom.rv_const(y)))
    if fname == 'pow' and not isinstance(x, RV):
        with mpmath.workprec(taylor.PREC):
            k = dom.rv_const(taylor.fr(mpmath.log(taylor.mp(Fraction(x)))))
        return taylor.apply('exp', taylor.mul(y, k))
    if fname == 'hypot':
        x, y = (v if isinstance(v, RV) else dom.rv_const(Fraction(v)) for v in (x, y))
        return taylor.apply('sqrt', taylor.add(taylor.mul(x, x), taylor.mul(y, y)))
    return None


def tm_round(r, fmt):
    return dom._round(r.poly, r.lo, r.hi, up(r.err + (2 * dom.U[fmt] * r.mag() if fmt != 'x86_fp80' else 0.0)), fmt)


def unary(fname, mpfn, rvfn=None, fpfn=None):
    def f(ex, st, fr, ins, a):
        fmt = fty(ex, ins)
        v = a[0]
        if isinstance(v, RV) and dom.TM[0]:
            r = tm_unary(fname, v)
            if r is not None:
                return tm_round(r, fmt)
        if isinstance(v, RV):
            if rvfn is None:
                raise DomainError('%s of a symbolic value' % fname)
            return rvfn(ex, st, fr, ins, v, fmt)
        if isinstance(v, Fraction):
            with mpmath.workprec(120):
                r = mpfn(mpf(v))
                r = frac(mpmath.mpf(r))
            return r
        if isinstance(v, float):
            if fmt == 'x86_fp80':
                return getattr(math, fname)(v)
            return float(_libm(fname, 1, fmt == 'float')(v))
        if fpfn is None:
            raise DomainError('%s of an fp term' % fname)
        return fpfn(ex, v)
    return f


def binary(fname, mpfn, rvfn=None):
    def f(ex, st, fr, ins, a):
        fmt = fty(ex, ins)
        if any(isinstance(v, RV) for v in a) and dom.TM[0]:
            r = tm_binary(ex, st, fname, a[0], a[1])
            if r is not None:
                return tm_round(r, fmt)
        if any(isinstance(v, RV) for v in a):
            if rvfn is None:
                raise DomainError('%s of a symbolic value' % fname)
            return rvfn(ex, st, fr, ins, a[0], a[1], fmt)
        if all(isinstance(v, (Fraction, int)) for v in a):
            with mpmath.workprec(120):
                return frac(mpfn(mpf(Fraction(a[0])), mpf(Fraction(a[1]))))
        if all(isinstance(v, float) for v in a):
            return float(_libm(fname, 2, fmt == 'float')(*a))
        raise DomainError('%s of an fp term' % fname)
    return f


def f_fabs(ex, st, fr, ins, a):
    v = a[0]
    if isinstance(v, (float, Fraction)):
        return abs(v)
    if isinstance(v, RV):
        if v.lo - v.err >= 0:
            return v
        if v.hi + v.err <= 0:
            return rv_neg(v)
        c = ex.fcmp(st, 'oge', v, 0.0, ir.F['double'])
        return fork(ex, st, ins, c, v, rv_neg(v))
    return z3.fpAbs(v)


def rv_sqrt(ex, st, fr, ins, v, fmt):
    lo, hi = v.lo, v.hi
    if lo - v.err < 0:
        r = dom.p_range(v.poly) if len(v.poly) < 200 else None
        if r:
            lo = max(lo, r[0])
        # prove non-negativity of the exact term on this path
        if lo < 0:
            q, _ = ex.check(st.pc, p_z3(v.poly) < 0)
            if q == z3.unsat:
                lo = 0.0
    lo = max(lo, 0.0)
    key = ('sqrt', tuple(sorted(v.poly.items())))
    sl = math.nextafter(math.sqrt(lo), -INF) if lo > 0 else 0.0
    sh = math.nextafter(math.sqrt(max(hi, 0.0)), INF)
    var = ex.divcache.get(key)
    if var is None:
        var = ex.newvar('R', Fraction(max(sl, 0.0)), Fraction(sh), 'sqrt')
        ex.axiom(var, var.z * var.z == p_z3(v.poly))
        ex.rules[var.id] = v.poly
        ex.divcache[key] = var
    if v.err:
        # |sqrt(x+e)-sqrt(x)| <= min(sqrt(e), e/(sqrt(x)))
        e = math.sqrt(v.err) * (1 + 1e-12)
        if sl > 0:
            e = min(e, v.err / sl * (1 + 1e-12))
    else:
        e = 0.0
    return dom._round(p_var(var), sl, sh, e, fmt)


def f_sqrt_fp(ex, v):
    return z3.fpSqrt(RNE, v)


def sqrt_conc(ex, st, fr, ins, a):
    v = a[0]
    fmt = fty(ex, ins)
    if isinstance(v, float):
        if v < 0:
            return math.nan
        return rnd(fmt, math.sqrt(v)) if v == v else v
    return SQRT(ex, st, fr, ins, a)


SQRT = unary('sqrt', mpmath.sqrt, rv_sqrt, f_sqrt_fp)


def trig(ex, st, v):
    """(cos var, sin var) of the exact argument polynomial"""
    # canonical sign: treat arg and -arg alike
    items = tuple(sorted(v.poly.items()))
    neg = tuple(sorted(p_neg(v.poly).items()))
    flip = False
    if neg in ex.trigcache and items not in ex.trigcache:
        items = neg
        flip = True
    hit = ex.trigcache.get(items)
    if hit is None:
        lo, hi = v.lo, v.hi
        c = ex.newvar('R', Fraction(-1), Fraction(1), 'cos')
        s = ex.newvar('R', Fraction(-1), Fraction(1), 'sin')
        for x in (c, s):
            ex.axiom(x, c.z * c.z + s.z * s.z == 1)
        # interval enclosures of cos and sin on [lo,hi]
        cl, ch = cos_range(lo, hi)
        sl, sh = cos_range(lo - math.pi / 2, hi - math.pi / 2)
        c.lo, c.hi = Fraction(cl), Fraction(ch)
        s.lo, s.hi = Fraction(sl), Fraction(sh)
        ex.rules[max(c.id, s.id)] = p_sub(p_const(1), p_mul(p_var(c if c.id < s.id else s), p_var(c if c.id < s.id else s)))
        ex.trigcache[items] = hit = (c, s)
    return hit[0], hit[1], flip


def cos_range(lo, hi):
    e = 1e-12 * (1 + abs(lo) + abs(hi))
    if hi - lo >= 2 * math.pi - 1e-9:
        return -1.0, 1.0
    a, b = math.cos(lo), math.cos(hi)
    l, h = min(a, b), max(a, b)
    k = math.ceil((lo - 1e-9) / (2 * math.pi))
    if k * 2 * math.pi <= hi + 1e-9:
        h = 1.0
    k = math.ceil((lo - math.pi - 1e-9) / (2 * math.pi))
    if k * 2 * math.pi + math.pi <= hi + 1e-9:
        l = -1.0
    return max(-1.0, l - e), min(1.0, h + e)


def rv_cos(ex, st, fr, ins, v, fmt):
    c, s, flip = trig(ex, st, v)
    e = min(2.0, v.err) + dom.U[fmt] * 2
    return RV(p_var(c), float(c.lo), float(c.hi), up(e) if fmt != 'x86_fp80' or v.err else 0.0)


def rv_sin(ex, st, fr, ins, v, fmt):
    c, s, flip = trig(ex, st, v)
    e = min(2.0, v.err) + dom.U[fmt] * 2
    r = RV(p_var(s), float(s.lo), float(s.hi), up(e) if fmt != 'x86_fp80' or v.err else 0.0)
    return rv_neg(r) if flip else r


def rv_atan2(ex, st, fr, ins, y, x, fmt):
    """uninterpreted: the same exact arguments give the same angle"""
    ky, kx = (tuple(sorted(v.poly.items())) if isinstance(v, RV) else Fraction(v) for v in (y, x))
    if any(isinstance(v, RV) and v.err for v in (y, x)):
        raise DomainError('atan2 of a rounded symbolic value')
    hit = ex.trigcache.get(('atan2', ky, kx))
    if hit is None:
        hit = ex.newvar('R', Fraction(-314159266, 100000000), Fraction(314159266, 100000000), 'atan2')
        ex.trigcache[('atan2', ky, kx)] = hit
    return RV(p_var(hit), float(hit.lo), float(hit.hi), up(dom.U[fmt] * 8) if fmt != 'x86_fp80' else 0.0)


def rv_nearbyint(ex, st, fr, ins, v, fmt):
    lo, hi = v.lo - v.err, v.hi + v.err
    kl, kh = math.floor(lo + 0.5) - 1, math.ceil(hi - 0.5) + 1
    kl = max(kl, math.ceil(lo - 0.5 - 1e-9))
    kh = min(kh, math.floor(hi + 0.5 + 1e-9))
    if kl == kh:
        return float(kl)
    if ex.o.get('nfork') and kh - kl <= ex.o['nfork']:
        z = p_z3(v.poly)
        E = dom.zc(Fraction(1, 2) + Fraction(v.err))
        outs = []
        for n in range(kl, kh + 1):
            c = z3.And(z - n <= E, n - z <= E)
            if not ex.feasible(st, c):
                continue
            s = st.fork()
            s.pc.append(c)
            s.frames[-1].regs[ins.dst] = float(n)
            s.frames[-1].ip += 1
            outs.append(s)
        return ('fork', outs)
    key = ('nint', tuple(sorted(v.poly.items())), v.err)
    k = ex.divcache.get(key)
    if k is None:
        k = ex.newvar('I', kl, kh, 'nint')
        z = p_z3(v.poly)
        E = dom.zc(Fraction(1, 2) + Fraction(v.err))
        ex.axiom(k, z - k.zr <= E)
        ex.axiom(k, k.zr - z <= E)
        ex.divcache[key] = k
        ex.nints[k.id] = (v.poly, up(0.5 + v.err))
    return RV(p_var(k), float(kl), float(kh), 0.0)


def rv_floorish(mode):
    g = {'floor': math.floor, 'ceil': math.ceil, 'trunc': math.trunc}[mode]

    def cell(z, k, E):
        """condition on the exact value for the rounded one giving k"""
        if mode == 'floor' or mode == 'trunc' and k > 0:
            return z3.And(z >= k - E, z < k + 1 + E)
        if mode == 'ceil' or k < 0:
            return z3.And(z <= k + E, z > k - 1 - E)
        return z3.And(z > -1 - E, z < 1 + E)

    def f(ex, st, fr, ins, v, fmt):
        lo, hi = v.lo - v.err, v.hi + v.err
        if g(lo) == g(hi):
            return float(g(lo))
        z = p_z3(v.poly)
        E = dom.zc(Fraction(v.err))
        if g(hi) - g(lo) <= ex.o.get('f2i', 16) or mode == 'trunc':
            if g(hi) - g(lo) > 64:
                raise DomainError('trunc of a wide range')
            return fork_over(ex, st, ins, [(cell(z, k, E), float(k)) for k in range(g(lo), g(hi) + 1)])
        k = ex.newvar('I', g(lo), g(hi), mode)
        ex.axiom(k, cell(z, k.zr, E))
        return RV(p_var(k), float(g(lo)), float(g(hi)), 0.0)
    return f


def fork_over(ex, st, ins, cases):
    outs = []
    for c, v in cases:
        if not ex.feasible(st, c):
            continue
        s = st.fork()
        s.pc.append(c)
        s.frames[-1].regs[ins.dst] = v
        s.frames[-1].ip += 1
        outs.append(s)
    if not outs:
        raise Stop()
    ex.stats['forks'] += len(outs) - 1
    return ('fork', outs)


def rv_hypot(ex, st, fr, ins, x, y, fmt):
    """square root of the exact sum of squares; moving an argument moves the result no further"""
    x, y = (v if isinstance(v, RV) else dom.rv_const(Fraction(v)) for v in (x, y))
    X, Y = (RV(v.poly, v.lo, v.hi, 0.0) for v in (x, y))
    p = dom.p_add(p_mul(x.poly, x.poly), p_mul(y.poly, y.poly))
    sq = [(0.0 if v.lo <= 0 <= v.hi else min(v.lo * v.lo, v.hi * v.hi), max(v.lo * v.lo, v.hi * v.hi)) for v in (X, Y)]
    lo, hi = (sq[0][0] + sq[1][0]) * (1 - 1e-15), (sq[0][1] + sq[1][1]) * (1 + 1e-15)
    r = rv_sqrt(ex, st, fr, ins, RV(p, lo, hi, 0.0), fmt)
    if not isinstance(r, RV):
        if not x.err and not y.err:
            return r
        r = dom.rv_const(Fraction(r))
    e = r.err + x.err + y.err
    if fmt != 'x86_fp80':
        e += 2 * dom.U[fmt] * r.mag()
    return RV(r.poly, r.lo, r.hi, up(e) if e else 0.0)


def f_lround(fname, base):
    """rounding to an integer type"""
    def f(ex, st, fr, ins, a):
        v = a[0]
        w = ty_w(ex, ins)
        fmt = dom_fmt(ex, ins)
        if isinstance(v, float):
            k = round(v) if base == 'nearbyint' else math.floor(abs(v) + 0.5) * (1 if v >= 0 else -1)
            if base == 'round' and abs(v) < 0.5:
                k = 0
            return int(k) & ((1 << w) - 1)
        if isinstance(v, RV):
            r = rv_nearbyint(ex, st, fr, ins, v, fmt)
            if isinstance(r, tuple):
                for s in r[1]:
                    s.frames[-1].regs[ins.dst] = int(s.frames[-1].regs[ins.dst]) & ((1 << w) - 1)
                return r
            if isinstance(r, float):
                return int(r) & ((1 << w) - 1)
            return ex.iv_mk(st, r.poly, math.ceil(r.lo), math.floor(r.hi), w, True)
        if isinstance(v, z3.FPRef):
            return z3.fpToSBV(RNE if base == 'nearbyint' else z3.RNA(), v, z3.BitVecSort(w))
        raise DomainError('%s of this value' % fname)
    return f


def dom_fmt(ex, ins):
    t = ex.mod.resolve(ins.b[0][0])
    return t.name if hasattr(t, 'name') else 'double'


def i_count(kind):
    """leading or trailing zeros, set bits"""
    def f(ex, st, fr, ins, a):
        w = ty_w(ex, ins)
        v = a[0]
        if isinstance(v, int):
            v &= (1 << w) - 1
            if kind == 'ctpop':
                return bin(v).count('1')
            if kind == 'ctlz':
                return w - v.bit_length()
            return (v & -v).bit_length() - 1 if v else w
        if isinstance(v, z3.BitVecRef):
            bit = lambda i: z3.Extract(i, i, v) == 1
            r = z3.BitVecVal(0 if kind == 'ctpop' else w, w)
            if kind == 'ctpop':
                for i in range(w):
                    r = r + z3.ZeroExt(w - 1, z3.Extract(i, i, v)) if w > 1 else v
                return r
            for i in (range(w) if kind == 'ctlz' else range(w - 1, -1, -1)):
                r = z3.If(bit(i), z3.BitVecVal(w - 1 - i if kind == 'ctlz' else i, w), r)
            return r
        raise DomainError('%s of a symbolic value' % kind)
    return f


def m_memcmp(ex, st, fr, ins, a):
    n = a[2]
    if not isinstance(n, int):
        n = concretize(ex, st, n)
    t = ir.int_ty(8)
    if n and not all(isinstance(p, Ptr) for p in a[:2]):
        raise DomainError('memcmp through this pointer')
    xs = [[ex.load(st, Ptr(p.obj, ex.addoff(p.off, i)), t) for p in a[:2]] for i in range(n)]
    r = 0
    for x, y in reversed(xs):
        if isinstance(x, int) and isinstance(y, int):
            if x & 255 != y & 255:
                r = 1 if x & 255 > y & 255 else -1 & 0xffffffff
            continue
        if isinstance(x, IV) or isinstance(y, IV):
            raise DomainError('memcmp of symbolic values')
        x, y = (z3.BitVecVal(v, 8) if isinstance(v, int) else v for v in (x, y))
        if isinstance(r, int):
            r = z3.BitVecVal(r, 32)
        r = z3.If(x == y, r, z3.If(z3.ULT(x, y), z3.BitVecVal(-1, 32), z3.BitVecVal(1, 32)))
    return r


def rv_round(ex, st, fr, ins, v, fmt):
    # ties differ from nearbyint only at exact halves; the bracketing axioms cover both
    return rv_nearbyint(ex, st, fr, ins, v, fmt)


def f_ldexp(ex, st, fr, ins, a):
    v, e = a
    fmt = fty(ex, ins)
    if isinstance(e, IV):
        # fork over the exponent
        lo, hi = e.lo, e.hi
        if hi - lo > 64:
            raise DomainError('ldexp exponent range too large')
        outs = []
        z = p_z3i(e.poly)
        for k in range(lo, hi + 1):
            c = z == k
            if not ex.feasible(st, c):
                continue
            s = st.fork()
            s.pc.append(c)
            s.frames[-1].regs[ins.dst] = ldexp1(ex, st, v, k, fmt)
            s.frames[-1].ip += 1
            outs.append(s)
        if not outs:
            raise Stop()
        return ('fork', outs)
    if isinstance(e, z3.BitVecRef):
        raise DomainError('ldexp with symbolic exponent')
    return ldexp1(ex, st, v, sgn(e, 32), fmt)


def ldexp1(ex, st, v, k, fmt):
    if isinstance(v, float):
        try:
            return rnd(fmt, math.ldexp(v, k))
        except OverflowError:
            return math.copysign(INF, v)
    if isinstance(v, Fraction):
        return v * Fraction(2) ** k
    if isinstance(v, RV):
        q = Fraction(2) ** k
        m = max(abs(v.lo), abs(v.hi)) * 2.0 ** k
        e = v.err * 2.0 ** k
        if e or k < 0:
            e = up(e + dom.ETA[fmt])
        if fmt != 'x86_fp80' and m + e > dom.FMAX[fmt]:
            raise DomainError('ldexp overflow')
        return RV(p_scale(v.poly, q), v.lo * 2.0 ** k, v.hi * 2.0 ** k, e)
    raise DomainError('ldexp of fp term')


def f_frexp(ex, st, fr, ins, a):
    v, p = a
    fmt = fty(ex, ins)
    if isinstance(v, float):
        m, e = math.frexp(v) if v == v and abs(v) != INF else (v, 0)
        ex.store(st, p, ir.I[32], e & 0xffffffff)
        return m
    raise DomainError('frexp of symbolic value')


def f_minmax(lt):
    def f(ex, st, fr, ins, a):
        t = ex.mod.resolve(ins.ty)
        x, y = a
        c = ex.fcmp(st, 'olt' if lt else 'ogt', x, y, t)
        if isinstance(c, bool):
            return x if c else y
        if ex.real:
            return fork(ex, st, ins, c, x, y)
        s = FSORT[t.name]
        X, Y = ex.zf(x, s), ex.zf(y, s)
        return z3.If(z3.fpIsNaN(X), Y, z3.If(z3.fpIsNaN(Y), X, z3.If(c, X, Y)))
    return f


def f_copysign(ex, st, fr, ins, a):
    x, y = a
    if isinstance(x, float) and isinstance(y, float):
        return math.copysign(x, y)
    if isinstance(x, RV) or isinstance(y, RV):
        Y = to_rv(y)
        if isinstance(x, RV):
            raise DomainError('copysign of symbolic magnitude')
        c = ex.fcmp(st, 'oge', Y, 0.0, ir.F['double'])
        return fork(ex, st, ins, c, abs(x), -abs(x))
    t = ex.mod.resolve(ins.ty)
    s = FSORT[t.name]
    X, Y = ex.zf(x, s), ex.zf(y, s)
    ax = z3.fpAbs(X)
    neg = z3.Extract(s.ebits() + s.sbits() - 1, s.ebits() + s.sbits() - 1, z3.fpToIEEEBV(Y)) == 1
    return z3.If(neg, z3.fpNeg(ax), ax)


def f_muladd(ex, st, fr, ins, a):
    t = ex.mod.resolve(ins.ty)
    if all(isinstance(x, float) for x in a):
        if t.name == 'float':
            return rnd('float', a[0] * a[1] + a[2]) if False else frac_round(
                Fraction(a[0]) * Fraction(a[1]) + Fraction(a[2]), t.name)
        return frac_round(Fraction(a[0]) * Fraction(a[1]) + Fraction(a[2]), t.name)
    if any(isinstance(x, RV) for x in a):
        p = rv_mul(a[0], a[1], 'x86_fp80')
        r = rv_add(p, a[2], 'x86_fp80')
        return dom._round(r.poly, r.lo, r.hi, r.err, t.name)
    s = FSORT[t.name]
    return z3.fpFMA(RNE, *[ex.zf(x, s) for x in a])


def f_isfpclass(ex, st, fr, ins, a):
    v, mask = a
    if isinstance(v, RV):
        # finite, not nan/inf
        if mask & ~0x207 == 0:
            return False
        raise DomainError('is.fpclass')
    if isinstance(v, float):
        r = False
        if mask & 3 and v != v:
            r = True
        if mask & 0x4 and v == -INF or mask & 0x200 and v == INF:
            r = True
        if mask & ~0x207:
            raise DomainError('is.fpclass')
        return r
    out = []
    if mask & 3:
        out.append(z3.fpIsNaN(v))
    if mask & 0x204:
        out.append(z3.fpIsInf(v))
    return z3.Or(out)


def fp_round(mode):
    def f(ex, v):
        return z3.fpRoundToIntegral(mode, v)
    return f


def mp_nint(x):
    return mpmath.nint(x)


U_ = {
    'sin': unary('sin', mpmath.sin, rv_sin), 'cos': unary('cos', mpmath.cos, rv_cos),
    'tan': unary('tan', mpmath.tan), 'asin': unary('asin', mpmath.asin),
    'acos': unary('acos', mpmath.acos), 'atan': unary('atan', mpmath.atan),
    'sinh': unary('sinh', mpmath.sinh), 'cosh': unary('cosh', mpmath.cosh),
    'exp': unary('exp', mpmath.exp), 'exp2': unary('exp2', lambda x: mpmath.power(2, x)),
    'log': unary('log', mpmath.log), 'log2': unary('log2', lambda x: mpmath.log(x) / mpmath.log(2)),
    'log10': unary('log10', mpmath.log10), 'sqrt': sqrt_conc,
    'floor': unary('floor', mpmath.floor, rv_floorish('floor'), fp_round(z3.RTN())),
    'ceil': unary('ceil', mpmath.ceil, rv_floorish('ceil'), fp_round(z3.RTP())),
    'nearbyint': unary('nearbyint', mp_nint, rv_nearbyint, fp_round(z3.RNE())),
    'rint': unary('rint', mp_nint, rv_nearbyint, fp_round(z3.RNE())),
    'round': unary('round', lambda x: mpmath.sign(x) * mpmath.floor(abs(x) + mpmath.mpf(0.5)), rv_round,
                   fp_round(z3.RNA())),
    'trunc': unary('trunc', lambda x: mpmath.sign(x) * mpmath.floor(abs(x)), rv_floorish('trunc'), fp_round(z3.RTZ())),
    'fabs': f_fabs,
}
B_ = {'pow': binary('pow', mpmath.power), 'atan2': binary('atan2', mpmath.atan2, rv_atan2),
      'hypot': binary('hypot', mpmath.hypot, rv_hypot), 'fmod': binary('fmod', mpmath.fmod),
      'ldexp': f_ldexp, 'scalbn': f_ldexp, 'frexp': f_frexp, 'copysign': f_copysign,
      'fmin': f_minmax(True), 'fmax': f_minmax(False)}

TABLE = {
    'vs_i8': api_int(8, True, 'i8'), 'vs_i16': api_int(16, True, 'i16'),
    'vs_i32': api_int(32, True, 'i32'), 'vs_i64': api_int(64, True, 'i64'),
    'vs_u8': api_int(8, False, 'i8'), 'vs_u16': api_int(16, False, 'i16'),
    'vs_u32': api_int(32, False, 'i32'), 'vs_u64': api_int(64, False, 'i64'),
    'vs_f16': api_fp('half', 'f16'), 'vs_f32': api_fp('float', 'f32'), 'vs_f64': api_fp('double', 'f64'),
    'vs_f16_any': api_fp_any('half', 'f16'), 'vs_f32_any': api_fp_any('float', 'f32'),
    'vs_f64_any': api_fp_any('double', 'f64'),
    'vassume': vassume, 'vassert_': vassert, 'vclose_': vclose, 'vreach': vreach, 'vfail': vfail,
    '__assert_fail': vfail, 'abort': vfail, 'exit': vstop, '_exit': vstop,
    'memcpy': m_memcpy, 'memmove': m_memcpy, 'memset': m_memset, 'memcmp': m_memcmp, 'bcmp': m_memcmp,
    '_Znwm': m_new, '_Znam': m_new, 'malloc': m_new, '_ZdlPv': m_delete, '_ZdaPv': m_delete,
    '_ZdlPvm': m_delete, '_ZdaPvm': m_delete, 'free': m_delete,
    '__cxa_guard_acquire': guard_acquire, '__cxa_guard_release': guard_release,
    '__cxa_atexit': nothing, 'abs': i_abs, 'labs': i_abs, 'llabs': i_abs,
    '__cxa_pure_virtual': vfail,
}
for n, h in U_.items():
    for suf in ('', 'f', 'l'):
        TABLE[n + suf] = h
for n, h in B_.items():
    for suf in ('', 'f', 'l'):
        TABLE[n + suf] = h
for n in ('lrint', 'llrint', 'lround', 'llround'):
    for suf in ('', 'f', 'l'):
        TABLE[n + suf] = f_lround(n, 'nearbyint' if n.endswith('rint') else 'round')


def intrinsic(name):
    p = name.split('.')
    k = p[1]
    if k in ('dbg', 'lifetime', 'assume', 'experimental', 'donothing', 'invariant', 'stackrestore'):
        return nothing
    if k == 'stacksave':
        return lambda *x: NULL
    if k == 'memcpy' or k == 'memmove':
        return m_memcpy
    if k == 'memset':
        return m_memset
    if k == 'abs':
        return i_abs
    if k in ('ctlz', 'cttz', 'ctpop'):
        return i_count(k)
    if k in ('lrint', 'llrint', 'lround', 'llround'):
        return TABLE[k]
    if k in ('smin', 'smax', 'umin', 'umax'):
        return i_minmax({'smin': 'slt', 'smax': 'sgt', 'umin': 'ult', 'umax': 'ugt'}[k])
    if k in U_:
        return U_[k]
    if k in ('pow', 'copysign', 'ldexp'):
        return B_[k]
    if k in ('minnum', 'maxnum'):
        return f_minmax(k == 'minnum')
    if k in ('fmuladd', 'fma'):
        return f_muladd
    if name.startswith('llvm.is.fpclass'):
        return f_isfpclass
    if name.startswith('llvm.is.constant'):
        return lambda *x: False
    if k == 'trap':
        return vfail
    if k == 'expect':
        return lambda ex, st, fr, ins, a: a[0]
    return None
