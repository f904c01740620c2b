"""Value domains.

Integers     : Python int (concrete) | z3 BitVec ('bv' ints) | IV (mathematical integer with an
               explicit no-overflow obligation per operation, 'math' ints)
Booleans     : bool | z3 Bool | FB (comparison of two rounded quantities: may-be-true / may-be-false)
float/double : Python float (concrete, IEEE exact) | z3 FP term (bit exact) | RV

RV is the rounding-error abstraction: the machine value v satisfies |v - poly| <= err, where poly
is an exact polynomial over the symbolic inputs (and auxiliary solver variables with defining
constraints) and err is an outward-rounded bound derived from the IEEE-754 model
fl(a op b) = (a op b)(1+d)+e, |d| <= u, |e| <= eta.  x86_fp80 is used only by oracles and is
evaluated exactly (no rounding is charged)."""

import math
from fractions import Fraction
import z3

UP = 1.0 + 2.0 ** -40
TINY = 5e-324

U = {'half': 2.0 ** -11, 'float': 2.0 ** -24, 'double': 2.0 ** -53, 'x86_fp80': 0.0}
ETA = {'half': 2.0 ** -25, 'float': 2.0 ** -150, 'double': TINY, 'x86_fp80': 0.0}
FMAX = {'half': 65504.0, 'float': 3.4028234663852886e38, 'double': 1.7976931348623157e308,
        'x86_fp80': float('inf')}
PREC = {'half': 2 ** 11, 'float': 2 ** 24, 'double': 2 ** 53, 'x86_fp80': 10 ** 400}


def up(x):
    """outward (upward) bound of a non-negative quantity computed in double"""
    return x * UP + TINY if x else 0.0


def fl_lo(q):
    f = float(q)
    if Fraction(f) > q:
        f = math.nextafter(f, -math.inf)
    return f


def fl_hi(q):
    f = float(q)
    if Fraction(f) < q:
        f = math.nextafter(f, math.inf)
    return f


class Var:
    __slots__ = ('id', 'name', 'kind', 'lo', 'hi', 'z', 'zr', 'inp')

    def __init__(self, id, name, kind, lo, hi, inp=None):
        self.id = id
        self.name = name
        self.kind = kind
        self.lo = lo      # Fraction / int bounds or None
        self.hi = hi
        self.inp = inp
        if kind == 'I':
            self.z = z3.Int(name)
            self.zr = z3.ToReal(self.z)
        else:
            self.z = self.zr = z3.Real(name)


class Vars:
    def __init__(self):
        self.v = []
        self.byname = {}

    def new(self, name, kind, lo=None, hi=None, inp=None):
        if name in self.byname:
            return self.byname[name]
        x = Var(len(self.v), name, kind, lo, hi, inp)
        self.v.append(x)
        self.byname[name] = x
        return x

    def constraints(self, ids=None):
        out = []
        for x in self.v:
            if ids is not None and x.id not in ids:
                continue
            if x.lo is not None:
                out.append(x.z >= zc(x.lo, x.kind))
            if x.hi is not None:
                out.append(x.z <= zc(x.hi, x.kind))
        return out


def zc(q, kind='R'):
    if kind == 'I':
        return z3.IntVal(int(q))
    q = Fraction(q)
    if q.denominator == 1:
        return z3.RealVal(q.numerator)
    return z3.Q(q.numerator, q.denominator)


VARS = Vars()


# ---- polynomials: dict mono -> Fraction ------------------------------------
def p_const(c):
    c = Fraction(c)
    return {(): c} if c else {}


def p_var(v):
    return {(v.id,): Fraction(1)}


def p_add(a, b):
    if len(a) < len(b):
        a, b = b, a
    r = dict(a)
    for m, c in b.items():
        s = r.get(m)
        if s is None:
            r[m] = c
        else:
            s = s + c
            if s:
                r[m] = s
            else:
                del r[m]
    return r


def p_neg(a):
    return {m: -c for m, c in a.items()}


def p_sub(a, b):
    r = dict(a)
    for m, c in b.items():
        s = r.get(m)
        if s is None:
            r[m] = -c
        else:
            s = s - c
            if s:
                r[m] = s
            else:
                del r[m]
    return r


def p_scale(a, k):
    if not k:
        return {}
    return {m: c * k for m, c in a.items()}


def p_mul(a, b):
    if len(a) == 1 and () in a:
        return p_scale(b, a[()])
    if len(b) == 1 and () in b:
        return p_scale(a, b[()])
    r = {}
    for ma, ca in a.items():
        for mb, cb in b.items():
            m = tuple(sorted(ma + mb)) if ma and mb else (ma or mb)
            c = ca * cb
            s = r.get(m)
            if s is None:
                r[m] = c
            else:
                s += c
                if s:
                    r[m] = s
                else:
                    del r[m]
    return r


def p_is_const(a):
    return not a or (len(a) == 1 and () in a)


def p_cval(a):
    return a.get((), Fraction(0))


def p_vars(a):
    s = set()
    for m in a:
        s.update(m)
    return s


def p_integral(a):
    for m, c in a.items():
        if c.denominator != 1:
            return False
        for v in m:
            if VARS.v[v].kind != 'I':
                return False
    return True


def p_range(a):
    """interval enclosure [lo,hi] as floats (outward); None if some var is unbounded"""
    lo = hi = 0.0
    for m, c in a.items():
        l = h = 1.0
        i = 0
        while i < len(m):
            v = VARS.v[m[i]]
            e = 1
            while i + e < len(m) and m[i + e] == m[i]:
                e += 1
            i += e
            if v.lo is None or v.hi is None:
                return None
            vl, vh = fl_lo(Fraction(v.lo)), fl_hi(Fraction(v.hi))
            if e % 2 == 0:
                if vl >= 0:
                    pl, ph = vl ** e, vh ** e
                elif vh <= 0:
                    pl, ph = vh ** e, vl ** e
                else:
                    pl, ph = 0.0, max(-vl, vh) ** e
            else:
                pl, ph = vl ** e, vh ** e
            pl = pl - abs(pl) * 2.0 ** -48
            ph = ph + abs(ph) * 2.0 ** -48
            cs = (l * pl, l * ph, h * pl, h * ph)
            l, h = min(cs), max(cs)
            l -= abs(l) * 2.0 ** -50
            h += abs(h) * 2.0 ** -50
        cf = float(c)
        t = (l * cf, h * cf)
        l, h = min(t), max(t)
        l -= abs(l) * 2.0 ** -50 + 1e-320
        h += abs(h) * 2.0 ** -50 + 1e-320
        lo += l
        hi += h
        lo -= abs(lo) * 2.0 ** -50
        hi += abs(hi) * 2.0 ** -50
    return lo, hi


def p_z3(a):
    """z3 Real term"""
    if not a:
        return z3.RealVal(0)
    ts = []
    for m, c in a.items():
        if not m:
            ts.append(zc(c))
            continue
        t = None
        for v in m:
            x = VARS.v[v].zr
            t = x if t is None else t * x
        if c != 1:
            t = zc(c) * t
        ts.append(t)
    if len(ts) == 1:
        return ts[0]
    return z3.Sum(ts)


def p_z3i(a):
    """z3 Int term (integral polynomials)"""
    if not a:
        return z3.IntVal(0)
    ts = []
    for m, c in a.items():
        if not m:
            ts.append(z3.IntVal(int(c)))
            continue
        t = None
        for v in m:
            x = VARS.v[v].z
            t = x if t is None else t * x
        if c != 1:
            t = int(c) * t
        ts.append(t)
    if len(ts) == 1:
        return ts[0]
    return z3.Sum(ts)


TM = [False]     # Taylor model mode
TMBITS = [62]    # relative precision of expansions


class FB:
    """fuzzy boolean: mt = may be true, mf = may be false (z3 Bools)"""
    __slots__ = ('mt', 'mf', 'rob')

    def __init__(self, mt, mf, rob=None):
        self.mt = mt
        self.mf = mf
        self.rob = rob      # function(factor) -> stronger falsity condition, for robust models


class IV:
    """mathematical integer of a given machine width, signed interpretation in [lo,hi]"""
    __slots__ = ('poly', 'lo', 'hi', 'w')

    def __init__(self, poly, lo, hi, w):
        self.poly = poly
        self.lo = lo
        self.hi = hi
        self.w = w


class RV:
    __slots__ = ('poly', 'lo', 'hi', 'err')

    def __init__(self, poly, lo, hi, err):
        self.poly = poly
        self.lo = lo
        self.hi = hi
        self.err = err

    def mag(self):
        return max(abs(self.lo), abs(self.hi))

    def __repr__(self):
        return 'RV(%d monos, [%g,%g], err=%g)' % (len(self.poly), self.lo, self.hi, self.err)


def rv_const(c):
    q = c if isinstance(c, Fraction) else Fraction(c)
    return RV(p_const(q), fl_lo(q), fl_hi(q), 0.0)


def to_rv(x):
    if isinstance(x, RV):
        return x
    if isinstance(x, float):
        if x != x or x in (math.inf, -math.inf):
            raise DomainError('non-finite constant meets symbolic real')
        return rv_const(x)
    if isinstance(x, Fraction):
        return rv_const(x)
    raise DomainError('not a real: %r' % (x,))


class DomainError(Exception):
    pass


def _tighten(poly, lo, hi, limit=120):
    if len(poly) <= limit:
        r = p_range(poly)
        if r is not None:
            lo = max(lo, r[0])
            hi = min(hi, r[1])
            if lo > hi:
                lo, hi = min(lo, hi), max(lo, hi)
    return lo, hi


def _round(poly, lo, hi, err, fmt, exact=False):
    """charge the rounding of one operation"""
    if fmt == 'x86_fp80' or exact:
        return RV(poly, lo, hi, err)
    if not poly and err == 0.0:
        return RV(poly, 0.0, 0.0, 0.0)
    m = max(abs(lo), abs(hi)) + err
    if err == 0.0 and m <= PREC[fmt] and p_integral(poly):
        return RV(poly, lo, hi, 0.0)
    e = up(err + up(U[fmt] * up(m)) + ETA[fmt])
    if m + e > FMAX[fmt]:
        raise DomainError('possible overflow of %s (|v| up to %g)' % (fmt, m))
    return RV(poly, lo, hi, e)


def rounding(m, fmt):
    """error of rounding a value of at most this magnitude"""
    return up(up(U[fmt] * up(m)) + ETA[fmt])


def _out(lo, hi):
    return lo - abs(lo) * 2.0 ** -50 - TINY, hi + abs(hi) * 2.0 ** -50 + TINY


def rv_add(a, b, fmt, sub=False):
    a = to_rv(a)
    b = to_rv(b)
    if sub:
        poly = p_sub(a.poly, b.poly)
        lo, hi = _out(a.lo - b.hi, a.hi - b.lo)
    else:
        poly = p_add(a.poly, b.poly)
        lo, hi = _out(a.lo + b.lo, a.hi + b.hi)
    err = up(a.err + b.err)
    exact = False
    if (not a.poly and a.err == 0.0) or (not b.poly and b.err == 0.0):
        exact = True
    lo, hi = _tighten(poly, lo, hi)
    return _round(poly, lo, hi, err, fmt, exact)


def _pow2(v):
    if not p_is_const(v.poly) or v.err:
        return False
    c = abs(p_cval(v.poly))
    if not c:
        return True
    n, d = c.numerator, c.denominator
    return (n & (n - 1)) == 0 and (d & (d - 1)) == 0


def rv_mul(a, b, fmt):
    same = a is b
    a = to_rv(a)
    b = to_rv(b)
    c = (a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi)
    te = 0.0
    if TM[0] and len(a.poly) * len(b.poly) > 60 and 1e-250 < max(map(abs, c)) < 1e250:
        from . import taylor
        poly, te = taylor.pmul(a.poly, b.poly, max(map(abs, c)) * 2.0 ** -(TMBITS[0] + 13))
    else:
        poly = p_mul(a.poly, b.poly)
    lo, hi = min(c), max(c)
    if same or (a.poly == b.poly):
        lo = max(lo, 0.0) if lo < 0 else lo
    lo, hi = _out(lo, hi)
    if same and lo < 0:
        lo = 0.0
    err = up(up(a.mag() * b.err) + up(b.mag() * a.err) + up(a.err * b.err))
    if te:
        err = up(err + te)
    exact = (_pow2(a) or _pow2(b))
    if TM[0] and len(poly) > 8 and max(abs(lo), abs(hi)) < 1e250:
        from . import taylor
        poly, e = taylor.trim(poly, max(abs(lo), abs(hi), 1e-290) * 2.0 ** -(TMBITS[0] + 13))
        err = up(err + e)
    lo, hi = _tighten(poly, lo, hi)
    r = _round(poly, lo, hi, err, fmt, exact)
    if exact and fmt != 'x86_fp80' and r.poly:
        if r.err:
            r.err = up(r.err + ETA[fmt])
        else:
            r.err = 0.0 if r.err == 0.0 and _safe_scale(a, b) else ETA[fmt]
        if r.mag() + r.err > FMAX[fmt]:
            raise DomainError('possible overflow')
    return r


def _safe_scale(a, b):
    """scaling by a power of two >= 1 never loses bits"""
    for v in (a, b):
        if p_is_const(v.poly) and not v.err and abs(p_cval(v.poly)) >= 1:
            return True
    return False


def rv_neg(a):
    return RV(p_neg(a.poly), -a.hi, -a.lo, a.err)


def iv_const(c, w):
    return IV(p_const(c), c, c, w)
