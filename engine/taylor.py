"""Taylor models: elementary functions of polynomials over boxes, with rigorous remainders.

A value is a polynomial in input variables centred at zero plus an error bound.  A function f of
such a value is expanded around the constant term; the truncated tail, dropped monomials and
shortened coefficients are all charged to the error bound."""
import math
from fractions import Fraction

import mpmath

from . import dom
from .dom import VARS, RV, p_add, p_mul, p_scale, up, DomainError

PREC = 200


def fr(x):
    """exact Fraction of an mpf"""
    sign, man, exp, _ = x._mpf_
    return Fraction(-int(man) if sign else int(man)) * Fraction(2) ** exp


def mp(q):
    q = Fraction(q)
    return mpmath.mpf(q.numerator) / mpmath.mpf(q.denominator)


def magnitude(m):
    mag = 1.0
    for v in m:
        x = VARS.v[v]
        if x.lo is None or x.hi is None:
            raise DomainError('unbounded variable')
        mag *= max(abs(float(x.lo)), abs(float(x.hi))) * (1 + 2.0 ** -50)
    return mag


def trim(poly, theta):
    """drop monomials below theta and shorten coefficients; returns poly, error"""
    out = {}
    err = 0.0
    for m, c in poly.items():
        g = magnitude(m)
        b = abs(float(c)) * g * (1 + 2.0 ** -50)
        if not b < math.inf:
            raise DomainError('unbounded monomial')
        if b < theta and m:
            err += b
            continue
        if c.denominator.bit_length() > 200 and g > 0:
            k = max(0, math.ceil(math.log2(g) + 4 - math.log2(theta)))
            n = round(c * (1 << k))
            err += math.ldexp(g, -k)
            c = Fraction(n, 1 << k)
            if not n:
                continue
        out[m] = c
    return out, up(err * (1 + 1e-12))


MAG = {}
JOIN = {}


def mag(m):
    g = MAG.get(m)
    if g is None:
        g = MAG[m] = magnitude(m)
    return g


def scaled(poly, k):
    """coefficients as multiples of 2^-k, largest first, and the error of rounding them"""
    out = []
    err = 0.0
    one = 1 << k
    for m, c in poly.items():
        n = (2 * c.numerator * one + c.denominator) // (2 * c.denominator)
        g = mag(m)
        if n * c.denominator != c.numerator * one:
            err += g
        if n:
            out.append((math.ldexp(abs(n) * 1.0, -k) * g if abs(n) < 1 << 900 else math.inf, m, n))
    out.sort(key=lambda t: t[0], reverse=True)
    return out, math.ldexp(err, -k - 1) * (1 + 1e-9)


def pmul(a, b, theta):
    """product without monomials below theta; returns poly, error"""
    fa = fb = 0.0
    for m, c in a.items():
        fa += abs(float(c)) * mag(m)
    for m, c in b.items():
        fb += abs(float(c)) * mag(m)
    if not (fa < 1e200 and fb < 1e200) or theta <= 1e-280:
        return trim(p_mul(a, b), theta)
    ga = sum(map(mag, a))
    gb = sum(map(mag, b))
    # rounding of one factor times the other stays below theta / 16
    ka = max(0, math.ceil(math.log2(ga * (fb + 1e-300) / theta + 1)) + 4)
    kb = max(0, math.ceil(math.log2(gb * (fa + 1e-300) / theta + 1)) + 4)
    la, ea = scaled(a, ka)
    lb, eb = scaled(b, kb)
    fa *= 1 + 1e-9
    fb *= 1 + 1e-9
    err = ea * fb + eb * fa + ea * eb
    suffix = [0.0] * (len(lb) + 1)
    for i in range(len(lb) - 1, -1, -1):
        suffix[i] = suffix[i + 1] + lb[i][0]
    tiny = theta / (16.0 * max(1, len(la)))
    r = {}
    for wa, ma, na in la:
        for i, (wb, mb, nb) in enumerate(lb):
            if wa * suffix[i] < tiny:
                err += wa * suffix[i] * (1 + 1e-9)
                break
            j = (ma, mb)
            m = JOIN.get(j)
            if m is None:
                m = JOIN[j] = tuple(sorted(ma + mb))
            r[m] = r.get(m, 0) + na * nb
    k = ka + kb
    one = 1 << k
    out = {}
    for m, n in r.items():
        if not n:
            continue
        b_ = abs(n / one) * mag(m) * (1 + 1e-12)
        if b_ < theta and m:
            err += b_
            continue
        # shorten
        g = mag(m)
        if g > 0:
            q = max(0, math.ceil(math.log2(g) + 8 - math.log2(theta)))
            if q < k:
                n2 = (n + (1 << (k - q - 1))) >> (k - q)
                err += math.ldexp(g, -q)
                if n2:
                    out[m] = Fraction(n2, 1 << q)
                continue
        out[m] = Fraction(n, one)
    return out, up(err * (1 + 1e-9))


def split(poly):
    a0 = poly.get((), Fraction(0))
    u = {m: c for m, c in poly.items() if m}
    r = dom.p_range(u)
    if r is None:
        raise DomainError('unbounded variable')
    return a0, u, max(-r[0], r[1], 0.0)


def compose(poly, coef, rem, scale=None):
    """polynomial of f(poly) and error; coef(a0, k) k-th Taylor coefficient, rem(a0, rho, n) bound
    of the tail from order n"""
    a0, u, rho = split(poly)
    with mpmath.workprec(PREC):
        a = mp(a0)
        c0 = coef(a, 0)
        sc = float(abs(c0)) + float(abs(coef(a, 1))) * rho
        sc = max(sc, 1e-30)
        n = 2
        while n < 130 and rem(float(a0), rho, n) > sc * 2.0 ** -dom.TMBITS[0]:
            n += 1
        tail = rem(float(a0), rho, n)
        # in powers of u / rho
        r0 = mp(Fraction(rho)) if rho else mpmath.mpf(1)
        cs = [fr(coef(a, k) * r0 ** k) for k in range(n)]
    if rho:
        u = p_scale(u, 1 / Fraction(rho))
    theta = sc * 2.0 ** -(dom.TMBITS[0] + 4)
    err = 0.0
    r = {}
    for k in range(n - 1, -1, -1):
        if r:
            r, e = pmul(r, u, theta)
            err += e * (1 + 1e-12)
        r = p_add(r, {(): cs[k]} if cs[k] else {})
    r, e = trim(r, theta)
    return r, up((tail + err + e + sc * 2.0 ** -100) * (1 + 1e-12))


def ratio(a0, rho):
    x = rho / abs(a0) * (1 + 1e-12) if a0 else 2.0
    if x > 0.72:
        raise DomainError('expansion does not converge (%g around %g)' % (rho, a0))
    return x


def f_inv():
    def coef(a, k):
        return (-1) ** k / a ** (k + 1)

    def rem(a, rho, n):
        x = ratio(a, rho)
        return x ** n / (abs(a) * (1 - x)) * (1 + 1e-9)
    return coef, rem


def f_sqrt():
    def coef(a, k):
        return mpmath.binomial(mpmath.mpf(1) / 2, k) * mpmath.sqrt(a) / a ** k

    def rem(a, rho, n):
        if a <= 0:
            raise DomainError('square root not bounded away from zero')
        x = ratio(a, rho)
        return math.sqrt(a) * x ** n / (1 - x) * (1 + 1e-9)
    return coef, rem


def f_exp():
    def coef(a, k):
        return mpmath.exp(a) / mpmath.factorial(k)

    def rem(a, rho, n):
        return math.exp(min(a + rho, 700)) * rho ** n / math.factorial(n) * (1 + 1e-9)
    return coef, rem


def f_log():
    def coef(a, k):
        return mpmath.log(a) if k == 0 else (-1) ** (k + 1) / (k * a ** k)

    def rem(a, rho, n):
        if a <= 0:
            raise DomainError('logarithm not bounded away from zero')
        x = ratio(a, rho)
        return x ** n / (n * (1 - x)) * (1 + 1e-9)
    return coef, rem


def f_trig(shift):
    def coef(a, k):
        return mpmath.sin(a + (k + shift) * mpmath.pi / 2) / mpmath.factorial(k)

    def rem(a, rho, n):
        return rho ** n / math.factorial(n) * (1 + 1e-9)
    return coef, rem


def f_atan():
    def coef(a, k):
        if k == 0:
            return mpmath.atan(a)
        # derivatives of atan: c_k = (-1)^(k-1) sin(k theta) / (k R^k), theta = atan2(1, a)
        th = mpmath.atan2(1, a)
        return (-1) ** (k - 1) * mpmath.sin(k * th) / (k * mpmath.sqrt(1 + a * a) ** k)

    def rem(a, rho, n):
        x = rho / math.sqrt(1 + a * a) * (1 + 1e-12)
        if x > 0.72:
            raise DomainError('expansion does not converge')
        return x ** n / (n * (1 - x)) * (1 + 1e-9)
    return coef, rem


def box(poly):
    r = dom.p_range(poly)
    if r is None:
        raise DomainError('unbounded variable')
    return r


def lip(name, lo, hi):
    """bound of |f'| on [lo,hi]"""
    if name == 'exp':
        return math.exp(min(hi, 700)) * (1 + 1e-9)
    if name in ('sin', 'cos', 'atan'):
        return 1.0
    mn = min(abs(lo), abs(hi)) if lo * hi > 0 else 0.0
    if mn <= 0:
        raise DomainError('%s not bounded away from its pole' % name)
    if name == 'inv':
        return 1 / (mn * mn) * (1 + 1e-9)
    if lo <= 0:
        raise DomainError('%s of a possibly negative value' % name)
    if name == 'sqrt':
        return 0.5 / math.sqrt(lo) * (1 + 1e-9)
    if name == 'log':
        return 1 / lo * (1 + 1e-9)
    raise DomainError(name)


FN = {'inv': f_inv(), 'sqrt': f_sqrt(), 'exp': f_exp(), 'log': f_log(), 'sin': f_trig(0), 'cos': f_trig(1),
      'atan': f_atan()}


def apply(name, v):
    """RV -> RV, without the rounding of the result"""
    lo, hi = v.lo, v.hi
    r = box(v.poly)
    lo, hi = max(lo, r[0]), min(hi, r[1])
    e0 = up(lip(name, lo - v.err, hi + v.err) * v.err) if v.err else 0.0
    try:
        poly, e = compose(v.poly, *FN[name])
    except DomainError:
        if name != 'atan':
            raise
        # monotone: enclosure
        a, b = math.atan(lo) * (1 - 1e-15 if lo > 0 else 1 + 1e-15), math.atan(hi) * (1 + 1e-15 if hi > 0 else 1 - 1e-15)
        if lo > 1e10:
            # pi/2 - 1/x .. pi/2
            c = mpconst(lambda: mpmath.pi / 2)
            return RV(c.poly, c.lo, c.hi, up(e0 + 1.0001 / lo))
        if hi < -1e10:
            c = mpconst(lambda: -mpmath.pi / 2)
            return RV(c.poly, c.lo, c.hi, up(e0 - 1.0001 / hi))
        c = dom.rv_const(Fraction((a + b) / 2))
        return RV(c.poly, c.lo, c.hi, up(e0 + (b - a) / 2 * (1 + 1e-9)))
    r = box(poly)
    return RV(poly, r[0], r[1], up(e0 + e))


def mul(a, b):
    m = max(a.mag() * b.mag(), 1e-290)
    poly, e = pmul(a.poly, b.poly, m * 2.0 ** -(dom.TMBITS[0] + 10))
    r = box(poly)
    err = up(a.mag() * b.err + b.mag() * a.err + a.err * b.err + e)
    return RV(poly, r[0], r[1], err)


def add(a, b, s=1):
    poly = p_add(a.poly, p_scale(b.poly, Fraction(s)))
    r = box(poly)
    return RV(poly, r[0], r[1], up(a.err + abs(s) * b.err))


def const(c):
    with mpmath.workprec(PREC):
        q = fr(mpmath.mpf(c)) if not isinstance(c, Fraction) else c
    return dom.rv_const(q)


def mpconst(fn):
    with mpmath.workprec(PREC):
        return dom.rv_const(fr(fn()))


def div(a, b):
    return mul(a, apply('inv', b))


def atan2(y, x):
    yl, yh, xl, xh = y.lo - y.err, y.hi + y.err, x.lo - x.err, x.hi + x.err
    if xl > 0 or yl > 0 or yh < 0:
        # turn the centre of the box onto the positive axis
        xm, ym = (xl + xh) / 2, (yl + yh) / 2
        s = max(abs(xm), abs(ym))
        c, d = Fraction(round(xm / s * 4096), 4096), Fraction(round(ym / s * 4096), 4096)
        cr, ci = const(c), const(d)
        dot = add(mul(x, cr), mul(y, ci))
        crs = add(mul(y, cr), mul(x, ci), -1)
        ang = mpconst(lambda: mpmath.atan2(mpmath.mpf(d.numerator) / d.denominator, mpmath.mpf(c.numerator) / c.denominator))
        if dot.lo - dot.err > 0 and not (d == 0 and c < 0):
            return add(ang, apply('atan', div(crs, dot)))
    raise DomainError('atan2 across its cut')
