// vfile: mode=real
// bound: Complex<float>: parts of the operands in [-8,8], scalars in [-8,8], error bound 1e-3; Complex<double> with error bound 1e-9; complex divisors of magnitude 0.5 and more (parts up to 4) with error bound 1e-9
// bound: polar: radius in [-8,8], angle in [-7,7]; arg: parts in [-8,8] away from the origin
#include "vs.h"
namespace DSP { using std::sqrt; using std::cos; using std::sin; using std::atan2; }
#include "complex.hh"

template <typename T> static T sym(const char *name, T lo, T hi);
template <> float sym<float>(const char *name, float lo, float hi) { return vs_f32(name, lo, hi); }
template <> double sym<double>(const char *name, double lo, double hi) { return vs_f64(name, lo, hi); }

template <typename T>
static DSP::Complex<T> any()
{
	T re = sym<T>("re", -8, 8);
	T im = sym<T>("im", -8, 8);
	return DSP::Complex<T>(re, im);
}
template <typename T>
static void close(DSP::Complex<T> a, long double re, long double im, long double tol, const char *msg)
{
	vclose(a.real(), re, tol, msg);
	vclose(a.imag(), im, tol, msg);
}
template <typename T>
static void run_linear(long double tol)
{
	DSP::Complex<T> a = any<T>(), b = any<T>();
	T s = sym<T>("s", -8, 8);
	long double ar = a.real(), ai = a.imag(), br = b.real(), bi = b.imag();
	close(a + b, ar + br, ai + bi, tol, "sum");
	close(a - b, ar - br, ai - bi, tol, "difference");
	close(+a, ar, ai, tol, "plus");
	close(-a, -ar, -ai, tol, "negation");
	close(conj(a), ar, -ai, tol, "conjugate");
	close(a * b, ar * br - ai * bi, ar * bi + ai * br, tol, "product");
	close(s * a, s * ar, (long double)s * ai, tol, "scalar product");
	vclose(norm(a), ar * ar + ai * ai, tol, "squared magnitude");
	DSP::Complex<T> c(a);
	close(c += b, ar + br, ai + bi, tol, "compound sum");
	close(c, ar + br, ai + bi, tol, "compound sum");
	c = a;
	close(c -= b, ar - br, ai - bi, tol, "compound difference");
	close(c, ar - br, ai - bi, tol, "compound difference");
	c = a;
	close(c *= b, ar * br - ai * bi, ar * bi + ai * br, tol, "compound product");
	close(c, ar * br - ai * bi, ar * bi + ai * br, tol, "compound product");
	c = a;
	close(c *= s, s * ar, (long double)s * ai, tol, "compound scalar product");
	close(c, s * ar, (long double)s * ai, tol, "compound scalar product");
	c = s;
	close(c, s, 0, tol, "assignment of a real number");
	close(DSP::Complex<T>(s), s, 0, tol, "construction from a real number");
	close(DSP::Complex<T>(), 0, 0, tol, "default construction");
	c.real(ar);
	c.imag(bi);
	close(c, ar, bi, tol, "setting the parts");
}
template <typename T>
static void run_scalar_div(T lo, T hi, long double tol)
{
	DSP::Complex<T> a = any<T>();
	T s = sym<T>("s", lo, hi);
	DSP::Complex<T> q = a / s;
	close(DSP::Complex<T>(s * q.real(), s * q.imag()), a.real(), a.imag(), tol, "quotient by a real number times it");
	DSP::Complex<T> c(a);
	c /= s;
	close(DSP::Complex<T>(s * c.real(), s * c.imag()), a.real(), a.imag(), tol, "compound quotient by a real number times it");
}
// the divisor is re + i im with re in [rl,rh] and im in [il,ih]
template <typename T>
static void run_div(T rl, T rh, T il, T ih, long double tol)
{
	DSP::Complex<T> a = any<T>();
	T br = sym<T>("bre", rl, rh), bi = sym<T>("bim", il, ih);
	DSP::Complex<T> b(br, bi);
	DSP::Complex<T> q = a / b;
	long double n = (long double)br * br + (long double)bi * bi;
	vclose(q.real() * n, (long double)a.real() * br + (long double)a.imag() * bi, tol, "real part of the quotient");
	vclose(q.imag() * n, (long double)a.imag() * br - (long double)a.real() * bi, tol, "imaginary part of the quotient");
	DSP::Complex<T> c(a);
	c /= b;
	vclose(c.real() * n, (long double)a.real() * br + (long double)a.imag() * bi, tol, "real part of the compound quotient");
	vclose(c.imag() * n, (long double)a.imag() * br - (long double)a.real() * bi, tol, "imaginary part of the compound quotient");
	T s = sym<T>("s", -8, 8);
	DSP::Complex<T> r = s / b;
	vclose(r.real() * n, (long double)s * br, tol, "real part of the reciprocal");
	vclose(r.imag() * n, -(long double)s * bi, tol, "imaginary part of the reciprocal");
}
ENTRY(quick_linear_float)
{ run_linear<float>(1e-3L); }
ENTRY(quick_linear_double)
{ run_linear<double>(1e-9L); }
ENTRY(quick_scalar_pos)
{ run_scalar_div<float>(0.5f, 8, 1e-3L); }
ENTRY(quick_scalar_neg)
{ run_scalar_div<float>(-8, -0.5f, 1e-3L); }
ENTRY(quick_div_right)
{ run_div<double>(0.5, 4, -4, 4, 1e-9L); }
ENTRY(quick_div_left)
{ run_div<double>(-4, -0.5, -4, 4, 1e-9L); }
ENTRY(quick_div_up)
{ run_div<double>(-4, 4, 0.5, 4, 1e-9L); }
ENTRY(quick_div_down)
{ run_div<double>(-4, 4, -4, -0.5, 1e-9L); }
static void run_abs(double rl, double rh, double il, double ih)
{
	DSP::Complex<double> a(vs_f64("re", rl, rh), vs_f64("im", il, ih));
	long double m = DSP::abs(a);
	vclose(m * m, (long double)a.real() * a.real() + (long double)a.imag() * a.imag(), 1e-9L, "magnitude squared is the squared magnitude");
	vassert(m >= 0, "magnitude is not negative");
}
ENTRY(quick_abs_right)
{ run_abs(0.5, 8, -8, 8); }
ENTRY(quick_abs_left)
{ run_abs(-8, -0.5, -8, 8); }
ENTRY(quick_abs_up)
{ run_abs(-8, 8, 0.5, 8); }
ENTRY(quick_abs_down)
{ run_abs(-8, 8, -8, -0.5); }
ENTRY(quick_polar)
{
	float r = vs_f32("radius", -8, 8);
	float w = vs_f32("angle", -7, 7);
	DSP::Complex<float> p = DSP::polar(r, w);
	close(p, r * cosl(w), r * sinl(w), 1e-3L, "polar form");
}
ENTRY(quick_arg)
{
	DSP::Complex<float> a(vs_f32("re", 0.5f, 8), vs_f32("im", -8, 8));
	vclose(DSP::arg(a), atan2l(a.imag(), a.real()), 1e-3L, "argument");
	DSP::Complex<float> b(vs_f32("re", -8, 8), vs_f32("im", 0.5f, 8));
	vclose(DSP::arg(b), atan2l(b.imag(), b.real()), 1e-3L, "argument");
}
ENTRY(quick_equal) // vopt: mode=fp
{
	float ar = vs_f32("ar", -8, 8), ai = vs_f32("ai", -8, 8), br = vs_f32("br", -8, 8), bi = vs_f32("bi", -8, 8);
	DSP::Complex<float> a(ar, ai), b(br, bi);
	vassert((a == b) == (ar == br && ai == bi), "equality");
	vassert((a != b) == !(ar == br && ai == bi), "inequality");
}
