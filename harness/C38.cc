// vfile: mode=real tm=1 tmbits=34
// bound: real filters of 1 to 3 coefficients, 3 steps with inputs, desired values and step size all symbolic within +-0.1 of fixed ones (double, error bound 1e-7); complex ones of 1 to 3 coefficients, 2 or 3 steps within +-0.005 to 0.01 (error bound 1e-6); silence before and after input
#include "vs.h"
using std::min;
namespace DSP { using std::sqrt; using std::cos; using std::sin; using std::atan2; }
#include "const.hh"
#include "complex.hh"
#include "lms.hh"

template <int SIZE>
static void real(int steps, bool def)
{
	static const double in[5] = { 1, -0.5, 0.8, 1.5, -1 }, de[5] = { 0.5, 1, -0.7, 0.3, 0.9 };
	double w = 0.1, mu = def ? 1 : vs_f64("mu", 0.4, 0.6);
	DSP::NLMS<double, SIZE> f;
	long double c[SIZE], h[SIZE];
	for (int i = 0; i < SIZE; ++i)
		c[i] = h[i] = 0;
	for (int k = 0; k < steps; ++k) {
		double x = vs_f64("x", in[k] - w, in[k] + w), d = vs_f64("d", de[k] - w, de[k] + w);
		for (int i = 0; i < SIZE - 1; ++i)
			h[i] = h[i+1];
		h[SIZE-1] = x;
		long double est = 0, pow = 0;
		for (int i = 0; i < SIZE; ++i) {
			est += c[i] * h[i];
			pow += h[i] * h[i];
		}
		long double err = d - est;
		for (int i = 0; i < SIZE; ++i)
			c[i] += mu * err / pow * h[i];
		double e = def ? f(x, d) : f(x, d, mu);
		vclose(e, err, 1e-7L, "error before the update");
		const double *g = f;
		for (int i = 0; i < SIZE; ++i)
			vclose(g[i], c[i], 1e-7L, "coefficients after the update");
	}
}
ENTRY(quick_real1)
{ real<1>(3, true); }
ENTRY(quick_real2)
{ real<2>(3, true); }
ENTRY(quick_real3)
{ real<3>(3, true); }
ENTRY(quick_real2mu)
{ real<2>(3, false); }
ENTRY(quick_silence)
{
	DSP::NLMS<double, 2> f;
	double x = vs_f64("x", 0.5, 0.7), d = vs_f64("d", 0.5, 0.7), e = vs_f64("e", -1, 1);
	vclose(f(0, e), e, 0, "error without input");
	const double *g = f;
	vclose(g[0], 0, 0, "no update without input");
	vclose(g[1], 0, 0, "no update without input");
	f(x, d);
	f(0, 0, 0);
	double g0 = g[0], g1 = g[1];
	vclose(f(0, e), e, 0, "error when the input has become silent");
	vclose(g[0], g0, 1e-9L, "coefficients kept in silence");
	vclose(g[1], g1, 1e-9L, "coefficients kept in silence");
	vclose(g[1] * (long double)x, d, 1e-7L, "coefficient of the only input");
}
typedef DSP::Complex<double> cmplx;
template <int SIZE>
static void complex(int steps, double w, bool def)
{
	static const double ix[4] = { 1, -0.5, 0.8, 1.5 }, iy[4] = { -0.4, 0.9, 0.3, -1 }, dx[4] = { 0.5, 1, -0.7, 0.3 }, dy[4] = { 0.8, -0.6, 0.2, 1 };
	double mu = def ? 1 : 0.5;
	DSP::NCLMS<cmplx, SIZE> f;
	long double cr[SIZE], ci[SIZE], hr[SIZE], hi[SIZE];
	for (int i = 0; i < SIZE; ++i)
		cr[i] = ci[i] = hr[i] = hi[i] = 0;
	for (int k = 0; k < steps; ++k) {
		double xr = vs_f64("xr", ix[k] - w, ix[k] + w), xi = vs_f64("xi", iy[k] - w, iy[k] + w);
		double dr = vs_f64("dr", dx[k] - w, dx[k] + w), di = vs_f64("di", dy[k] - w, dy[k] + w);
		for (int i = 0; i < SIZE - 1; ++i) {
			hr[i] = hr[i+1];
			hi[i] = hi[i+1];
		}
		hr[SIZE-1] = xr;
		hi[SIZE-1] = xi;
		long double er = dr, ei = di, pow = 0;
		for (int i = 0; i < SIZE; ++i) {
			er -= cr[i] * hr[i] - ci[i] * hi[i];
			ei -= cr[i] * hi[i] + ci[i] * hr[i];
			pow += hr[i] * hr[i] + hi[i] * hi[i];
		}
		for (int i = 0; i < SIZE; ++i) {
			// times conjugated input
			cr[i] += mu / pow * (er * hr[i] + ei * hi[i]);
			ci[i] += mu / pow * (ei * hr[i] - er * hi[i]);
		}
		cmplx e = def ? f(cmplx(xr, xi), cmplx(dr, di)) : f(cmplx(xr, xi), cmplx(dr, di), mu);
		vclose(e.real(), er, 1e-6L, "error before the update");
		vclose(e.imag(), ei, 1e-6L, "error before the update");
		const cmplx *g = f;
		for (int i = 0; i < SIZE; ++i) {
			vclose(g[i].real(), cr[i], 1e-6L, "coefficients after the update");
			vclose(g[i].imag(), ci[i], 1e-6L, "coefficients after the update");
		}
	}
}
ENTRY(quick_complex1)
{ complex<1>(3, 0.01, true); }
ENTRY(quick_complex2)
{ complex<2>(3, 0.01, true); }
ENTRY(quick_complex2mu)
{ complex<2>(2, 0.01, false); }
ENTRY(quick_complex3)
{ complex<3>(3, 0.005, true); }
ENTRY(quick_csilence)
{
	DSP::NCLMS<cmplx, 2> f;
	double d = vs_f64("d", -1, 1);
	cmplx e = f(cmplx(0, 0), cmplx(d, 1));
	vclose(e.real(), d, 0, "error without input");
	vclose(e.imag(), 1, 0, "error without input");
	const cmplx *g = f;
	for (int i = 0; i < 2; ++i) {
		vclose(g[i].real(), 0, 0, "no update without input");
		vclose(g[i].imag(), 0, 0, "no update without input");
	}
}
