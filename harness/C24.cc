// vfile: mode=real
// bound: analytic signal filter: 5, 9, 13 and 25 taps, window parameter 2 (default), 0 and 3, 2*taps symbolic samples in [-1,1] (double, error bound 1e-10)
// bound: down conversion: 5, 9, 13 and 25 taps, window parameter 2 (default), 0 and 3, taps pairs of symbolic samples (error bound 1e-10)
// assume: the reference is the direct convolution with the Kaiser windowed ideal response, the window from the power series of the Bessel function in exact arithmetic
#include "vs.h"
namespace DSP { using std::sqrt; using std::exp; using std::pow; using std::sin; using std::cos; using std::atan2; }
#include "const.hh"
#include "complex.hh"
#include "hilbert.hh"
#include "cdc.hh"

typedef DSP::Complex<double> cmplx;

static long double bessel(long double x)
{
	long double sum = 1, val = 1;
	for (int n = 1; n < 60; ++n) {
		val *= x * x / (4.0L * n * n);
		sum += val;
	}
	return sum;
}
// m from -(taps-1)/2 to (taps-1)/2
static long double kaiser(int m, int taps, long double a)
{
	long double t = 2.0L * m / (taps - 1);
	return bessel(VPI * a * sqrtl(1 - t * t)) / bessel(VPI * a);
}
template <int TAPS>
static void hilbert(double a, bool def)
{
	const int H = (TAPS-1)/2, LEN = 2 * TAPS;
	DSP::Hilbert<cmplx, TAPS> f = def ? DSP::Hilbert<cmplx, TAPS>() : DSP::Hilbert<cmplx, TAPS>(a);
	double x[LEN];
	long double h[H + 1];
	for (int m = 1; m <= H; ++m)
		h[m] = m & 1 ? 2 / (VPI * m) * kaiser(m, TAPS, a) : 0;
	for (int n = 0; n < LEN; ++n) {
		// output belongs to the sample half the length and one call ago
		int c = n - 1 - H;
		long double re = c < 0 ? 0 : x[c], im = 0;
		for (int m = 1; m <= H; ++m) {
			if (c - m >= 0)
				im += h[m] * x[c - m];
			if (c + m >= 0)
				im -= h[m] * x[c + m];
		}
		x[n] = vs_f64("x", -1, 1);
		cmplx y = f(x[n]);
		vclose(y.real(), re, 1e-10L, "delayed signal");
		vclose(y.imag(), im, 1e-10L, "Hilbert transform");
	}
}
template <int TAPS>
static void down(double a, bool def)
{
	const int H = (TAPS-1)/2, LEN = 2 * TAPS;
	DSP::CDC<cmplx, TAPS> f = def ? DSP::CDC<cmplx, TAPS>() : DSP::CDC<cmplx, TAPS>(a);
	double x[LEN];
	long double h[H + 1];
	h[0] = 0.5L;
	for (int m = 1; m <= H; ++m)
		h[m] = sinl(VPI * m / 2) / (VPI * m) * kaiser(m, TAPS, a);
	for (int n = 0; n < LEN; n += 2) {
		x[n] = vs_f64("x", -1, 1);
		x[n+1] = vs_f64("x", -1, 1);
		cmplx y = f(x[n], x[n+1]);
		// multiply with powers of the imaginary unit, low pass and keep every second
		int c = n + 1 - H;
		long double re = 0, im = 0;
		for (int m = -H; m <= H; ++m) {
			int k = c + m;
			if (k < 0)
				continue;
			long double v = h[m < 0 ? -m : m] * x[k];
			switch (k & 3) {
			case 0: im += v; break;
			case 1: re += v; break;
			case 2: im -= v; break;
			case 3: re -= v; break;
			}
		}
		vclose(y.real(), re, 1e-10L, "real part of the down converted signal");
		vclose(y.imag(), im, 1e-10L, "imaginary part of the down converted signal");
	}
}
template <int TAPS>
static void hilberts()
{
	switch (vs_pick(3)) {
	case 0: hilbert<TAPS>(2, true); break;
	case 1: hilbert<TAPS>(0, false); break;
	case 2: hilbert<TAPS>(3, false); break;
	}
}
template <int TAPS>
static void downs()
{
	switch (vs_pick(3)) {
	case 0: down<TAPS>(2, true); break;
	case 1: down<TAPS>(0, false); break;
	case 2: down<TAPS>(3, false); break;
	}
}
ENTRY(quick_hilbert5)
{ hilberts<5>(); }
ENTRY(quick_hilbert9)
{ hilberts<9>(); }
ENTRY(quick_hilbert13)
{ hilberts<13>(); }
ENTRY(quick_hilbert25)
{ hilberts<25>(); }
ENTRY(quick_down5)
{ downs<5>(); }
ENTRY(quick_down9)
{ downs<9>(); }
ENTRY(quick_down13)
{ downs<13>(); }
ENTRY(quick_down25)
{ downs<25>(); }
