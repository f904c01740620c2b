// vfile: mode=real tm=1 refine=1 tmbits=50
// bound: low and high pass by cutoff: every cutoff in [0.001,0.5], every sample of 1 to 9 and of 16 taps, error bound 1e-12 (double)
// bound: low and high pass by ratio: every ratio num/100 and num/64 of up to one half, every sample of 1 to 9 taps, error bound 1e-11 (double)
// bound: band pass: every pair of cutoffs in [0.02,0.5], every sample of 1 to 5 taps, error bound 1e-10; Hilbert transformer: every sample of 2, 3, 4, 5, 9, 100, 101 and 1000 taps, error bound 1e-12
#include "vs.h"
namespace DSP { using std::sqrt; using std::exp; using std::pow; using std::sin; }
#include "const.hh"
#include "filter.hh"

// impulse response of the ideal low pass, times x
static long double low(long double cutoff, long double x)
{
	return sinl(2 * VPI * cutoff * x) / VPI;
}
template <bool HIGH>
static void cutoff(int n, int N)
{
	static const double at[] = { 0.001, 0.0015, 0.002, 0.003, 0.004, 0.006, 0.01, 0.015, 0.02, 0.03, 0.04, 0.06, 0.08, 0.1, 0.15, 0.2, 0.25, 0.3, 0.35, 0.4, 0.45, 0.5 };
	int k = vs_pick(21);
	double c = vs_f64("cutoff", at[k], at[k + 1]);
	double y = HIGH ? DSP::HighPass<double>(c)(n, N) : DSP::LowPass<double>(c)(n, N);
	long double x = n - (N - 1) / 2.0L;
	if (2 * n == N - 1) {
		vclose(y, HIGH ? 1 - 2 * (long double)c : 2 * (long double)c, 1e-12L, "middle of pass");
	} else {
		long double z = low(c, x);
		vclose(y * x, HIGH ? low(0.5L, x) - z : z, 1e-12L, "pass by cutoff");
	}
}
template <bool HIGH>
static void cutoffs()
{
	int N = vs_pick(10);
	N = N ? N : 16;
	int n = vs_pick(N);
	cutoff<HIGH>(n, N);
}
ENTRY(quick_low)
{ cutoffs<false>(); }
ENTRY(quick_high)
{ cutoffs<true>(); }

template <bool HIGH>
static void ratio(int n, int N, int den)
{
	int twox = 2 * n - (N - 1), a = twox < 0 ? -twox : twox, lo, hi;
	if (!a) {
		lo = 1;
		hi = den / 2;
	} else {
		// eighth of the circle, the first divided further
		int k = vs_pick(2 * a + 7) - 6;
		if (k < 1) {
			lo = 1 << (k + 6);
			hi = 2 * lo - 1;
			int end = (den + 4 * a - 1) / (4 * a) - 1;
			hi = hi < end ? hi : end;
		} else {
			lo = (k * den + 4 * a - 1) / (4 * a);
			hi = ((k + 1) * den + 4 * a - 1) / (4 * a) - 1;
			hi = k == 2 * a ? lo : hi;
		}
		if (lo > hi)
			return;
	}
	int num = vs_i32("num", lo, hi);
	double y = HIGH ? DSP::HighPass2<double>(num, den)(n, N) : DSP::LowPass2<double>(num, den)(n, N);
	long double c = num / (long double)den, x = twox / 2.0L;
	if (!a) {
		vclose(y, HIGH ? 1 - 2 * c : 2 * c, 1e-12L, "middle of pass");
	} else {
		long double z = low(c, x);
		vclose(y * x, HIGH ? low(0.5L, x) - z : z, 1e-11L, "pass by ratio");
	}
}
template <bool HIGH>
static void ratios(int den)
{
	int N = 1 + vs_pick(9);
	int n = vs_pick(N);
	ratio<HIGH>(n, N, den);
}
ENTRY(quick_low_ratio)
{ ratios<false>(100); }
ENTRY(quick_low_ratio64)
{ ratios<false>(64); }
ENTRY(quick_high_ratio)
{ ratios<true>(100); }
ENTRY(quick_high_ratio64)
{ ratios<true>(64); }
ENTRY(quick_band)
{
	static const double at[] = { 0.02, 0.04, 0.08, 0.15, 0.22, 0.29, 0.36, 0.43, 0.5 };
	int N = 1 + vs_pick(5);
	int n = vs_pick(N);
	int i = vs_pick(8), j = vs_pick(8);
	double a = vs_f64("from", at[i], at[i + 1]), b = vs_f64("to", at[j], at[j + 1]);
	double y = DSP::BandPass<double>(a, b)(n, N);
	long double x = n - (N - 1) / 2.0L;
	if (2 * n == N - 1)
		vclose(y, 2 * ((long double)b - a), 1e-12L, "middle of band pass");
	else
		vclose(y * x, low(b, x) - low(a, x), 1e-10L, "band pass");
}
static void hilbert(int N)
{
	int k = vs_pick(20), M = N - 1, lo = k, hi = k;
	if (k >= 4) {
		int p = (k - 4) / 2, q = (k - 4) % 2;
		lo = (4 + 2 * q) << p;
		hi = ((6 + 2 * q) << p) - 1;
	}
	int first = (M + 1) / 2 + lo, last = (M + 1) / 2 + hi;
	if (last > M)
		last = M;
	if (first > last)
		return;
	int n = vs_pick(2) ? vs_i32("n", first, last) : vs_i32("n", M - last, M - first);
	double y = DSP::HilbertTransform<double>()(n, N);
	long double x = (2 * n - M) / 2.0L;
	if (N % 2) {
		int d = n - M / 2;
		if (d % 2)
			vclose(y * x * VPI, 2, 1e-12L, "Hilbert transformer");
		else
			vclose(y, 0, 0, "zero of Hilbert transformer");
	} else {
		vclose(y * x * VPI, 1, 1e-12L, "Hilbert transformer with even number of taps");
	}
}
ENTRY(quick_hilbert)
{
	switch (vs_pick(8)) {
	case 0: hilbert(2); break;
	case 1: hilbert(3); break;
	case 2: hilbert(4); break;
	case 3: hilbert(5); break;
	case 4: hilbert(9); break;
	case 5: hilbert(100); break;
	case 6: hilbert(101); break;
	case 7: hilbert(1000); break;
	}
}
