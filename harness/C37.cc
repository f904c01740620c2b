// vfile: mode=real nfork=4
// bound: block resampler: 3 and 4 taps with 4 values each, 9 or 10 samples of any value in [-1,1], real and complex, strides 1 and 2, differences -3 to 4 at rate 10 and cutoff 3; error bound 1e-9 (double)
// bound: streaming resampler: 3 and 4 taps with 4 values each, 8 steps of any value in [-1,1], constant and changing differences within -4 to 7 at rate 10; error bound 1e-9 (double)
// assume: the reference solves for the spline through the windowed filter response in exact arithmetic; phases closer than 1e-6 to half a sample may be served either way
#include "vs.h"
namespace DSP { using std::sqrt; using std::exp; using std::pow; using std::sin; using std::cos; using std::atan2; using std::nearbyint; }
#include "const.hh"
#include "complex.hh"
#include "resampler.hh"

static long double bessel(long double x)
{
	long double sum = 1, val = 1;
	for (int n = 1; n < 40; ++n) {
		val *= x * x / (4.0L * n * n);
		sum += val;
	}
	return sum;
}
// low pass through Kaiser window, interpolated by natural cubic spline
template <int N>
struct Kernel
{
	long double y[N], m[N];
	int over;
	Kernel(int over, long double rate, long double cutoff, long double alpha) : over(over)
	{
		int taps = N / over;
		long double u[N], z[N];
		for (int n = 0; n < N; ++n) {
			long double x = n / (long double)over - (taps - 1) / 2.0L, t = 2.0L * n / (N - 1) - 1;
			long double f = 2 * cutoff / rate;
			y[n] = x == 0 ? f : sinl(VPI * f * x) / (VPI * x);
			y[n] *= bessel(VPI * alpha * sqrtl(1 - t * t)) / bessel(VPI * alpha);
		}
		m[0] = m[N-1] = 0;
		u[0] = z[0] = 0;
		for (int i = 1; i < N - 1; ++i) {
			u[i] = 1 / (4 - u[i-1]);
			z[i] = (6 * (y[i-1] - 2 * y[i] + y[i+1]) - z[i-1]) * u[i];
		}
		for (int i = N - 2; i > 0; --i)
			m[i] = z[i] - u[i] * m[i+1];
	}
	long double operator () (long double x) const
	{
		x *= over;
		int k = 0;
		while (k < N - 2 && x >= k + 1)
			++k;
		long double t = x - k, r = 1 - t;
		return r * y[k] + t * y[k+1] + ((r * r * r - r) * m[k] + (t * t * t - t) * m[k+1]) / 6;
	}
};

template <int TAPS, int SAMPLES, int STRIDE>
static void block()
{
	static const double diffs[] = { 0, 0.25, -0.5, 1, -3, 4 };
	double rate = 10, diff = diffs[vs_pick(6)];
	double in[SAMPLES * STRIDE], out[SAMPLES * STRIDE];
	for (int i = 0; i < SAMPLES * STRIDE; ++i) {
		in[i] = i % STRIDE ? 1000 : vs_f64("in", -1, 1);
		out[i] = 2000;
	}
	DSP::Resampler<double, TAPS, 4> r(rate, 3, 2);
	Kernel<TAPS * 4> kernel(4, 10, 3, 2);
	if (STRIDE == 1)
		r(out, in, diff, SAMPLES);
	else
		r(out, in, diff, SAMPLES, STRIDE);
	for (int j = 0; j < SAMPLES * STRIDE; ++j) {
		int i = j / STRIDE - (TAPS - 1) / 2;
		long double x = i * (long double)rate / ((long double)rate + diff), want = 2000;
		int first = 0;
		while (first < x - 0.5L)
			++first;
		// the even one at equal distance
		if (first == x - 0.5L && first % 2)
			--first;
		else if (first + 1 == x + 0.5L && first % 2)
			++first;
		if (j % STRIDE == 0 && i >= 0 && i < SAMPLES - TAPS && first + TAPS <= SAMPLES) {
			want = 0;
			for (int s = first; s < first + TAPS; ++s)
				want += kernel(s - x) * in[s * STRIDE];
		}
		vclose(out[j], want, 1e-9L, "resampled block");
	}
}
ENTRY(quick_block3)
{ block<3, 9, 1>(); }
ENTRY(quick_block4)
{ block<4, 10, 1>(); }
ENTRY(quick_stride)
{ block<3, 8, 2>(); }

template <int TAPS, int STEPS>
static void stream(bool vary)
{
	static const double diffs[] = { 0, 0.5, -0.5, 3, -3, -4, 4.5, 7 };
	int c = vs_pick(8);
	double rate = 10, in[TAPS + STEPS], out[8];
	for (int i = 0; i < TAPS; ++i)
		in[i] = 0;
	DSP::Resampler2<double, double, TAPS, 4> r(rate, 3, 2);
	Kernel<TAPS * 4> kernel(4, 10, 3, 2);
	// position of the next output behind the latest complete window
	long double phase = 0;
	for (int k = 0; k < STEPS; ++k) {
		in[TAPS + k] = vs_f64("in", -1, 1);
		double diff = diffs[vary ? (c + k) % 8 : c];
		for (int i = 0; i < 8; ++i)
			out[i] = 2000;
		int count = r(out, in[TAPS + k], diff), n = 0;
		vassert(count >= 0 && count < 8, "number of outputs");
		if (!count) {
			vassert(phase < -0.5L + 1e-6L, "output left out only when ahead");
			phase += 1;
		} else {
			vassert(phase > -0.5L - 1e-6L, "output only when due");
			for (n = 0; n < count; ++n) {
				if (n) {
					vassert(phase > 0.5L - 1e-6L, "further output only when behind");
					phase -= 1;
				}
				long double want = 0;
				for (int s = 0; s < TAPS; ++s)
					want += kernel(s + phase) * in[1 + k + s];
				vclose(out[n], want, 1e-9L, "resampled stream");
				phase += (long double)diff / rate;
			}
			vassert(phase < 0.5L + 1e-6L, "further output when behind");
		}
		for (; n < 8; ++n)
			vclose(out[n], 2000, 0, "no more outputs than counted");
	}
}
ENTRY(quick_stream3)
{ stream<3, 8>(false); }
ENTRY(quick_stream4)
{ stream<4, 8>(false); }
ENTRY(quick_vary)
{ stream<3, 8>(true); }

typedef DSP::Complex<double> cmplx;
ENTRY(quick_complex)
{
	static const double diffs[] = { 0.25, -3 };
	double diff = diffs[vs_pick(2)];
	cmplx in[8], out[8];
	double re[8], im[8], rout[8], iout[8];
	for (int i = 0; i < 8; ++i) {
		re[i] = vs_f64("re", -1, 1);
		im[i] = vs_f64("im", -1, 1);
		in[i] = cmplx(re[i], im[i]);
		out[i] = cmplx(0, 0);
		rout[i] = iout[i] = 0;
	}
	DSP::Resampler<double, 3, 4> r(10, 3, 2);
	r(out, in, diff, 8);
	r(rout, re, diff, 8);
	r(iout, im, diff, 8);
	for (int i = 0; i < 8; ++i) {
		vclose(out[i].real(), rout[i], 1e-12L, "real parts");
		vclose(out[i].imag(), iout[i], 1e-12L, "imaginary parts");
	}
}
