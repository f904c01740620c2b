// vfile: mode=real
// bound: transform lengths BINS = 2, 4, 6, 8, 10, 12, 14, 16, 20, 22, 24, 30, 32, 34, 48, 64 (thorough also 60, 96, 128), every real input in [-1,1]; double with error bound 1e-9, float with error bound 1e-3 at 16
#include "vs.h"
#include "complex.hh"
#include "fft.hh"

template <typename T> static T sym(const char *name);
template <> float sym<float>(const char *name) { return vs_f32(name, -1, 1); }
template <> double sym<double>(const char *name) { return vs_f64(name, -1, 1); }

template <typename VALUE, int N>
static void run(long double tol)
{
	typedef DSP::Complex<VALUE> cmplx;
	static DSP::RealToHalfComplexTransform<N, cmplx> rtc;
	VALUE in[N];
	cmplx out[N/2+2];
	for (int i = 0; i < N; ++i)
		in[i] = sym<VALUE>("in");
	out[N/2+1] = cmplx(7, 11);
	rtc(out, in);
	for (int k = 0; k <= N/2; ++k) {
		long double re = 0, im = 0;
		for (int n = 0; n < N; ++n) {
			long double phi = -2 * VPI * ((k * n) % N) / N;
			re += in[n] * cosl(phi);
			im += in[n] * sinl(phi);
		}
		if (k == 0 || k == N/2) {
			re /= 2;
			im = 0;
		}
		vclose(out[k].real(), re, tol, "real part of bin equals DFT (first and last bin halved)");
		vclose(out[k].imag(), im, tol, "imaginary part of bin equals DFT");
	}
	vassert(out[N/2+1].real() == 7 && out[N/2+1].imag() == 11, "only the bins up to one half are written");
}
ENTRY(quick_2) // vopt: cost=2
{ run<double, 2>(1e-9L); }
ENTRY(quick_4) // vopt: cost=4
{ run<double, 4>(1e-9L); }
ENTRY(quick_6) // vopt: cost=6
{ run<double, 6>(1e-9L); }
ENTRY(quick_8) // vopt: cost=8
{ run<double, 8>(1e-9L); }
ENTRY(quick_10) // vopt: cost=10
{ run<double, 10>(1e-9L); }
ENTRY(quick_12) // vopt: cost=12
{ run<double, 12>(1e-9L); }
ENTRY(quick_14) // vopt: cost=14
{ run<double, 14>(1e-9L); }
ENTRY(quick_16) // vopt: cost=16
{ run<double, 16>(1e-9L); }
ENTRY(quick_20) // vopt: cost=20
{ run<double, 20>(1e-9L); }
ENTRY(quick_22) // vopt: cost=22
{ run<double, 22>(1e-9L); }
ENTRY(quick_24) // vopt: cost=24
{ run<double, 24>(1e-9L); }
ENTRY(quick_30) // vopt: cost=30
{ run<double, 30>(1e-9L); }
ENTRY(quick_32) // vopt: cost=32
{ run<double, 32>(1e-9L); }
ENTRY(quick_34) // vopt: cost=34
{ run<double, 34>(1e-9L); }
ENTRY(quick_48) // vopt: cost=48
{ run<double, 48>(1e-9L); }
ENTRY(quick_64) // vopt: cost=64
{ run<double, 64>(1e-9L); }
ENTRY(deep_60) // vopt: cost=60
{ run<double, 60>(1e-9L); }
ENTRY(deep_96) // vopt: cost=96
{ run<double, 96>(1e-9L); }
ENTRY(deep_128) // vopt: cost=128
{ run<double, 128>(1e-9L); }
ENTRY(quick_float16)
{ run<float, 16>(1e-3L); }
