// bound: transform lengths N = 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 19, 20, 22, 23, 24, 25, 26, 29, 31, 32, 34, 36, 38, 40, 46, 48, 49, 58, 60, 62, 64 (thorough also 63, 66, 75, 77, 80, 81, 93, 96, 100, 108, 116, 121, 128, 169), forward and backward, every complex input with parts in [-1,1]; double with error bound 1e-9, float with error bound 1e-3 at N = 4, 30, 32
// vfile: mode=real
#include "vs.h"
#include "complex.hh"
#include "fft.hh"

template <typename T> static T sym(const char *name);
template <> float sym<float>(const char *name) { return vs_f32(name, -1, 1); }
template <> double sym<double>(const char *name) { return vs_f64(name, -1, 1); }

template <typename VALUE, int N, int SIGN>
static void run(long double tol)
{
	typedef DSP::Complex<VALUE> cmplx;
	static DSP::FastFourierTransform<N, cmplx, SIGN> fft;
	cmplx in[N], out[N];
	for (int i = 0; i < N; ++i)
		in[i] = cmplx(sym<VALUE>("re"), sym<VALUE>("im"));
	fft(out, in);
	for (int k = 0; k < N; ++k) {
		long double re = 0, im = 0;
		for (int n = 0; n < N; ++n) {
			long double phi = SIGN * 2 * VPI * ((k * n) % N) / N;
			long double c = cosl(phi), s = sinl(phi);
			long double a = in[n].real(), b = in[n].imag();
			re += a * c - b * s;
			im += a * s + b * c;
		}
		vclose(out[k].real(), re, tol, "real part of bin equals DFT");
		vclose(out[k].imag(), im, tol, "imaginary part of bin equals DFT");
	}
}
// the same object transforms a second input and leaves its inputs alone
template <int N, int SIGN>
static void again()
{
	typedef DSP::Complex<double> cmplx;
	DSP::FastFourierTransform<N, cmplx, SIGN> fft;
	cmplx in[2][N], keep[2][N], out[N];
	for (int j = 0; j < 2; ++j)
		for (int i = 0; i < N; ++i)
			keep[j][i] = in[j][i] = cmplx(vs_f64("re", -1, 1), vs_f64("im", -1, 1));
	fft(out, in[0]);
	fft(out, in[1]);
	for (int j = 0; j < 2; ++j) {
		for (int i = 0; i < N; ++i) {
			vclose(in[j][i].real(), keep[j][i].real(), 0, "input is left alone");
			vclose(in[j][i].imag(), keep[j][i].imag(), 0, "input is left alone");
		}
	}
	for (int k = 0; k < N; ++k) {
		long double re = 0, im = 0;
		for (int n = 0; n < N; ++n) {
			long double phi = SIGN * 2 * VPI * ((k * n) % N) / N;
			long double c = cosl(phi), s = sinl(phi);
			re += keep[1][n].real() * c - keep[1][n].imag() * s;
			im += keep[1][n].real() * s + keep[1][n].imag() * c;
		}
		vclose(out[k].real(), re, 1e-9L, "real part of bin equals DFT on second use");
		vclose(out[k].imag(), im, 1e-9L, "imaginary part of bin equals DFT on second use");
	}
}
ENTRY(quick_again) // vopt: cost=30
{
	again<4, -1>();
	again<6, 1>();
	again<8, 1>();
	again<15, -1>();
	again<16, -1>();
}
ENTRY(quick_f1) // vopt: cost=1
{ run<double, 1, -1>(1e-9L); }
ENTRY(quick_b1) // vopt: cost=1
{ run<double, 1, 1>(1e-9L); }
ENTRY(quick_f2) // vopt: cost=2
{ run<double, 2, -1>(1e-9L); }
ENTRY(quick_b2) // vopt: cost=2
{ run<double, 2, 1>(1e-9L); }
ENTRY(quick_f3) // vopt: cost=3
{ run<double, 3, -1>(1e-9L); }
ENTRY(quick_b3) // vopt: cost=3
{ run<double, 3, 1>(1e-9L); }
ENTRY(quick_f4) // vopt: cost=4
{ run<double, 4, -1>(1e-9L); }
ENTRY(quick_b4) // vopt: cost=4
{ run<double, 4, 1>(1e-9L); }
ENTRY(quick_f5) // vopt: cost=5
{ run<double, 5, -1>(1e-9L); }
ENTRY(quick_b5) // vopt: cost=5
{ run<double, 5, 1>(1e-9L); }
ENTRY(quick_f7) // vopt: cost=7
{ run<double, 7, -1>(1e-9L); }
ENTRY(quick_b7) // vopt: cost=7
{ run<double, 7, 1>(1e-9L); }
ENTRY(quick_f8) // vopt: cost=8
{ run<double, 8, -1>(1e-9L); }
ENTRY(quick_b8) // vopt: cost=8
{ run<double, 8, 1>(1e-9L); }
ENTRY(quick_f11) // vopt: cost=11
{ run<double, 11, -1>(1e-9L); }
ENTRY(quick_b11) // vopt: cost=11
{ run<double, 11, 1>(1e-9L); }
ENTRY(quick_f13) // vopt: cost=13
{ run<double, 13, -1>(1e-9L); }
ENTRY(quick_b13) // vopt: cost=13
{ run<double, 13, 1>(1e-9L); }
ENTRY(quick_f17) // vopt: cost=17
{ run<double, 17, -1>(1e-9L); }
ENTRY(quick_b17) // vopt: cost=17
{ run<double, 17, 1>(1e-9L); }
ENTRY(quick_f19) // vopt: cost=19
{ run<double, 19, -1>(1e-9L); }
ENTRY(quick_b19) // vopt: cost=19
{ run<double, 19, 1>(1e-9L); }
ENTRY(quick_f23) // vopt: cost=23
{ run<double, 23, -1>(1e-9L); }
ENTRY(quick_b23) // vopt: cost=23
{ run<double, 23, 1>(1e-9L); }
ENTRY(quick_f29) // vopt: cost=29
{ run<double, 29, -1>(1e-9L); }
ENTRY(quick_b29) // vopt: cost=29
{ run<double, 29, 1>(1e-9L); }
ENTRY(quick_f31) // vopt: cost=31
{ run<double, 31, -1>(1e-9L); }
ENTRY(quick_b31) // vopt: cost=31
{ run<double, 31, 1>(1e-9L); }
ENTRY(quick_f6) // vopt: cost=6
{ run<double, 6, -1>(1e-9L); }
ENTRY(quick_b6) // vopt: cost=6
{ run<double, 6, 1>(1e-9L); }
ENTRY(quick_f9) // vopt: cost=9
{ run<double, 9, -1>(1e-9L); }
ENTRY(quick_b9) // vopt: cost=9
{ run<double, 9, 1>(1e-9L); }
ENTRY(quick_f10) // vopt: cost=10
{ run<double, 10, -1>(1e-9L); }
ENTRY(quick_b10) // vopt: cost=10
{ run<double, 10, 1>(1e-9L); }
ENTRY(quick_f12) // vopt: cost=12
{ run<double, 12, -1>(1e-9L); }
ENTRY(quick_b12) // vopt: cost=12
{ run<double, 12, 1>(1e-9L); }
ENTRY(quick_f14) // vopt: cost=14
{ run<double, 14, -1>(1e-9L); }
ENTRY(quick_b14) // vopt: cost=14
{ run<double, 14, 1>(1e-9L); }
ENTRY(quick_f15) // vopt: cost=15
{ run<double, 15, -1>(1e-9L); }
ENTRY(quick_b15) // vopt: cost=15
{ run<double, 15, 1>(1e-9L); }
ENTRY(quick_f16) // vopt: cost=16
{ run<double, 16, -1>(1e-9L); }
ENTRY(quick_b16) // vopt: cost=16
{ run<double, 16, 1>(1e-9L); }
ENTRY(quick_f20) // vopt: cost=20
{ run<double, 20, -1>(1e-9L); }
ENTRY(quick_b20) // vopt: cost=20
{ run<double, 20, 1>(1e-9L); }
ENTRY(quick_f22) // vopt: cost=22
{ run<double, 22, -1>(1e-9L); }
ENTRY(quick_b22) // vopt: cost=22
{ run<double, 22, 1>(1e-9L); }
ENTRY(quick_f24) // vopt: cost=24
{ run<double, 24, -1>(1e-9L); }
ENTRY(quick_b24) // vopt: cost=24
{ run<double, 24, 1>(1e-9L); }
ENTRY(quick_f25) // vopt: cost=25
{ run<double, 25, -1>(1e-9L); }
ENTRY(quick_b25) // vopt: cost=25
{ run<double, 25, 1>(1e-9L); }
ENTRY(quick_f26) // vopt: cost=26
{ run<double, 26, -1>(1e-9L); }
ENTRY(quick_b26) // vopt: cost=26
{ run<double, 26, 1>(1e-9L); }
ENTRY(quick_f32) // vopt: cost=32
{ run<double, 32, -1>(1e-9L); }
ENTRY(quick_b32) // vopt: cost=32
{ run<double, 32, 1>(1e-9L); }
ENTRY(quick_f34) // vopt: cost=34
{ run<double, 34, -1>(1e-9L); }
ENTRY(quick_b34) // vopt: cost=34
{ run<double, 34, 1>(1e-9L); }
ENTRY(deep_f36) // vopt: cost=36
{ run<double, 36, -1>(1e-9L); }
ENTRY(quick_b36) // vopt: cost=36
{ run<double, 36, 1>(1e-9L); }
ENTRY(quick_f38) // vopt: cost=38
{ run<double, 38, -1>(1e-9L); }
ENTRY(quick_b38) // vopt: cost=38
{ run<double, 38, 1>(1e-9L); }
ENTRY(quick_f40) // vopt: cost=40
{ run<double, 40, -1>(1e-9L); }
ENTRY(quick_b40) // vopt: cost=40
{ run<double, 40, 1>(1e-9L); }
ENTRY(quick_f46) // vopt: cost=46
{ run<double, 46, -1>(1e-9L); }
ENTRY(quick_b46) // vopt: cost=46
{ run<double, 46, 1>(1e-9L); }
ENTRY(quick_f48) // vopt: cost=48
{ run<double, 48, -1>(1e-9L); }
ENTRY(deep_b48) // vopt: cost=48
{ run<double, 48, 1>(1e-9L); }
ENTRY(quick_f49) // vopt: cost=49
{ run<double, 49, -1>(1e-9L); }
ENTRY(quick_b49) // vopt: cost=49
{ run<double, 49, 1>(1e-9L); }
ENTRY(quick_f58) // vopt: cost=58
{ run<double, 58, -1>(1e-9L); }
ENTRY(quick_b58) // vopt: cost=58
{ run<double, 58, 1>(1e-9L); }
ENTRY(quick_f60) // vopt: cost=60
{ run<double, 60, -1>(1e-9L); }
ENTRY(deep_b60) // vopt: cost=60
{ run<double, 60, 1>(1e-9L); }
ENTRY(quick_f62) // vopt: cost=62
{ run<double, 62, -1>(1e-9L); }
ENTRY(quick_b62) // vopt: cost=62
{ run<double, 62, 1>(1e-9L); }
ENTRY(deep_f64) // vopt: cost=64
{ run<double, 64, -1>(1e-9L); }
ENTRY(quick_b64) // vopt: cost=64
{ run<double, 64, 1>(1e-9L); }
ENTRY(deep_f121) // vopt: cost=121
{ run<double, 121, -1>(1e-9L); }
ENTRY(deep_b121) // vopt: cost=121
{ run<double, 121, 1>(1e-9L); }
ENTRY(deep_f169) // vopt: cost=169
{ run<double, 169, -1>(1e-9L); }
ENTRY(deep_b169) // vopt: cost=169
{ run<double, 169, 1>(1e-9L); }
ENTRY(deep_f63) // vopt: cost=63
{ run<double, 63, -1>(1e-9L); }
ENTRY(deep_b63) // vopt: cost=63
{ run<double, 63, 1>(1e-9L); }
ENTRY(deep_f66) // vopt: cost=66
{ run<double, 66, -1>(1e-9L); }
ENTRY(deep_b66) // vopt: cost=66
{ run<double, 66, 1>(1e-9L); }
ENTRY(deep_f75) // vopt: cost=75
{ run<double, 75, -1>(1e-9L); }
ENTRY(deep_b75) // vopt: cost=75
{ run<double, 75, 1>(1e-9L); }
ENTRY(deep_f77) // vopt: cost=77
{ run<double, 77, -1>(1e-9L); }
ENTRY(deep_b77) // vopt: cost=77
{ run<double, 77, 1>(1e-9L); }
ENTRY(deep_f80) // vopt: cost=80
{ run<double, 80, -1>(1e-9L); }
ENTRY(deep_b80) // vopt: cost=80
{ run<double, 80, 1>(1e-9L); }
ENTRY(deep_f81) // vopt: cost=81
{ run<double, 81, -1>(1e-9L); }
ENTRY(deep_b81) // vopt: cost=81
{ run<double, 81, 1>(1e-9L); }
ENTRY(deep_f93) // vopt: cost=93
{ run<double, 93, -1>(1e-9L); }
ENTRY(deep_b93) // vopt: cost=93
{ run<double, 93, 1>(1e-9L); }
ENTRY(deep_f96) // vopt: cost=96
{ run<double, 96, -1>(1e-9L); }
ENTRY(deep_b96) // vopt: cost=96
{ run<double, 96, 1>(1e-9L); }
ENTRY(deep_f100) // vopt: cost=100
{ run<double, 100, -1>(1e-9L); }
ENTRY(deep_b100) // vopt: cost=100
{ run<double, 100, 1>(1e-9L); }
ENTRY(deep_f108) // vopt: cost=108
{ run<double, 108, -1>(1e-9L); }
ENTRY(deep_b108) // vopt: cost=108
{ run<double, 108, 1>(1e-9L); }
ENTRY(deep_f116) // vopt: cost=116
{ run<double, 116, -1>(1e-9L); }
ENTRY(deep_b116) // vopt: cost=116
{ run<double, 116, 1>(1e-9L); }
ENTRY(deep_f128) // vopt: cost=128
{ run<double, 128, -1>(1e-9L); }
ENTRY(deep_b128) // vopt: cost=128
{ run<double, 128, 1>(1e-9L); }
ENTRY(quick_float4)
{ run<float, 4, -1>(1e-3L); }
ENTRY(quick_float30)
{ run<float, 30, -1>(1e-3L); }
ENTRY(quick_float32)
{ run<float, 32, -1>(1e-3L); }
