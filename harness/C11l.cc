// bound: longer lengths N = 18, 27, 50, 96, 98, 128, 242, 256, 338, 480, 512, 578, 640, 722, 770, 1024, 1058, 1682, 1922, 2048, forward or backward: a fixed geometric sequence with every complex value with parts in [-1,1] added at two positions; double with error bound 1e-9
// vfile: mode=real
#include "vs.h"
#include "complex.hh"
#include "fft.hh"

// a geometric sequence, whose transform has a closed form, with every value added at two positions
template <int N, int SIGN>
static void longer(int p, int q)
{
	typedef DSP::Complex<double> cmplx;
	static DSP::FastFourierTransform<N, cmplx, SIGN> fft;
	static cmplx in[N], out[N];
	static double co[N], si[N];
	for (int i = 0; i < N; ++i) {
		co[i] = cosl(SIGN * 2 * VPI * i / N);
		si[i] = sinl(SIGN * 2 * VPI * i / N);
	}
	const double rr = 0.9990234375, ri = 0.015625;
	double gr = 1, gi = 0;
	for (int i = 0; i < N; ++i) {
		in[i] = cmplx(gr, gi);
		double tr = gr * rr - gi * ri, ti = gr * ri + gi * rr;
		gr = tr;
		gi = ti;
	}
	double a = vs_f64("re", -1, 1), b = vs_f64("im", -1, 1), c = vs_f64("re", -1, 1), d = vs_f64("im", -1, 1);
	in[p] = cmplx(in[p].real() + a, in[p].imag() + b);
	in[q] = cmplx(in[q].real() + c, in[q].imag() + d);
	fft(out, in);
	for (int k = 0; k < N; ++k) {
		// (1 - r^N) / (1 - r w^k)
		double ur = 1 - gr, ui = -gi;
		double vr = 1 - (rr * co[k] - ri * si[k]), vi = -(rr * si[k] + ri * co[k]);
		double n = vr * vr + vi * vi;
		double wr = (ur * vr + ui * vi) / n, wi = (ui * vr - ur * vi) / n;
		int kp = (long long)k * p % N, kq = (long long)k * q % N;
		long double re = wr, im = wi;
		re += a * (long double)co[kp] - b * (long double)si[kp] + c * (long double)co[kq] - d * (long double)si[kq];
		im += a * (long double)si[kp] + b * (long double)co[kp] + c * (long double)si[kq] + d * (long double)co[kq];
		vclose(out[k].real(), re, 1e-9L, "real part of bin equals DFT of a longer input");
		vclose(out[k].imag(), im, 1e-9L, "imaginary part of bin equals DFT of a longer input");
	}
}
ENTRY(quick_long18) // vopt: steps=60000000 loop=100000 cost=5
{ longer<18, -1>(7, 16); }
ENTRY(quick_long27) // vopt: steps=60000000 loop=100000 cost=5
{ longer<27, 1>(10, 25); }
ENTRY(quick_long50) // vopt: steps=60000000 loop=100000 cost=5
{ longer<50, -1>(17, 48); }
ENTRY(quick_long96) // vopt: steps=60000000 loop=100000 cost=5
{ longer<96, 1>(33, 94); }
ENTRY(quick_long98) // vopt: steps=60000000 loop=100000 cost=5
{ longer<98, -1>(33, 96); }
ENTRY(quick_long128) // vopt: steps=60000000 loop=100000 cost=5
{ longer<128, 1>(43, 126); }
ENTRY(quick_long242) // vopt: steps=60000000 loop=100000 cost=8
{ longer<242, -1>(81, 240); }
ENTRY(quick_long256) // vopt: steps=60000000 loop=100000 cost=8
{ longer<256, 1>(86, 254); }
ENTRY(quick_long338) // vopt: steps=60000000 loop=100000 cost=11
{ longer<338, -1>(113, 336); }
ENTRY(quick_long480) // vopt: steps=60000000 loop=100000 cost=16
{ longer<480, 1>(161, 478); }
ENTRY(quick_long512) // vopt: steps=60000000 loop=100000 cost=17
{ longer<512, -1>(171, 510); }
ENTRY(quick_long578) // vopt: steps=60000000 loop=100000 cost=19
{ longer<578, 1>(193, 576); }
ENTRY(quick_long640) // vopt: steps=60000000 loop=100000 cost=21
{ longer<640, -1>(214, 638); }
ENTRY(quick_long722) // vopt: steps=60000000 loop=100000 cost=24
{ longer<722, 1>(241, 720); }
ENTRY(quick_long770) // vopt: steps=60000000 loop=100000 cost=25
{ longer<770, -1>(257, 768); }
ENTRY(quick_long1024) // vopt: steps=60000000 loop=100000 cost=34
{ longer<1024, 1>(342, 1022); }
ENTRY(quick_long1058) // vopt: steps=60000000 loop=100000 cost=35
{ longer<1058, -1>(353, 1056); }
ENTRY(quick_long1682) // vopt: steps=60000000 loop=100000 cost=56
{ longer<1682, 1>(561, 1680); }
ENTRY(quick_long1922) // vopt: steps=60000000 loop=100000 cost=64
{ longer<1922, -1>(641, 1920); }
ENTRY(quick_long2048) // vopt: steps=60000000 loop=100000 cost=68
{ longer<2048, 1>(683, 2046); }
