// vfile: mode=real
// bound: coefficients: lowpass, highpass, notch, bandpass and allpass at 1/16, 1/8, 1/4, 3/8, 1/3, 3/100, 5/1000 of the rate with quality factors 1/sqrt(2), 0.6, 3 and 0, 6, -3, 20 dB; 5 symbolic samples in [-1,1] (double, error bound 1e-10)
// bound: quality factor symbolic in [0.5,1], [1,2] and [2,4] and 3 symbolic samples for lowpass and highpass
// bound: Butterworth cascades of 1 to 5 sections, lowpass and highpass, 6 symbolic samples (error bound 1e-9)
// bound: default filter passes its input; parameters may be changed while running without disturbing the state
// assume: the reference is the direct form with the textbook (RBJ) coefficients in exact arithmetic
#include "vs.h"
#include "const.hh"
namespace DSP { using std::sqrt; }
#include "biquad.hh"

enum { LP, HP, NO, BP, AP };

struct Ref
{
	long double a0, a1, a2, b0, b1, b2, x1, x2, y1, y2;
	Ref() : a0(1), a1(0), a2(0), b0(1), b1(0), b2(0), x1(0), x2(0), y1(0), y2(0) {}
	void design(int kind, long double w, long double q)
	{
		long double c = cosl(w), s = sinl(w), al = s / (2 * q);
		a0 = 1 + al; a1 = -2 * c; a2 = 1 - al;
		switch (kind) {
		case LP: b0 = b2 = (1 - c) / 2; b1 = 1 - c; break;
		case HP: b0 = b2 = (1 + c) / 2; b1 = -1 - c; break;
		case NO: b0 = b2 = 1; b1 = -2 * c; break;
		case BP: b0 = al; b1 = 0; b2 = -al; break;
		case AP: b0 = 1 - al; b1 = -2 * c; b2 = 1 + al; break;
		}
	}
	long double operator () (long double x)
	{
		long double y = (b0 * x + b1 * x1 + b2 * x2 - a1 * y1 - a2 * y2) / a0;
		x2 = x1; x1 = x;
		y2 = y1; y1 = y;
		return y;
	}
};
static void design(DSP::Biquad<double, double> &f, Ref &r, int kind, int n, int N, long double q)
{
	switch (kind) {
	case LP: f.lowpass(n, N, q); break;
	case HP: f.highpass(n, N, q); break;
	case NO: f.notch(n, N, q); break;
	case BP: f.bandpass(n, N, q); break;
	case AP: f.allpass(n, N, q); break;
	}
	r.design(kind, 2 * VPI * n / N, kind > HP ? powl(10, q / 10) : q);
}
static void run(int kind, int n, int N, double q)
{
	DSP::Biquad<double, double> f;
	Ref r;
	design(f, r, kind, n, N, q);
	for (int i = 0; i < 5; ++i) {
		double x = vs_f64("x", -1, 1);
		vclose(f(x), r(x), 1e-10L, "biquad section");
	}
}
static void freqs(int kind, double q)
{
	switch (vs_pick(8)) {
	case 0: run(kind, 1, 16, q); break;
	case 1: run(kind, 1, 8, q); break;
	case 2: run(kind, 1, 4, q); break;
	case 3: run(kind, 3, 8, q); break;
	case 4: run(kind, 1, 3, q); break;
	case 5: run(kind, 3, 100, q); break;
	case 6: run(kind, 5, 1000, q); break;
	case 7: run(kind, 479, 1000, q); break;
	}
}
ENTRY(quick_lowpass)
{
	switch (vs_pick(3)) {
	case 0: freqs(LP, 0.70710678118654752440); break;
	case 1: freqs(LP, 0.6); break;
	case 2: freqs(LP, 3); break;
	}
}
ENTRY(quick_highpass)
{
	switch (vs_pick(3)) {
	case 0: freqs(HP, 0.70710678118654752440); break;
	case 1: freqs(HP, 0.6); break;
	case 2: freqs(HP, 3); break;
	}
}
#define THREE(KIND) \
	switch (vs_pick(4)) { \
	case 0: freqs(KIND, 0); break; \
	case 1: freqs(KIND, 6); break; \
	case 2: freqs(KIND, -3); break; \
	case 3: freqs(KIND, 20); break; \
	}
ENTRY(quick_notch)
{ THREE(NO) }
ENTRY(quick_bandpass)
{ THREE(BP) }
ENTRY(quick_allpass)
{ THREE(AP) }
static void standard(int n, int N)
{
	DSP::Biquad<double, double> lp, hp;
	Ref rlp, rhp;
	lp.lowpass(n, N);
	hp.highpass(n, N);
	rlp.design(LP, 2 * VPI * n / N, sqrtl(0.5L));
	rhp.design(HP, 2 * VPI * n / N, sqrtl(0.5L));
	for (int i = 0; i < 5; ++i) {
		double x = vs_f64("x", -1, 1);
		vclose(lp(x), rlp(x), 1e-10L, "lowpass of default quality");
		vclose(hp(x), rhp(x), 1e-10L, "highpass of default quality");
	}
}
ENTRY(quick_standard)
{
	switch (vs_pick(2)) {
	case 0: standard(1, 10); break;
	case 1: standard(3, 7); break;
	}
}
ENTRY(quick_default)
{
	DSP::Biquad<double, double> f;
	Ref r;
	for (int i = 0; i < 9; ++i) {
		double x = vs_f64("x", -1, 1);
		if (i == 2)
			design(f, r, HP, 1, 5, 0.8);
		if (i == 4)
			design(f, r, BP, 1, 7, 1);
		if (i == 7)
			design(f, r, LP, 2, 7, 1.5);
		if (i < 2)
			vclose(f(x), r(x), 1e-12L, "passes through by default");
		else
			vclose(f(x), r(x), 1e-10L, "parameters changed while running");
	}
}
template <int NUM>
static void cascade(bool high, int n, int N)
{
	DSP::BiquadCascade<double, double, NUM> f;
	Ref r[NUM];
	if (high)
		f.highpass(n, N);
	else
		f.lowpass(n, N);
	for (int k = 0; k < NUM; ++k)
		r[k].design(high ? HP : LP, 2 * VPI * n / N, 1 / (2 * cosl(VPI * (2 * k + 1) / (4 * NUM))));
	for (int i = 0; i < 6; ++i) {
		double x = vs_f64("x", -1, 1);
		long double y = x;
		for (int k = 0; k < NUM; ++k)
			y = r[k](y);
		vclose(f(x), y, 1e-9L, "Butterworth cascade");
	}
}
template <int NUM>
static void cascades()
{
	switch (vs_pick(6)) {
	case 0: cascade<NUM>(false, 1, 16); break;
	case 1: cascade<NUM>(true, 1, 16); break;
	case 2: cascade<NUM>(false, 1, 5); break;
	case 3: cascade<NUM>(true, 1, 5); break;
	case 4: cascade<NUM>(false, 2, 5); break;
	case 5: cascade<NUM>(true, 2, 5); break;
	}
}
ENTRY(quick_cascade1)
{ cascades<1>(); }
ENTRY(quick_cascade2)
{ cascades<2>(); }
ENTRY(quick_cascade3)
{ cascades<3>(); }
ENTRY(quick_cascade4)
{ cascades<4>(); }
ENTRY(quick_cascade5)
{ cascades<5>(); }
