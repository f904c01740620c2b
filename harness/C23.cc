// vfile: mode=real tm=1
// bound: angular steps of any value in [-3.2,3.2] (pieces of 0.2) over 6 outputs, rates n/N for N = 5, 8, 12, 100, 48000 with n of both signs over 8 outputs; frequency likewise in [-0.5,0.5]; error bound 1e-9 (double)
// bound: start value, reset and change of the step from any kind to any other while running; magnitude one over 12 outputs
#include "vs.h"
namespace DSP { using std::sqrt; using std::cos; using std::sin; using std::hypot; }
#include "const.hh"
#include "complex.hh"
#include "phasor.hh"

typedef DSP::Complex<double> cmplx;

static void expect(cmplx z, long double phi)
{
	vclose(z.real(), cosl(phi), 1e-9L, "cosine of the phase");
	vclose(z.imag(), sinl(phi), 1e-9L, "sine of the phase");
}
static void step(double lo, double hi, int len)
{
	double v = vs_f64("v", lo, hi);
	DSP::Phasor<cmplx> osc;
	osc.omega(v);
	for (int i = 0; i < len; ++i)
		expect(osc(), v * (long double)i);
}
static void freq(double lo, double hi, int len)
{
	double v = vs_f64("v", lo, hi);
	DSP::Phasor<cmplx> osc;
	osc.freq(v);
	for (int i = 0; i < len; ++i)
		expect(osc(), 2 * VPI * v * i);
}
static void ratio(int n, int N)
{
	double v = vs_f64("v", -0.1, 0.1);
	DSP::Phasor<cmplx> osc;
	osc.omega(v);
	expect(osc(), 0);
	osc.omega(n, N);
	expect(osc(), v);
	for (int i = 1; i < 8; ++i)
		expect(osc(), v + 2 * VPI * n * i / N);
	osc.reset();
	for (int i = 0; i < 3; ++i)
		expect(osc(), 2 * VPI * n * i / N);
}
ENTRY(quick_step0)
{
	switch (vs_pick(8)) {
	case 0: step(-3.2, -3.0, 6); break;
	case 1: step(-3.0, -2.8, 6); break;
	case 2: step(-2.8, -2.6, 6); break;
	case 3: step(-2.6, -2.4, 6); break;
	case 4: step(-2.4, -2.2, 6); break;
	case 5: step(-2.2, -2.0, 6); break;
	case 6: step(-2.0, -1.8, 6); break;
	case 7: step(-1.8, -1.6, 6); break;
	}
}
ENTRY(quick_step1)
{
	switch (vs_pick(8)) {
	case 0: step(-1.6, -1.4, 6); break;
	case 1: step(-1.4, -1.2, 6); break;
	case 2: step(-1.2, -1.0, 6); break;
	case 3: step(-1.0, -0.8, 6); break;
	case 4: step(-0.8, -0.6, 6); break;
	case 5: step(-0.6, -0.4, 6); break;
	case 6: step(-0.4, -0.2, 6); break;
	case 7: step(-0.2, 0.0, 6); break;
	}
}
ENTRY(quick_step2)
{
	switch (vs_pick(8)) {
	case 0: step(0.0, 0.2, 6); break;
	case 1: step(0.2, 0.4, 6); break;
	case 2: step(0.4, 0.6, 6); break;
	case 3: step(0.6, 0.8, 6); break;
	case 4: step(0.8, 1.0, 6); break;
	case 5: step(1.0, 1.2, 6); break;
	case 6: step(1.2, 1.4, 6); break;
	case 7: step(1.4, 1.6, 6); break;
	}
}
ENTRY(quick_step3)
{
	switch (vs_pick(8)) {
	case 0: step(1.6, 1.8, 6); break;
	case 1: step(1.8, 2.0, 6); break;
	case 2: step(2.0, 2.2, 6); break;
	case 3: step(2.2, 2.4, 6); break;
	case 4: step(2.4, 2.6, 6); break;
	case 5: step(2.6, 2.8, 6); break;
	case 6: step(2.8, 3.0, 6); break;
	case 7: step(3.0, 3.2, 6); break;
	}
}
ENTRY(quick_freq0)
{
	switch (vs_pick(10)) {
	case 0: freq(-0.50, -0.45, 4); break;
	case 1: freq(-0.45, -0.40, 4); break;
	case 2: freq(-0.40, -0.35, 4); break;
	case 3: freq(-0.35, -0.30, 4); break;
	case 4: freq(-0.30, -0.25, 4); break;
	case 5: freq(-0.25, -0.20, 4); break;
	case 6: freq(-0.20, -0.15, 4); break;
	case 7: freq(-0.15, -0.10, 4); break;
	case 8: freq(-0.10, -0.05, 4); break;
	case 9: freq(-0.05, 0.00, 4); break;
	}
}
ENTRY(quick_freq1)
{
	switch (vs_pick(10)) {
	case 0: freq(0.00, 0.05, 4); break;
	case 1: freq(0.05, 0.10, 4); break;
	case 2: freq(0.10, 0.15, 4); break;
	case 3: freq(0.15, 0.20, 4); break;
	case 4: freq(0.20, 0.25, 4); break;
	case 5: freq(0.25, 0.30, 4); break;
	case 6: freq(0.30, 0.35, 4); break;
	case 7: freq(0.35, 0.40, 4); break;
	case 8: freq(0.40, 0.45, 4); break;
	case 9: freq(0.45, 0.50, 4); break;
	}
}
ENTRY(quick_ratio0)
{
	switch (vs_pick(8)) {
	case 0: ratio(1, 5); break;
	case 1: ratio(-1, 5); break;
	case 2: ratio(2, 5); break;
	case 3: ratio(1, 8); break;
	case 4: ratio(3, 8); break;
	case 5: ratio(-3, 8); break;
	case 6: ratio(1, 12); break;
	case 7: ratio(5, 12); break;
	}
}
ENTRY(quick_ratio1)
{
	switch (vs_pick(8)) {
	case 0: ratio(-7, 12); break;
	case 1: ratio(1, 100); break;
	case 2: ratio(-49, 100); break;
	case 3: ratio(1, 48000); break;
	case 4: ratio(-23999, 48000); break;
	case 5: ratio(11, 12); break;
	case 6: ratio(1, 1); break;
	case 7: ratio(0, 1); break;
	}
}
ENTRY(quick_long)
{ step(0.299, 0.301, 12); }

// any kind of step after any other, phase kept
static void change(int from, int to)
{
	double v = vs_f64("v", 0.08, 0.12), w = vs_f64("w", -0.05, 0.05);
	DSP::Phasor<cmplx> osc;
	long double d, phi = 0;
	for (int turn = 0; turn < 2; ++turn) {
		int kind = turn ? to : from;
		if (kind == 0) {
			osc.omega(turn ? w : v);
			d = turn ? w : v;
		} else if (kind == 1) {
			osc.freq(turn ? w : v);
			d = 2 * VPI * (turn ? w : v);
		} else {
			osc.omega(turn ? -3 : 2, 17);
			d = 2 * VPI * (turn ? -3 : 2) / 17;
		}
		for (int i = 0; i < 3; ++i) {
			expect(osc(), phi);
			phi += d;
		}
	}
	osc.reset();
	expect(osc(), 0);
	expect(osc(), d);
}
ENTRY(quick_change)
{
	int from = vs_pick(3), to = vs_pick(3);
	change(from, to);
}
