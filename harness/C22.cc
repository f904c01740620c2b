// vfile: mode=real
// bound: DC blocker: lengths 1..8, 100 and 48000 and default, 6 symbolic samples in [-1,1] (double, error bound 1e-12); constant input of any level decays geometrically over 40 samples
#include "vs.h"
#include "blockdc.hh"

static void run(int s)
{
	DSP::BlockDC<double, double> f;
	if (s)
		f.samples(s);
	long double a = s ? 1 - 1 / (long double)s : 0, b = (1 + a) / 2, x1 = 0, y = 0;
	for (int i = 0; i < 6; ++i) {
		double x = vs_f64("x", -1, 1);
		y = a * y + b * (x - x1);
		x1 = x;
		vclose(f(x), y, 1e-12L, "first order high pass");
	}
}
ENTRY(quick_any)
{
	switch (vs_pick(11)) {
	case 0: run(0); break;
	case 1: run(1); break;
	case 2: run(2); break;
	case 3: run(3); break;
	case 4: run(4); break;
	case 5: run(5); break;
	case 6: run(6); break;
	case 7: run(7); break;
	case 8: run(8); break;
	case 9: run(100); break;
	case 10: run(48000); break;
	}
}
static void level(int s)
{
	DSP::BlockDC<double, double> f;
	f.samples(s);
	double x = vs_f64("x", -1, 1);
	long double a = 1 - 1 / (long double)s, y = (1 + a) / 2 * x;
	for (int i = 0; i < 40; ++i) {
		vclose(f(x), y, 1e-12L, "constant decays");
		y *= a;
	}
}
ENTRY(quick_constant)
{
	switch (vs_pick(3)) {
	case 0: level(2); break;
	case 1: level(10); break;
	case 2: level(1000); break;
	}
}
static void alternate(int s)
{
	// highest frequency passes with gain one
	DSP::BlockDC<double, double> f;
	f.samples(s);
	double x = vs_f64("x", -1, 1);
	long double a = 1 - 1 / (long double)s, t = (1 - a) / 2 * -x;
	for (int i = 0; i < 30; ++i) {
		vclose(f(i & 1 ? -x : x), (i & 1 ? -x : x) + t, 1e-12L, "alternating signal passes");
		t *= a;
	}
}
ENTRY(quick_alternate)
{
	switch (vs_pick(3)) {
	case 0: alternate(2); break;
	case 1: alternate(10); break;
	case 2: alternate(1000); break;
	}
}
