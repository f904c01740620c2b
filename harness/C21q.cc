// vfile: mode=real tm=1
#include "vs.h"
#include "const.hh"
namespace DSP { using std::sqrt; }
#include "biquad.hh"

static void run(bool high, int n, int N, double lo, double hi)
{
	double q = vs_f64("q", lo, hi);
	DSP::Biquad<double, double> f;
	if (high)
		f.highpass(n, N, q);
	else
		f.lowpass(n, N, q);
	long double c = cosl(2 * VPI * n / N), al = sinl(2 * VPI * n / N) / (2 * q);
	long double b0 = (high ? 1 + c : 1 - c) / 2, b1 = high ? -1 - c : 1 - c;
	long double x1 = 0, x2 = 0, y1 = 0, y2 = 0;
	for (int i = 0; i < 3; ++i) {
		double x = vs_f64("x", -1, 1);
		long double y = (b0 * x + b1 * x1 + b0 * x2 + 2 * c * y1 - (1 - al) * y2) / (1 + al);
		x2 = x1; x1 = x;
		y2 = y1; y1 = y;
		vclose(f(x), y, 1e-9L, "biquad section of any quality");
	}
}
static void all(int n, int N)
{
	switch (vs_pick(6)) {
	case 0: run(false, n, N, 0.5, 1); break;
	case 1: run(true, n, N, 0.5, 1); break;
	case 2: run(false, n, N, 1, 2); break;
	case 3: run(true, n, N, 1, 2); break;
	case 4: run(false, n, N, 2, 4); break;
	case 5: run(true, n, N, 2, 4); break;
	}
}
ENTRY(quick_quality1)
{ all(1, 16); }
ENTRY(quick_quality2)
{ all(2, 5); }
