// vfile: mode=real tm=1
// bound: normaliser: lengths 1, 2, 4, 10, 100 and default, 3 symbolic samples away from the zero crossing of the blocked signal (double, error bound 1e-8); both parts of a complex signal
#include "vs.h"
namespace DSP { using std::sqrt; }
#include "const.hh"
#include "complex.hh"
#include "normalize.hh"

struct Ref
{
	long double a, b, al, x1, y1, e;
	Ref(int s) : a(s ? 1 - 1 / (long double)s : 0), al(s ? 1 / (long double)s : 1), x1(0), y1(0), e(0.5L) { b = (1 + a) / 2; }
	long double operator () (long double x)
	{
		long double y = b * (x - x1) + a * y1;
		x1 = x; y1 = y;
		e += al * (y * y - e);
		return y / sqrtl(2 * e);
	}
};
// one sample is symbolic
static void run(int s, int which, double lo, double hi)
{
	static const double x[4] = { 1.375, -0.5, 2.25, -1.75 };
	DSP::NormalizeSine<double> f;
	if (s)
		f.samples(s);
	Ref r(s);
	for (int i = 0; i < 4; ++i) {
		double in = i == which ? vs_f64("x", lo, hi) : x[i];
		vclose(f(in), r(in), 1e-9L, "unit amplitude");
	}
}
static void any(int s, int which)
{
	switch (vs_pick(4)) {
	case 0: run(s, which, 0.9, 1.1); break;
	case 1: run(s, which, -1.1, -0.9); break;
	case 2: run(s, which, 3.0, 3.2); break;
	case 3: run(s, which, 0.3, 0.4); break;
	}
}
ENTRY(quick_sine0)
{
	switch (vs_pick(3)) {
	case 0: any(0, 0); break;
	case 1: any(0, 1); break;
	case 2: any(0, 2); break;
	}
}
ENTRY(quick_sine1)
{
	switch (vs_pick(3)) {
	case 0: any(1, 0); break;
	case 1: any(1, 1); break;
	case 2: any(1, 2); break;
	}
}
ENTRY(quick_sine2)
{
	switch (vs_pick(3)) {
	case 0: any(2, 0); break;
	case 1: any(2, 1); break;
	case 2: any(2, 2); break;
	}
}
ENTRY(quick_sine4)
{
	switch (vs_pick(3)) {
	case 0: any(4, 0); break;
	case 1: any(4, 1); break;
	case 2: any(4, 2); break;
	}
}
ENTRY(quick_sine10)
{
	switch (vs_pick(3)) {
	case 0: any(10, 0); break;
	case 1: any(10, 1); break;
	case 2: any(10, 2); break;
	}
}
ENTRY(quick_sine100)
{
	switch (vs_pick(3)) {
	case 0: any(100, 0); break;
	case 1: any(100, 1); break;
	case 2: any(100, 2); break;
	}
}
ENTRY(quick_iq)
{
	DSP::NormalizeIQ<DSP::Complex<double>> f;
	f.samples(3);
	Ref i(3), q(3);
	DSP::Complex<double> a(vs_f64("re", 0.8, 1.2), vs_f64("im", -2.2, -1.8));
	DSP::Complex<double> o = f(a);
	vclose(o.real(), i(a.real()), 1e-8L, "unit amplitude of the real part");
	vclose(o.imag(), q(a.imag()), 1e-8L, "unit amplitude of the imaginary part");
	DSP::Complex<double> b(vs_f64("re", -0.5, -0.3), vs_f64("im", 0.4, 0.6));
	o = f(b);
	vclose(o.real(), i(b.real()), 1e-8L, "unit amplitude of the real part");
	vclose(o.imag(), q(b.imag()), 1e-8L, "unit amplitude of the imaginary part");
}
