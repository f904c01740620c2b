// vfile: mode=real wild=1
// bound: 2 to 6 points with ordinates of any value in [-1,1]; irregular abscissas (fixed sets, any order, with repetitions) and uniform ones; error bound 1e-9 (double)
#include "vs.h"
#include "regression.hh"

typedef DSP::SimpleLinearRegression<double> slr;

static void normal(slr &r, const double *x, const double *y, int n)
{
	// sums of the residuals and of their products with x vanish, which determines the line
	long double s = 0, sx = 0, a = r.yint(), b = r.slope();
	for (int i = 0; i < n; ++i) {
		long double e = y[i] - (a + b * x[i]);
		s += e;
		sx += e * x[i];
	}
	vclose(s, 0, 1e-9L, "residuals add up to zero");
	vclose(sx, 0, 1e-9L, "residuals are orthogonal to the abscissas");
	double t = vs_f64("t", -2, 2);
	vclose(r(t), a + b * t, 1e-9L, "value on the line");
}
static void irregular(const double *x, int n)
{
	double y[8];
	for (int i = 0; i < n; ++i)
		y[i] = vs_f64("y", -1, 1);
	slr r(x, y, n);
	normal(r, x, y, n);
}
static void uniform(int n, double x0, double dx, bool def)
{
	double x[8], y[8];
	for (int i = 0; i < n; ++i) {
		x[i] = x0 + i * dx;
		y[i] = vs_f64("y", -1, 1);
	}
	slr r = def ? slr(y, n) : slr(y, n, x0, dx);
	normal(r, x, y, n);
}
static const double odd[6] = { -1, -0.75, 1, 1.5, 4, 4.5 }, any[6] = { 3, -2, 3, 0.5, -1, 3 };
ENTRY(quick_irregular)
{
	switch (vs_pick(7)) {
	case 0: irregular(odd, 2); break;
	case 1: irregular(odd, 3); break;
	case 2: irregular(odd, 4); break;
	case 3: irregular(odd, 6); break;
	case 4: irregular(any, 3); break;
	case 5: irregular(any, 5); break;
	case 6: irregular(any, 6); break;
	}
}
ENTRY(quick_uniform)
{
	switch (vs_pick(7)) {
	case 0: uniform(2, 0, 1, true); break;
	case 1: uniform(3, 0, 1, true); break;
	case 2: uniform(4, 0, 1, true); break;
	case 3: uniform(5, -2, 0.5, false); break;
	case 4: uniform(6, 1, 0.25, false); break;
	case 5: uniform(3, 3, -2, false); break;
	case 6: uniform(4, -0.5, 0.125, false); break;
	}
}
ENTRY(quick_default)
{
	slr r;
	double t = vs_f64("t", -2, 2);
	vclose(r(t), 0, 1e-12L, "zero line by default");
	vclose(r.slope(), 0, 1e-12L, "zero line by default");
	vclose(r.yint(), 0, 1e-12L, "zero line by default");
	vclose(r.xint(), 0, 1e-12L, "zero line by default");
}
