// vfile: mode=real tm=1 tmbits=34
// bound: 3 points with abscissas and ordinates both symbolic within 0.02 of several configurations (error bound 1e-7); crossing with the abscissa likewise
#include "vs.h"
#include "regression.hh"

typedef DSP::SimpleLinearRegression<double> slr;

static void around(double x0, double x1, double x2, double y0, double y1, double y2)
{
	double w = 0.02;
	double x[3] = { vs_f64("x", x0 - w, x0 + w), vs_f64("x", x1 - w, x1 + w), vs_f64("x", x2 - w, x2 + w) };
	double y[3] = { vs_f64("y", y0 - w, y0 + w), vs_f64("y", y1 - w, y1 + w), vs_f64("y", y2 - w, y2 + w) };
	slr r(x, y, 3);
	long double s = 0, sx = 0, a = r.yint(), b = r.slope();
	for (int i = 0; i < 3; ++i) {
		long double e = y[i] - (a + b * x[i]);
		s += e;
		sx += e * x[i];
	}
	vclose(s, 0, 1e-6L, "residuals add up to zero");
	vclose(sx, 0, 1e-6L, "residuals are orthogonal to the abscissas");
	vclose(a + b * (long double)r.xint(), 0, 1e-6L, "crossing with the abscissa");
}
static void uniform(int n, double x0, double dx, double slope, double offset)
{
	double w = 0.05, y[6];
	for (int i = 0; i < n; ++i) {
		double m = offset + slope * (x0 + dx * i);
		y[i] = vs_f64("y", m - w, m + w);
	}
	slr r(y, n, x0, dx);
	vclose(r.yint() + r.slope() * (long double)r.xint(), 0, 1e-6L, "crossing with the abscissa");
}
ENTRY(quick_around)
{
	switch (vs_pick(2)) {
	case 0: around(-1, 0, 2, 1, 2, 3); break;
	case 1: around(3, 1, 0, 1, 2, 4); break;
	}
}
ENTRY(quick_cross)
{
	switch (vs_pick(3)) {
	case 0: uniform(3, 0, 1, 1, 1); break;
	case 1: uniform(4, -2, 0.5, -2, 1); break;
	case 2: uniform(5, 1, 2, 0.5, -3); break;
	}
}
