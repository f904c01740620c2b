// vfile: mode=real
// bound: 3 to 6 points, uniform and irregular abscissas, ordinates of any value in [-1,1], positions inside and up to two steps outside; error bound 1e-9 (double)
// assume: at least three points (the slopes need neighbours)
#include "vs.h"
#include <algorithm>
#include "spline.hh"

typedef DSP::CubicHermiteSpline<double, double> spline;

// cubic with values a, b and slopes p, q at t = 0, 1
static long double cubic(long double t, long double a, long double b, long double p, long double q)
{
	long double c2 = 3 * (b - a) - 2 * p - q, c3 = 2 * (a - b) + p + q;
	return a + t * (p + t * (c2 + t * c3));
}
static long double slope(const double *X, const double *Y, int k, int n)
{
	long double l = 0, r = 0;
	if (k > 0)
		l = ((long double)Y[k] - Y[k-1]) / ((long double)X[k] - X[k-1]);
	if (k < n - 1)
		r = ((long double)Y[k+1] - Y[k]) / ((long double)X[k+1] - X[k]);
	return k == 0 ? r : k == n - 1 ? l : (l + r) / 2;
}
static long double ref(const double *X, const double *Y, int k, int n, long double x)
{
	long double h = (long double)X[k+1] - X[k];
	return cubic((x - X[k]) / h, Y[k], Y[k+1], h * slope(X, Y, k, n), h * slope(X, Y, k+1, n));
}
static void irregular(int n, int seg, const double *X)
{
	double Y[8];
	for (int i = 0; i < n; ++i)
		Y[i] = vs_f64("y", -1, 1);
	double x = seg < 0 ? vs_f64("x", X[0] - 2, X[0]) :
		seg >= n - 1 ? vs_f64("x", X[n-1], X[n-1] + 2) :
		vs_f64("x", X[seg], X[seg+1]);
	int k = seg < 0 ? 0 : seg >= n - 1 ? n - 2 : seg;
	vclose(spline::eval(X, Y, x, n), ref(X, Y, k, n, x), 1e-9L, "spline over irregular points");
	double t = vs_f64("t", 0, 1);
	vclose(spline::eval(X, Y, t, k, n), ref(X, Y, k, n, X[k] + t * ((long double)X[k+1] - X[k])), 1e-9L, "segment of the spline over irregular points");
}
static void uniform(int n, int seg, double x0, double dx, bool def)
{
	double X[8], Y[8];
	for (int i = 0; i < n; ++i) {
		X[i] = x0 + i * dx;
		Y[i] = vs_f64("y", -1, 1);
	}
	double x = seg < 0 ? vs_f64("x", x0 - 2 * dx, x0) :
		seg >= n - 1 ? vs_f64("x", X[n-1], X[n-1] + 2 * dx) :
		vs_f64("x", X[seg], X[seg+1]);
	int k = seg < 0 ? 0 : seg >= n - 1 ? n - 2 : seg;
	vclose(def ? spline::eval(Y, x, n) : spline::eval(Y, x, n, x0, dx), ref(X, Y, k, n, x), 1e-9L, "spline over uniform points");
	double t = vs_f64("t", 0, 1);
	vclose(spline::eval(Y, t, k, n), ref(X, Y, k, n, X[k] + t * (long double)dx), 1e-9L, "segment of the spline over uniform points");
}
static const double even[6] = { 0, 1, 2, 3, 4, 5 }, odd[6] = { -1, -0.75, 1, 1.5, 4, 4.5 };
static void irr(int n, const double *X)
{
	irregular(n, vs_pick(n + 1) - 1, X);
}
static void uni(int n, double x0, double dx, bool def)
{
	uniform(n, vs_pick(n + 1) - 1, x0, dx, def);
}
ENTRY(quick_irregular3)
{ irr(3, odd); }
ENTRY(quick_irregular4)
{ irr(4, odd); }
ENTRY(quick_irregular5)
{ irr(5, odd); }
ENTRY(quick_irregular6)
{ irr(6, odd); }
ENTRY(quick_even4)
{ irr(4, even); }
ENTRY(quick_uniform3)
{ uni(3, 0, 1, true); }
ENTRY(quick_uniform4)
{ uni(4, 0, 1, true); }
ENTRY(quick_uniform5)
{ uni(5, -2, 0.5, false); }
ENTRY(quick_uniform6)
{ uni(6, 8, 4, false); }
