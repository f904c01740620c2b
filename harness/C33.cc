// vfile: mode=real
// bound: 2 to 8 knots of any value in [-1,1], positions inside and up to one step (two on the left) outside of the knots, start and spacing (0,1), (-3,0.5) and (10,4), strides 1, 2 and 3; error bound 1e-9 (double)
// assume: the reference solves for the second derivatives at the knots (zero at both ends) in exact arithmetic
#include "vs.h"
#include <algorithm>
#include "spline.hh"

template <int N>
static void run(int seg, double x0, double dx, int stride)
{
	double y[3 * N];
	long double m[N], u[N], z[N];
	for (int i = 0; i < 3 * N; ++i)
		y[i] = 1000;
	for (int i = 0; i < N; ++i)
		y[i * stride] = vs_f64("y", -1, 1);
	DSP::UniformNaturalCubicSpline<N, double, double> s(y, x0, dx, stride);
	// m[i-1] + 4 * m[i] + m[i+1] = 6 * (y[i-1] - 2 * y[i] + y[i+1]), second derivatives times the spacing squared
	m[0] = m[N-1] = 0;
	u[0] = z[0] = 0;
	for (int i = 1; i < N - 1; ++i) {
		u[i] = 1 / (4 - u[i-1]);
		z[i] = (6 * ((long double)y[(i-1)*stride] - 2 * (long double)y[i*stride] + y[(i+1)*stride]) - z[i-1]) * u[i];
	}
	for (int i = N - 2; i > 0; --i)
		m[i] = z[i] - u[i] * m[i+1];
	double x = seg < 0 ? vs_f64("x", x0 - 2 * dx, x0) :
		seg >= N - 1 ? vs_f64("x", x0 + (N - 1) * dx, x0 + N * dx) :
		vs_f64("x", x0 + seg * dx, x0 + (seg + 1) * dx);
	int k = seg < 0 ? 0 : seg >= N - 1 ? N - 2 : seg;
	long double t = (x - (long double)x0) / dx - k, r = 1 - t;
	long double want = r * y[k*stride] + t * y[(k+1)*stride] + ((r * r * r - r) * m[k] + (t * t * t - t) * m[k+1]) / 6;
	vclose(s(x), want, 1e-9L, "natural cubic spline");
}
template <int N>
static void knots(double x0, double dx, int stride)
{
	int seg = vs_pick(N + 1) - 1;
	run<N>(seg, x0, dx, stride);
}
ENTRY(quick_2)
{ knots<2>(0, 1, 1); }
ENTRY(quick_3)
{ knots<3>(0, 1, 1); }
ENTRY(quick_4)
{ knots<4>(0, 1, 1); }
ENTRY(quick_5)
{ knots<5>(0, 1, 1); }
ENTRY(quick_6)
{ knots<6>(0, 1, 1); }
ENTRY(quick_8)
{ knots<8>(0, 1, 1); }
ENTRY(quick_4a)
{ knots<4>(-3, 0.5, 1); }
ENTRY(quick_4b)
{ knots<4>(10, 4, 2); }
ENTRY(quick_5s)
{ knots<5>(0, 1, 3); }
ENTRY(quick_default)
{
	double y[4];
	for (int i = 0; i < 4; ++i)
		y[i] = vs_f64("y", -1, 1);
	DSP::UniformNaturalCubicSpline<4, double, double> a(y), b;
	b = DSP::UniformNaturalCubicSpline<4, double, double>(y, 0, 1, 1);
	for (int i = 0; i < 4; ++i) {
		vclose(a(i), y[i], 1e-9L, "goes through the knots");
		vclose(b(i), y[i], 1e-9L, "goes through the knots");
	}
}
