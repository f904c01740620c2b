// vfile: mode=real tm=1 tmbits=40
#include "vs.h"
namespace DSP { using std::abs; }
#include "coeffs.hh"

template <int N>
struct Table
{
	double v[N];
	double operator () (int n, int M) const { return M == N ? v[n] : 0; }
};
template <int N>
static void fill(Table<N> &t, const char *name, double lo, double hi)
{
	for (int i = 0; i < N; ++i)
		t.v[i] = vs_f64(name, lo, hi);
}
template <int N, bool NORMALIZE>
static void single(double lo, double hi)
{
	Table<N> t;
	fill(t, "v", lo, hi);
	DSP::Coeffs<N, double, NORMALIZE> c(&t);
	long double sum = 0;
	for (int i = 0; i < N; ++i)
		sum += t.v[i];
	if (sum < 0)
		sum = -sum;
	const double *p = c;
	for (int i = 0; i < N; ++i) {
		vclose(c(i) * (NORMALIZE ? sum : 1), t.v[i], 1e-9L, "coefficient");
		vclose(p[i], c(i), 1e-9L, "array of coefficients");
	}
	int n = vs_i32("n", -1000, 1000);
	if (n < 0 || n >= N)
		vclose(c(n), 0, 0, "outside of the coefficients");
}
template <int N, bool NORMALIZE>
static void product(double lo, double hi)
{
	Table<N> s, t;
	for (int i = 0; i < N; ++i)
		s.v[i] = 2 - 0.25 * i;
	fill(t, "v", lo, hi);
	DSP::Coeffs<N, double, NORMALIZE> c(&s, &t);
	long double sum = 0;
	for (int i = 0; i < N; ++i)
		sum += (long double)s.v[i] * t.v[i];
	if (sum < 0)
		sum = -sum;
	for (int i = 0; i < N; ++i)
		vclose(c(i) * (NORMALIZE ? sum : 1), (long double)s.v[i] * t.v[i], 1e-9L, "product of functions");
}
ENTRY(quick_plain)
{ single<5, false>(-10, 10); }
ENTRY(quick_normal)
{ single<3, true>(0.9, 1.1); }
ENTRY(quick_negative)
{ single<3, true>(-1.1, -0.9); }
ENTRY(quick_product)
{ product<5, false>(-10, 10); }
ENTRY(quick_normal_product)
{ product<3, true>(0.9, 1.1); }
ENTRY(quick_again)
{
	Table<2> t;
	fill(t, "v", 0.9, 1.1);
	DSP::Coeffs<2, double> c(&t);
	c.normalize(4);
	long double sum = (long double)t.v[0] + t.v[1];
	for (int i = 0; i < 2; ++i)
		vclose(4 * c(i) * sum, t.v[i], 1e-9L, "normalised to another sum");
}
