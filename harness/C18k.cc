// vfile: mode=real tm=1 refine=1 tmbits=50
#include "vs.h"
namespace DSP { using std::sqrt; using std::exp; using std::pow; using std::sin; }
#include "const.hh"
#include "window.hh"

static long double bessel(long double x)
{
	long double sum = 1, val = 1;
	for (int n = 1; n < 60; ++n) {
		val *= x * x / (4.0L * n * n);
		sum += val;
	}
	return sum;
}
// fixed parameters: the number of terms depends on single roundings
static void kaiser(int n, int N, double a)
{
	long double t = 2.0L * n / (N - 1) - 1;
	long double w = bessel(VPI * a * sqrtl(1 - t * t)), z = bessel(VPI * a);
	vclose(z * (long double)DSP::Kaiser<double>(a)(n, N), w, 1e-12L * z, "Kaiser window");
}
static void kaisers(int N)
{
	int n = vs_pick(N);
	double a = 0.25 * vs_pick(13);
	kaiser(n, N, a);
}
ENTRY(quick_kaiser2)
{ kaisers(2); }
ENTRY(quick_kaiser5)
{ kaisers(5); }
ENTRY(quick_kaiser8)
{ kaisers(8); }
ENTRY(quick_kaiser33)
{ kaisers(33); }
static void gauss(int n, int N, double lo, double hi)
{
	double o = vs_f64("o", lo, hi);
	long double x = (2 * n - (N - 1)) / (o * (N - 1));
	vclose(DSP::Gauss<double>(o)(n, N), expl(-x * x / 2), 1e-9L, "Gauss window");
}
static void gausses(int N)
{
	int n = vs_pick(N);
	double lo = 0.1 + 0.05 * vs_pick(18);
	gauss(n, N, lo, lo + 0.05);
}
ENTRY(quick_gauss8)
{ gausses(8); }
ENTRY(quick_gauss9)
{ gausses(9); }
static void positions(int lo, int hi, int N)
{
	int n = vs_i32("n", lo, hi);
	long double x = (2 * n - (N - 1)) / (0.3L * (N - 1));
	vclose(DSP::Gauss<double>(0.3)(n, N), expl(-x * x / 2), 1e-9L, "Gauss window at every position");
}
static void all(int N)
{
	int k = vs_pick(20);
	positions(k * N / 20, (k + 1) * N / 20 - 1, N);
}
ENTRY(quick_gauss100)
{ all(100); }
ENTRY(quick_gauss101)
{ all(101); }
