// vfile: mode=real refine=1
// bound: double: N = 1..40, 64, 97, 100, 360, 1000, 4096, 48000, 65537, 1000003, 2^24, 200000033 and float: N = 1..24, 100, 360, 4096, 65536; every n from -N to N (symbolic); error bounds 1e-15 and 4e-7
// bound: exactness at the axes: every N = 4m with m up to 8000000, float and double, bit-exact
// assume: the reference is the Taylor series up to order 21 of the angle reduced to [-pi/4,pi/4], which is exact to 1e-20
#include "vs.h"
#include "const.hh"
#include "unit_circle.hh"

static long double cos_series(long double x)
{
	long double xx = x * x, sum = 1;
	for (int k = 20; k >= 2; k -= 2)
		sum = 1 - sum * xx / (k * (k - 1));
	return sum;
}
static long double sin_series(long double x)
{
	long double xx = x * x, sum = 1;
	for (int k = 21; k >= 3; k -= 2)
		sum = 1 - sum * xx / (k * (k - 1));
	return sum * x;
}
template <typename TYPE>
static void run(int N, long double tol)
{
	int n = vs_i32("n", -N, N);
	// nearest quarter turn
	int q = -4;
	while (q < 4 && 8LL * n >= (2LL * q + 1) * N)
		++q;
	long double x = VPI * (4LL * n - (long long)q * N) / (2LL * N);
	long double c = cos_series(x), s = sin_series(x), co = 0, si = 0;
	switch ((q + 4) % 4) {
	case 0: co = c; si = s; break;
	case 1: co = -s; si = c; break;
	case 2: co = -c; si = -s; break;
	case 3: co = s; si = -c; break;
	}
	vclose(DSP::UnitCircle<TYPE>::cos(n, N), co, tol, "cosine of n parts of a circle in N");
	vclose(DSP::UnitCircle<TYPE>::sin(n, N), si, tol, "sine of n parts of a circle in N");
}
ENTRY(quick_d1)
{ run<double>(1, 1e-15L); }
ENTRY(quick_d2)
{ run<double>(2, 1e-15L); }
ENTRY(quick_d3)
{ run<double>(3, 1e-15L); }
ENTRY(quick_d4)
{ run<double>(4, 1e-15L); }
ENTRY(quick_d5)
{ run<double>(5, 1e-15L); }
ENTRY(quick_d6)
{ run<double>(6, 1e-15L); }
ENTRY(quick_d7)
{ run<double>(7, 1e-15L); }
ENTRY(quick_d8)
{ run<double>(8, 1e-15L); }
ENTRY(quick_d9)
{ run<double>(9, 1e-15L); }
ENTRY(quick_d10)
{ run<double>(10, 1e-15L); }
ENTRY(quick_d11)
{ run<double>(11, 1e-15L); }
ENTRY(quick_d12)
{ run<double>(12, 1e-15L); }
ENTRY(quick_d13)
{ run<double>(13, 1e-15L); }
ENTRY(quick_d14)
{ run<double>(14, 1e-15L); }
ENTRY(quick_d15)
{ run<double>(15, 1e-15L); }
ENTRY(quick_d16)
{ run<double>(16, 1e-15L); }
ENTRY(quick_d17)
{ run<double>(17, 1e-15L); }
ENTRY(quick_d18)
{ run<double>(18, 1e-15L); }
ENTRY(quick_d19)
{ run<double>(19, 1e-15L); }
ENTRY(quick_d20)
{ run<double>(20, 1e-15L); }
ENTRY(quick_d21)
{ run<double>(21, 1e-15L); }
ENTRY(quick_d22)
{ run<double>(22, 1e-15L); }
ENTRY(quick_d23)
{ run<double>(23, 1e-15L); }
ENTRY(quick_d24)
{ run<double>(24, 1e-15L); }
ENTRY(quick_d25)
{ run<double>(25, 1e-15L); }
ENTRY(quick_d26)
{ run<double>(26, 1e-15L); }
ENTRY(quick_d27)
{ run<double>(27, 1e-15L); }
ENTRY(quick_d28)
{ run<double>(28, 1e-15L); }
ENTRY(quick_d29)
{ run<double>(29, 1e-15L); }
ENTRY(quick_d30)
{ run<double>(30, 1e-15L); }
ENTRY(quick_d31)
{ run<double>(31, 1e-15L); }
ENTRY(quick_d32)
{ run<double>(32, 1e-15L); }
ENTRY(quick_d33)
{ run<double>(33, 1e-15L); }
ENTRY(quick_d34)
{ run<double>(34, 1e-15L); }
ENTRY(quick_d35)
{ run<double>(35, 1e-15L); }
ENTRY(quick_d36)
{ run<double>(36, 1e-15L); }
ENTRY(quick_d37)
{ run<double>(37, 1e-15L); }
ENTRY(quick_d38)
{ run<double>(38, 1e-15L); }
ENTRY(quick_d39)
{ run<double>(39, 1e-15L); }
ENTRY(quick_d40)
{ run<double>(40, 1e-15L); }
ENTRY(quick_d64)
{ run<double>(64, 1e-15L); }
ENTRY(quick_d97)
{ run<double>(97, 1e-15L); }
ENTRY(quick_d100)
{ run<double>(100, 1e-15L); }
ENTRY(quick_d360)
{ run<double>(360, 1e-15L); }
ENTRY(quick_d1000)
{ run<double>(1000, 1e-15L); }
ENTRY(quick_d4096)
{ run<double>(4096, 1e-15L); }
ENTRY(quick_d48000)
{ run<double>(48000, 1e-15L); }
ENTRY(quick_d65537)
{ run<double>(65537, 1e-15L); }
ENTRY(quick_d1000003)
{ run<double>(1000003, 1e-15L); }
ENTRY(quick_d16777216)
{ run<double>(16777216, 1e-15L); }
ENTRY(quick_d200000033)
{ run<double>(200000033, 1e-15L); }
ENTRY(quick_f1)
{ run<float>(1, 4e-7L); }
ENTRY(quick_f2)
{ run<float>(2, 4e-7L); }
ENTRY(quick_f3)
{ run<float>(3, 4e-7L); }
ENTRY(quick_f4)
{ run<float>(4, 4e-7L); }
ENTRY(quick_f5)
{ run<float>(5, 4e-7L); }
ENTRY(quick_f6)
{ run<float>(6, 4e-7L); }
ENTRY(quick_f7)
{ run<float>(7, 4e-7L); }
ENTRY(quick_f8)
{ run<float>(8, 4e-7L); }
ENTRY(quick_f9)
{ run<float>(9, 4e-7L); }
ENTRY(quick_f10)
{ run<float>(10, 4e-7L); }
ENTRY(quick_f11)
{ run<float>(11, 4e-7L); }
ENTRY(quick_f12)
{ run<float>(12, 4e-7L); }
ENTRY(quick_f13)
{ run<float>(13, 4e-7L); }
ENTRY(quick_f14)
{ run<float>(14, 4e-7L); }
ENTRY(quick_f15)
{ run<float>(15, 4e-7L); }
ENTRY(quick_f16)
{ run<float>(16, 4e-7L); }
ENTRY(quick_f17)
{ run<float>(17, 4e-7L); }
ENTRY(quick_f18)
{ run<float>(18, 4e-7L); }
ENTRY(quick_f19)
{ run<float>(19, 4e-7L); }
ENTRY(quick_f20)
{ run<float>(20, 4e-7L); }
ENTRY(quick_f21)
{ run<float>(21, 4e-7L); }
ENTRY(quick_f22)
{ run<float>(22, 4e-7L); }
ENTRY(quick_f23)
{ run<float>(23, 4e-7L); }
ENTRY(quick_f24)
{ run<float>(24, 4e-7L); }
ENTRY(quick_f100)
{ run<float>(100, 4e-7L); }
ENTRY(quick_f360)
{ run<float>(360, 4e-7L); }
ENTRY(quick_f4096)
{ run<float>(4096, 4e-7L); }
ENTRY(quick_f65536)
{ run<float>(65536, 4e-7L); }
template <typename TYPE>
static void axes(int k)
{
	// overflow of 8*n is outside of the bounds
	int m = vs_i32("m", 1, 8000000);
	int n = k * m, N = 4 * m;
	TYPE co = DSP::UnitCircle<TYPE>::cos(n, N), si = DSP::UnitCircle<TYPE>::sin(n, N);
	static const int tab[9] = { 1, 0, -1, 0, 1, 0, -1, 0, 1 };
	static const int tbs[9] = { 0, 1, 0, -1, 0, 1, 0, -1, 0 };
	vclose(co, tab[k+4], 0, "cosine is exact at the axes");
	vclose(si, tbs[k+4], 0, "sine is exact at the axes");
}
ENTRY(quick_axes_f)
{
	for (int k = -4; k <= 4; ++k)
		axes<float>(k);
}
ENTRY(quick_axes_d)
{
	for (int k = -4; k <= 4; ++k)
		axes<double>(k);
}
