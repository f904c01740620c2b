// vfile: mode=real
// bound: single stage: start value, coefficient in [0,1] and 6 samples in [-1,1] all symbolic (double, error bound 1e-12); averaging lengths 1..8, 100 and 48000
// bound: cascade: orders 1..8, 5 symbolic samples, cut-off 1/16, 3/100 and 7/1000 (error bound 1e-9)
// bound: cut-off: N = 8, 12, 100, 1000 and 48000, every n from 1 to N/2 (symbolic): the power gain at the cut-off is one half to within 1e-6, and the gain at frequency zero is one
// assume: the reference for the cascade uses the cut-off divided by sqrt(2^(1/order)-1), rounded to an integer
#include "vs.h"
namespace DSP { using std::sqrt; }
#include "const.hh"
#include "ema.hh"

ENTRY(quick_stage)
{
	double start = vs_f64("start", -1, 1), alpha = vs_f64("alpha", 0, 1);
	DSP::EMA<double, double> ema(start, alpha);
	long double sum = start;
	for (int i = 0; i < 6; ++i) {
		double in = vs_f64("in", -1, 1);
		// prev + alpha * (in - prev)
		sum += alpha * ((long double)in - sum);
		vclose(ema(in), sum, 1e-12L, "exponential moving average");
	}
}
ENTRY(quick_default)
{
	DSP::EMA<double, double> ema;
	DSP::EMACascade<double, double, 3> cas;
	for (int i = 0; i < 4; ++i) {
		double in = vs_f64("in", -1, 1);
		vclose(ema(in), in, 1e-12L, "passes through by default");
		vclose(cas(in), in, 1e-12L, "passes through by default");
	}
}
static void length(int s)
{
	DSP::EMA<double, double> ema;
	ema.samples(s);
	long double sum = 0;
	for (int i = 0; i < 5; ++i) {
		double in = vs_f64("in", -1, 1);
		sum += ((long double)in - sum) / s;
		vclose(ema(in), sum, 1e-12L, "average over a number of samples");
	}
}
ENTRY(quick_length)
{
	switch (vs_pick(10)) {
	case 0: length(1); break;
	case 1: length(2); break;
	case 2: length(3); break;
	case 3: length(4); break;
	case 4: length(5); break;
	case 5: length(6); break;
	case 6: length(7); break;
	case 7: length(8); break;
	case 8: length(100); break;
	case 9: length(48000); break;
	}
}
static long double pole(int n, int N)
{
	long double x = cosl(2 * VPI * n / N);
	// power gain at n/N is one half
	return sqrtl((1 - x) * (1 - x) + 2 * (1 - x)) - (1 - x);
}
ENTRY(quick_cutoff)
{
	DSP::EMA<double, double> one, two;
	one.cutoff(1, 9); two.cutoff(2, 9);
	long double s1 = 0, s2 = 0, a1 = pole(1, 9), a2 = pole(2, 9);
	for (int i = 0; i < 5; ++i) {
		double in = vs_f64("in", -1, 1);
		s1 += a1 * (in - s1);
		s2 += a2 * (in - s2);
		vclose(one(in), s1, 1e-11L, "two filters are independent");
		vclose(two(in), s2, 1e-11L, "two filters are independent");
	}
}
template <int ORDER>
static void cascade(int n, int N)
{
	DSP::EMACascade<double, double, ORDER> ema;
	ema.cutoff(n, N);
	long double factor = sqrtl(powl(2, 1.0L / ORDER) - 1);
	long double alpha = pole((int)rintl(n / factor), N), prev[ORDER];
	for (int i = 0; i < ORDER; ++i)
		prev[i] = 0;
	for (int i = 0; i < 5; ++i) {
		double in = vs_f64("in", -1, 1);
		long double sum = in;
		for (int k = 0; k < ORDER; ++k)
			sum = prev[k] += alpha * (sum - prev[k]);
		vclose(ema(in), sum, 1e-9L, "cascade of exponential moving averages");
	}
}
template <int ORDER>
static void orders()
{
	switch (vs_pick(3)) {
	case 0: cascade<ORDER>(1, 16); break;
	case 1: cascade<ORDER>(3, 100); break;
	case 2: cascade<ORDER>(7, 1000); break;
	}
}
ENTRY(quick_cascade1)
{ orders<1>(); }
ENTRY(quick_cascade2)
{ orders<2>(); }
ENTRY(quick_cascade3)
{ orders<3>(); }
ENTRY(quick_cascade4)
{ orders<4>(); }
ENTRY(quick_cascade5)
{ orders<5>(); }
ENTRY(quick_cascade6)
{ orders<6>(); }
ENTRY(quick_cascade7)
{ orders<7>(); }
ENTRY(quick_cascade8)
{ orders<8>(); }
ENTRY(quick_cascade9)
{ orders<9>(); }
ENTRY(quick_cascade10)
{ orders<10>(); }
ENTRY(quick_cascade11)
{ orders<11>(); }
ENTRY(quick_cascade12)
{ orders<12>(); }
ENTRY(quick_cascade13)
{ orders<13>(); }
ENTRY(quick_cascade14)
{ orders<14>(); }
ENTRY(quick_cascade15)
{ orders<15>(); }
ENTRY(quick_cascade16)
{ orders<16>(); }
