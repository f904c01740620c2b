// vfile: mode=real
// bound: moving averages of lengths 1, 2, 3, 5 (float samples in [-100,100], 2*length+2 steps, error bound 1e-3); mean absolute deviation at lengths 1..3
#include "vs.h"
namespace DSP { using std::abs; }
#include "kahan.hh"
#include "swa.hh"
#include "sma.hh"

template <int NUM>
static void run_avg()
{
	const int STEPS = 2 * NUM + 2;
	DSP::SMA1<float, float, NUM> s1;
	DSP::SMA2<float, float, NUM> s2;
	DSP::SMA3<double, double, NUM> s3;
	DSP::SMA4<float, float, NUM> s4;
	float in[STEPS];
	for (int i = 0; i < STEPS; ++i) {
		in[i] = vs_f32("in", -100, 100);
		long double sum = 0;
		for (int j = i; j >= 0 && j > i - NUM; --j)
			sum += in[j];
		vclose(s1(in[i]), sum / NUM, 1e-3L, "average (direct form)");
		vclose(s2(in[i]), sum / NUM, 1e-3L, "average (difference form)");
		vclose(s3(in[i]), sum / NUM, 1e-3L, "average (compensated form)");
		vclose(s4(in[i]), sum / NUM, 1e-3L, "average (tree form)");
	}
}

ENTRY(quick_avg1)
{ run_avg<1>(); }
ENTRY(quick_avg2)
{ run_avg<2>(); }
ENTRY(quick_avg3)
{ run_avg<3>(); }
ENTRY(quick_avg5)
{ run_avg<5>(); }

template <int NUM, int STEPS>
static void run_dev()
{
	DSP::SMA1<float, float, NUM> s1;
	float in[STEPS];
	for (int i = 0; i < STEPS; ++i) {
		in[i] = vs_f32("in", -100, 100);
		s1(in[i]);
	}
	long double avg = 0;
	for (int j = 0; j < NUM; ++j)
		avg += in[STEPS - NUM + j];
	avg /= NUM;
	long double dev = 0;
	float got = s1.abs_dev();
	for (int j = 0; j < NUM; ++j)
		dev += fabsl(in[STEPS - NUM + j] - avg);
	vclose(got, dev / NUM, 1e-3L, "mean absolute deviation of the window");
}

ENTRY(quick_dev1)
{ run_dev<1, 2>(); }
ENTRY(quick_dev2)
{ run_dev<2, 3>(); }
ENTRY(quick_dev3)
{ run_dev<3, 4>(); }
