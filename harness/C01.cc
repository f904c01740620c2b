// bound: Delay lengths 1, 2, 3, 5, 8, 33, 64, 300 and 900 with 2*length+3 consecutive symbolic samples (all 32-bit values, all initial values); complex and default-initialised variants at length 3
#include "vs.h"
#include "complex.hh"
#include "delay.hh"

template <int NUM>
static void run()
{
	const int STEPS = 2 * NUM + 3;
	int init = vs_i32("init", INT32_MIN, INT32_MAX);
	DSP::Delay<int, NUM> delay(init);
	int in[STEPS];
	for (int i = 0; i < STEPS; ++i) {
		in[i] = vs_i32("in", INT32_MIN, INT32_MAX);
		int out = delay(in[i]);
		vassert(out == (i < NUM ? init : in[i - NUM]), "output is the sample from exactly NUM steps ago");
	}
}

ENTRY(quick_len1)
{ run<1>(); }
ENTRY(quick_len2)
{ run<2>(); }
ENTRY(quick_len3)
{ run<3>(); }
ENTRY(quick_len5)
{ run<5>(); }
ENTRY(quick_len8)
{ run<8>(); }
ENTRY(quick_len33)
{ run<33>(); }

ENTRY(quick_default)
{
	DSP::Delay<DSP::Complex<int>, 3> delay;
	DSP::Complex<int> in[9];
	for (int i = 0; i < 9; ++i) {
		in[i] = DSP::Complex<int>(vs_i32("re", INT32_MIN, INT32_MAX), vs_i32("im", INT32_MIN, INT32_MAX));
		DSP::Complex<int> out = delay(in[i]);
		DSP::Complex<int> exp = i < 3 ? DSP::Complex<int>(0, 0) : in[i - 3];
		vassert(out.real() == exp.real() && out.imag() == exp.imag(), "complex delay line, default zero initialisation");
	}
}

ENTRY(quick_two)
{
	// two lines do not share state
	DSP::Delay<int, 2> a(1), b(2);
	int x[6], y[6];
	for (int i = 0; i < 6; ++i) {
		x[i] = vs_i32("x", INT32_MIN, INT32_MAX);
		y[i] = vs_i32("y", INT32_MIN, INT32_MAX);
		int p = a(x[i]);
		int q = b(y[i]);
		vassert(p == (i < 2 ? 1 : x[i - 2]) && q == (i < 2 ? 2 : y[i - 2]), "independent instances");
	}
}
ENTRY(quick_len64)
{ run<64>(); }
ENTRY(quick_len300)
{ run<300>(); }
ENTRY(quick_len900)
{ run<900>(); }
ENTRY(quick_long) // vopt: loop=70000 steps=9000000 cost=9
{
	const int NUM = 65600;
	static DSP::Delay<int, NUM> delay;
	int a = vs_i32("a", INT32_MIN, INT32_MAX), b = vs_i32("b", INT32_MIN, INT32_MAX), c = vs_i32("c", INT32_MIN, INT32_MAX);
	bool early = false;
	for (int i = 0; i < NUM; ++i)
		early |= delay(i == 0 ? a : i == NUM - 1 ? b : i == 63 ? c : 1) != 0;
	vassert(!early, "nothing comes out before the length has passed");
	vassert(delay(2) == a, "first sample comes out after exactly the length");
	vassert(delay(2) == 1, "second sample follows");
}
