// bound: window lengths 1..5, 7, 8, 16, 33 with 2*length+2 symbolic 32-bit unsigned samples (sums modulo 2^32); SWA with + and xor, up to 8 also with min
#include "vs.h"
#include "kahan.hh"
#include "swa.hh"
#include "sma.hh"

struct Min { uint8_t operator () (uint8_t a, uint8_t b) { return b ^ ((a ^ b) & -(a < b)); } };
struct Xor { uint32_t operator () (uint32_t a, uint32_t b) { return a ^ b; } };

template <int NUM>
static void run_swa()
{
	const int STEPS = 2 * NUM + 2;
	DSP::SWA<uint32_t, std::plus<uint32_t>, NUM> add(0);
	DSP::SWA<uint32_t, Xor, NUM> eor(0);
	DSP::SWA<uint8_t, Min, NUM> low(255);
	uint32_t in[STEPS];
	for (int i = 0; i < STEPS; ++i) {
		in[i] = vs_u32("in", 0, UINT32_MAX);
		uint32_t sum = 0, x = 0;
		uint8_t m = 255;
		for (int j = i; j >= 0 && j > i - NUM; --j) {
			sum += in[j];
			x ^= in[j];
			m = Min()(m, uint8_t(in[j]));
		}
		vassert(add(in[i]) == sum, "aggregate is the sum of the last NUM samples");
		vassert(eor(in[i]) == x, "aggregate is the xor of the last NUM samples");
		if (NUM <= 8)
			vassert(low(in[i]) == m, "aggregate is the minimum of the last NUM samples");
	}
}

ENTRY(quick_swa1)
{ run_swa<1>(); }
ENTRY(quick_swa2)
{ run_swa<2>(); }
ENTRY(quick_swa3)
{ run_swa<3>(); }
ENTRY(quick_swa4)
{ run_swa<4>(); }
ENTRY(quick_swa5)
{ run_swa<5>(); }
ENTRY(quick_swa7)
{ run_swa<7>(); }
ENTRY(quick_swa8)
{ run_swa<8>(); }

template <int NUM>
static void run_sum()
{
	const int STEPS = 2 * NUM + 2;
	DSP::SMA2<uint32_t, uint32_t, NUM, false> s2;
	DSP::SMA3<uint32_t, uint32_t, NUM, false> s3;
	DSP::SMA4<uint32_t, uint32_t, NUM, false> s4;
	uint32_t in[STEPS];
	for (int i = 0; i < STEPS; ++i) {
		in[i] = vs_u32("in", 0, UINT32_MAX);
		uint32_t sum = 0;
		for (int j = i; j >= 0 && j > i - NUM; --j)
			sum += in[j];
		vassert(s2(in[i]) == sum, "running sum (difference form)");
		vassert(s3(in[i]) == sum, "running sum (compensated form)");
		vassert(s4(in[i]) == sum, "running sum (tree form)");
	}
}

ENTRY(quick_sum1)
{ run_sum<1>(); }
ENTRY(quick_sum3)
{ run_sum<3>(); }
ENTRY(quick_sum4)
{ run_sum<4>(); }
ENTRY(quick_sum5)
{ run_sum<5>(); }
ENTRY(quick_swa16)
{ run_swa<16>(); }
ENTRY(quick_swa33)
{ run_swa<33>(); }
ENTRY(quick_sum16)
{ run_sum<16>(); }
ENTRY(quick_sum33)
{ run_sum<33>(); }
