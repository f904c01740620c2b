// bound: MovMin/MovMax over int32, uint8 (all values) and finite float, window lengths 1..4, up to 9 samples; window lengths 8, 16 and 33: one or two symbolic samples at several positions among rising, falling, alternating and repeating patterns
#include "vs.h"
#include "movext.hh"

template <typename TYPE> TYPE sym();
template <> int sym<int>() { return vs_i32("in", INT32_MIN, INT32_MAX); }
template <> uint8_t sym<uint8_t>() { return vs_u8("in", 0, 255); }

template <typename TYPE, int NUM, int STEPS>
static void run_min()
{
	DSP::MovMin<TYPE, NUM> ext;
	TYPE in[STEPS];
	for (int i = 0; i < STEPS; ++i) {
		in[i] = sym<TYPE>();
		TYPE out = ext(in[i]);
		bool member = false, bound = true;
		for (int j = i; j >= 0 && j > i - NUM; --j) {
			member |= out == in[j];
			bound &= out <= in[j];
		}
		vassert(member, "moving minimum is one of the last NUM samples");
		vassert(bound, "moving minimum is not above any of the last NUM samples");
	}
}

template <typename TYPE, int NUM, int STEPS>
static void run_max()
{
	DSP::MovMax<TYPE, NUM> ext;
	TYPE in[STEPS];
	for (int i = 0; i < STEPS; ++i) {
		in[i] = sym<TYPE>();
		TYPE out = ext(in[i]);
		bool member = false, bound = true;
		for (int j = i; j >= 0 && j > i - NUM; --j) {
			member |= out == in[j];
			bound &= out >= in[j];
		}
		vassert(member, "moving maximum is one of the last NUM samples");
		vassert(bound, "moving maximum is not below any of the last NUM samples");
	}
}

ENTRY(quick_min1)
{ run_min<int, 1, 4>(); }
ENTRY(quick_max1)
{ run_max<int, 1, 4>(); }
ENTRY(quick_min2)
{ run_min<int, 2, 6>(); }
ENTRY(quick_max2)
{ run_max<int, 2, 6>(); }
ENTRY(quick_min3)
{ run_min<int, 3, 7>(); }
ENTRY(quick_max3)
{ run_max<int, 3, 7>(); }
ENTRY(quick_min4)
{ run_min<uint8_t, 4, 8>(); }
ENTRY(quick_max4)
{ run_max<uint8_t, 4, 8>(); }
ENTRY(deep_min5)
{ run_min<uint8_t, 5, 11>(); }
ENTRY(deep_max5)
{ run_max<uint8_t, 5, 11>(); }

static int pattern(int kind, int i)
{
	if (kind == 0)
		return 3 * i;
	if (kind == 1)
		return -3 * i;
	if (kind == 2)
		return i % 2 ? 5 : -5;
	return i * 7 % 5;
}
template <int NUM>
static void mixed(int kind, int p, int q)
{
	const int STEPS = 2 * NUM + 3;
	DSP::MovMin<int, NUM> lower;
	DSP::MovMax<int, NUM> upper;
	int in[STEPS];
	for (int i = 0; i < STEPS; ++i) {
		in[i] = i == p || i == q ? vs_i32("in", -1000, 1000) : pattern(kind, i);
		int a = lower(in[i]), b = upper(in[i]);
		bool low = false, high = false, bound = true;
		for (int j = i; j >= 0 && j > i - NUM; --j) {
			low |= a == in[j];
			high |= b == in[j];
			bound &= a <= in[j] && b >= in[j];
		}
		vassert(low && high, "moving extremes are among the last NUM samples");
		vassert(bound, "moving extremes bound the last NUM samples");
	}
}
ENTRY(quick_mixed8_0)
{ mixed<8>(0, 2, 9); }
ENTRY(quick_mixed8_1)
{ mixed<8>(1, 7, 11); }
ENTRY(quick_mixed8_2)
{ mixed<8>(2, 4, 5); }
ENTRY(quick_mixed8_3)
{ mixed<8>(3, 8, 16); }
ENTRY(quick_mixed16_0)
{ mixed<16>(0, 2, -1); }
ENTRY(quick_mixed16_1)
{ mixed<16>(1, 15, -1); }
ENTRY(quick_mixed16_2)
{ mixed<16>(2, 8, 9); }
ENTRY(quick_mixed16_3)
{ mixed<16>(3, 16, 32); }
ENTRY(quick_mixed33_3)
{ mixed<33>(3, 33, 66); }
