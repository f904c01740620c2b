// vfile: merge=no
// bound: n = 1..5 elements: every array of 8-bit values (signed and unsigned), every rank k
// bound: 64-bit signed and 32-bit unsigned values: every array of 3, and one symbolic among 33
// bound: n = 33, 34, 37: two or three symbolic elements (every value), the rest equal, every rank k
// bound: n = 33, 40: one symbolic element, the rest ascending, descending or interleaved, every rank k; n = 70, 100: one or two symbolic elements, the rest such patterns or steps, quick: ranks near both ends and the middle, thorough: every rank
#include "vs.h"
#include "quick.hh"

template <typename TYPE> static TYPE sym(const char *name);
template <> uint8_t sym<uint8_t>(const char *name) { return vs_u8(name, 0, 255); }
template <> int64_t sym<int64_t>(const char *name) { return vs_i64(name, INT64_MIN, INT64_MAX); }
template <> uint32_t sym<uint32_t>(const char *name) { return vs_u32(name, 0, UINT32_MAX); }
template <> int8_t sym<int8_t>(const char *name) { return vs_i8(name, -128, 127); }

template <typename TYPE, int N>
static void check_select(const TYPE *in, TYPE *a, int rank = -1)
{
	int k = rank < 0 ? vs_i32("k", 0, N - 1) : rank;
	a[N] = 77;
	TYPE r = DSP::quick_select(a, k, N);
	int below = 0, upto = 0;
	for (int i = 0; i < N; ++i) {
		below += in[i] < r;
		upto += in[i] <= r;
	}
	vassert(below <= k && k < upto, "selected value has rank k among the input elements");
	TYPE t = sym<TYPE>("threshold");
	int before = 0, after = 0;
	for (int i = 0; i < N; ++i) {
		before += in[i] <= t;
		after += a[i] <= t;
	}
	vassert(before == after, "selection only rearranges the elements");
	vassert(a[N] == 77, "elements beyond the given length are left alone");
	vreach("selected");
}

template <typename TYPE, int N>
static void run_all()
{
	TYPE in[N+1], a[N+1];
	for (int i = 0; i < N; ++i)
		a[i] = in[i] = sym<TYPE>("in");
	check_select<TYPE, N>(in, a);
}

enum { SAME, UP, DOWN, MIX, STEP, SAW };
static int pattern(int kind, int i, int n)
{
	switch (kind) {
	case UP: return 10 + i;
	case DOWN: return 10 + n - i;
	case MIX: return 10 + (i * 13) % n;
	case STEP: return 10 + i / 12;
	case SAW: return 10 + i % 7;
	}
	return 10;
}

template <typename TYPE, int N>
static void run_some(int kind, int p0, int p1 = -1, int p2 = -1, int rank = -1)
{
	TYPE in[N+1], a[N+1];
	for (int i = 0; i < N; ++i)
		if (i == p0 || i == p1 || i == p2)
			a[i] = in[i] = sym<TYPE>("in");
		else
			a[i] = in[i] = pattern(kind, i, N);
	check_select<TYPE, N>(in, a, rank);
}
ENTRY(quick_n1)
{ run_all<uint8_t, 1>(); }
ENTRY(quick_n2)
{ run_all<uint8_t, 2>(); }
ENTRY(quick_n3)
{ run_all<int8_t, 3>(); }
ENTRY(quick_n4)
{ run_all<uint8_t, 4>(); }
ENTRY(quick_n5) // vopt: cost=9
{ run_all<int8_t, 5>(); }
ENTRY(deep_n6)
{ run_all<uint8_t, 6>(); }
ENTRY(quick_n32)
{ run_some<uint8_t, 32>(SAME, 0, 31); }
ENTRY(quick_n33a)
{ run_some<uint8_t, 33>(SAME, 0, 16); }
ENTRY(quick_n33b)
{ run_some<int8_t, 33>(SAME, 8, 32); }
ENTRY(quick_n34)
{ run_some<int8_t, 34>(SAME, 24, 33); }
ENTRY(quick_n37)
{ run_some<int8_t, 37>(SAME, 18, 35); }
ENTRY(quick_up33)
{ run_some<uint8_t, 33>(UP, 32); }
ENTRY(quick_down40)
{ run_some<uint8_t, 40>(DOWN, 0); }
ENTRY(quick_mix40)
{ run_some<uint8_t, 40>(MIX, 20); }
ENTRY(quick_mix70k0)
{ run_some<uint8_t, 70>(MIX, 5, -1, -1, 0); }
ENTRY(quick_mix70k32)
{ run_some<uint8_t, 70>(MIX, 5, -1, -1, 32); }
ENTRY(quick_mix70k68)
{ run_some<uint8_t, 70>(MIX, 5, -1, -1, 68); }
ENTRY(quick_up70k0)
{ run_some<uint8_t, 70>(UP, 69, -1, -1, 0); }
ENTRY(quick_up70k32)
{ run_some<uint8_t, 70>(UP, 69, -1, -1, 32); }
ENTRY(quick_up70k68)
{ run_some<uint8_t, 70>(UP, 69, -1, -1, 68); }
ENTRY(quick_down70k0)
{ run_some<uint8_t, 70>(DOWN, 0, -1, -1, 0); }
ENTRY(quick_down70k32)
{ run_some<uint8_t, 70>(DOWN, 0, -1, -1, 32); }
ENTRY(quick_down70k68)
{ run_some<uint8_t, 70>(DOWN, 0, -1, -1, 68); }
ENTRY(quick_mix100k0)
{ run_some<uint8_t, 100>(MIX, 99, -1, -1, 0); }
ENTRY(quick_mix100k47)
{ run_some<uint8_t, 100>(MIX, 99, -1, -1, 47); }
ENTRY(quick_mix100k98)
{ run_some<uint8_t, 100>(MIX, 99, -1, -1, 98); }
ENTRY(quick_step70)
{ run_some<uint8_t, 70>(STEP, 0, 69); }
ENTRY(quick_saw80)
{ run_some<uint8_t, 80>(SAW, 40); }
ENTRY(deep_n33)
{ run_some<uint8_t, 33>(SAME, 0, 16, 32); }
ENTRY(deep_up33)
{ run_some<uint8_t, 33>(UP, 8, 32); }
ENTRY(deep_down66)
{ run_some<uint8_t, 66>(DOWN, 0); }
ENTRY(deep_mix70)
{ run_some<uint8_t, 70>(MIX, 5); }
ENTRY(deep_up70)
{ run_some<uint8_t, 70>(UP, 69); }
ENTRY(deep_down70)
{ run_some<uint8_t, 70>(DOWN, 0); }
ENTRY(deep_mix100)
{ run_some<uint8_t, 100>(MIX, 99); }
ENTRY(quick_wide3)
{ run_all<int64_t, 3>(); }
ENTRY(quick_word3)
{ run_all<uint32_t, 3>(); }
ENTRY(quick_wide33)
{ run_some<int64_t, 33>(SAME, 16); }
ENTRY(quick_word33)
{ run_some<uint32_t, 33>(UP, 16); }
