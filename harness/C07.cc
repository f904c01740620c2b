// vfile: merge=no
// bound: n = 0..6 elements: every array of 8-bit values (signed and unsigned)
// bound: 64-bit signed and 32-bit unsigned values: every array of 3, and one symbolic among 33
// bound: n = 32, 33, 34, 37: three symbolic elements (every value) at the pivot candidate positions and elsewhere, the rest equal
// bound: n = 33, 40, 70, 100: one or two symbolic elements, the rest ascending, descending, interleaved or stepped patterns
#include "vs.h"
#include "quick.hh"

template <typename TYPE> static TYPE sym(const char *name);
template <> uint8_t sym<uint8_t>(const char *name) { return vs_u8(name, 0, 255); }
template <> int64_t sym<int64_t>(const char *name) { return vs_i64(name, INT64_MIN, INT64_MAX); }
template <> uint32_t sym<uint32_t>(const char *name) { return vs_u32(name, 0, UINT32_MAX); }
template <> int8_t sym<int8_t>(const char *name) { return vs_i8(name, -128, 127); }

template <typename TYPE, int N>
static void check_sorted(const TYPE *in, TYPE *a)
{
	a[N] = 77;
	DSP::quick_sort(a, N);
	bool sorted = true;
	for (int i = 0; i + 1 < N; ++i)
		sorted &= a[i] <= a[i+1];
	vassert(sorted, "sorted output is in ascending order");
	TYPE t = sym<TYPE>("threshold");
	int before = 0, after = 0;
	for (int i = 0; i < N; ++i) {
		before += in[i] <= t;
		after += a[i] <= t;
	}
	vassert(before == after, "sorted output holds the same elements as the input");
	vassert(a[N] == 77, "elements beyond the given length are left alone");
	vreach("sorted");
}

template <typename TYPE, int N>
static void run_all()
{
	TYPE in[N+1], a[N+1];
	for (int i = 0; i < N; ++i)
		a[i] = in[i] = sym<TYPE>("in");
	check_sorted<TYPE, N>(in, a);
}

enum { SAME, UP, DOWN, MIX, STEP, SAW };
static int pattern(int kind, int i, int n)
{
	switch (kind) {
	case UP: return 10 + i;
	case DOWN: return 10 + n - i;
	case MIX: return 10 + (i * 13) % n;
	case STEP: return 10 + i / 12;
	case SAW: return 10 + i % 7;
	}
	return 10;
}

template <typename TYPE, int N>
static void run_some(int kind, int p0, int p1 = -1, int p2 = -1)
{
	TYPE in[N+1], a[N+1];
	for (int i = 0; i < N; ++i)
		if (i == p0 || i == p1 || i == p2)
			a[i] = in[i] = sym<TYPE>("in");
		else
			a[i] = in[i] = pattern(kind, i, N);
	check_sorted<TYPE, N>(in, a);
}
ENTRY(quick_n0)
{ run_all<uint8_t, 0>(); }
ENTRY(quick_n1)
{ run_all<uint8_t, 1>(); }
ENTRY(quick_n2)
{ run_all<uint8_t, 2>(); }
ENTRY(quick_n3)
{ run_all<int8_t, 3>(); }
ENTRY(quick_n4)
{ run_all<uint8_t, 4>(); }
ENTRY(quick_n5)
{ run_all<int8_t, 5>(); }
ENTRY(quick_n6) // vopt: cost=9
{ run_all<uint8_t, 6>(); }
ENTRY(deep_n7)
{ run_all<int8_t, 7>(); }
ENTRY(quick_n32)
{ run_some<uint8_t, 32>(SAME, 0, 13, 31); }
ENTRY(quick_n33a)
{ run_some<uint8_t, 33>(SAME, 0, 8, 16); }
ENTRY(quick_n33b)
{ run_some<int8_t, 33>(SAME, 16, 24, 32); }
ENTRY(quick_n33c)
{ run_some<uint8_t, 33>(SAME, 1, 17, 31); }
ENTRY(quick_n34)
{ run_some<int8_t, 34>(SAME, 8, 24, 33); }
ENTRY(quick_n37)
{ run_some<int8_t, 37>(SAME, 0, 18, 35); }
ENTRY(quick_up33)
{ run_some<uint8_t, 33>(UP, 32); }
ENTRY(quick_up33b)
{ run_some<uint8_t, 33>(UP, 16); }
ENTRY(quick_down40)
{ run_some<uint8_t, 40>(DOWN, 0); }
ENTRY(quick_mix40)
{ run_some<uint8_t, 40>(MIX, 20); }
ENTRY(quick_mix70)
{ run_some<uint8_t, 70>(MIX, 5); }
ENTRY(quick_up70)
{ run_some<uint8_t, 70>(UP, 69); }
ENTRY(quick_down100)
{ run_some<uint8_t, 100>(DOWN, 50); }
ENTRY(quick_mix100)
{ run_some<uint8_t, 100>(MIX, 99); }
ENTRY(quick_step70)
{ run_some<uint8_t, 70>(STEP, 0, 69); }
ENTRY(quick_saw80)
{ run_some<uint8_t, 80>(SAW, 40, 79); }
ENTRY(deep_n33)
{ run_some<uint8_t, 33>(MIX, 0, 16); }
ENTRY(deep_up33)
{ run_some<uint8_t, 33>(UP, 8, 32); }
ENTRY(deep_down66)
{ run_some<uint8_t, 66>(DOWN, 0, 33); }
ENTRY(deep_step75)
{ run_some<uint8_t, 75>(STEP, 0, 37, 74); }
ENTRY(quick_wide3)
{ run_all<int64_t, 3>(); }
ENTRY(quick_word3)
{ run_all<uint32_t, 3>(); }
ENTRY(quick_wide33)
{ run_some<int64_t, 33>(SAME, 16); }
ENTRY(quick_word33)
{ run_some<uint32_t, 33>(UP, 16); }
