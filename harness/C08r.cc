// vfile: mode=real merge=no
// bound: fractions: n = 1..4 doubles and floats of any value in [-1,1], n = 33, 40 with one or two of any value in [-1,1] and the rest fractions, equal or in patterns, every rank k
#include "vs.h"
#include "quick.hh"

template <typename TYPE> static TYPE sym(const char *name);
template <> double sym<double>(const char *name) { return vs_f64(name, -1, 1); }
template <> float sym<float>(const char *name) { return vs_f32(name, -1, 1); }

template <typename TYPE, int N>
static void check_select(const TYPE *in, TYPE *a, int rank = -1)
{
	int k = rank < 0 ? vs_pick(N) : rank;
	a[N] = 77;
	TYPE r = DSP::quick_select(a, k, N);
	int below = 0, upto = 0;
	for (int i = 0; i < N; ++i) {
		below += in[i] < r;
		upto += in[i] <= r;
	}
	vassert(below <= k && k < upto, "selected value has rank k among the input elements");
	TYPE t = sym<TYPE>("threshold");
	int before = 0, after = 0;
	for (int i = 0; i < N; ++i) {
		before += in[i] <= t;
		after += a[i] <= t;
	}
	vassert(before == after, "selection only rearranges the elements");
	vassert(a[N] == 77, "elements beyond the given length are left alone");
	vreach("selected");
}

template <typename TYPE, int N>
static void run_all()
{
	TYPE in[N+1], a[N+1];
	for (int i = 0; i < N; ++i)
		a[i] = in[i] = sym<TYPE>("in");
	check_select<TYPE, N>(in, a);
}

enum { SAME, UP, DOWN, MIX, STEP, SAW };
static int pattern(int kind, int i, int n)
{
	switch (kind) {
	case UP: return 10 + i;
	case DOWN: return 10 + n - i;
	case MIX: return 10 + (i * 13) % n;
	case STEP: return 10 + i / 12;
	case SAW: return 10 + i % 7;
	}
	return 10;
}

template <typename TYPE, int N>
static void run_some(int kind, int p0, int p1 = -1, int p2 = -1, int rank = -1)
{
	TYPE in[N+1], a[N+1];
	for (int i = 0; i < N; ++i)
		if (i == p0 || i == p1 || i == p2)
			a[i] = in[i] = sym<TYPE>("in");
		else
			a[i] = in[i] = TYPE(pattern(kind, i, N)) / TYPE(256);
	check_select<TYPE, N>(in, a, rank);
}
ENTRY(quick_real1)
{ run_all<float, 1>(); }
ENTRY(quick_real2)
{ run_all<double, 2>(); }
ENTRY(quick_real3)
{ run_all<float, 3>(); }
ENTRY(quick_real4)
{ run_all<double, 4>(); }
ENTRY(quick_real33)
{ run_some<double, 33>(SAME, 16); }
ENTRY(quick_real40)
{ run_some<float, 40>(MIX, 39, -1, -1, 20); }
ENTRY(quick_real40b)
{ run_some<double, 40>(DOWN, 20, -1, -1, 3); }
