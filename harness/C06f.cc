// vfile: mode=fp
// bound: float (bit-exact, every finite value incl. signed zeros and subnormals), window lengths 1..3, up to 6 samples
#include "vs.h"
#include "movext.hh"

template <typename TYPE> TYPE sym();
template <> float sym<float>() { return vs_f32("in", -std::numeric_limits<float>::max(), std::numeric_limits<float>::max()); }

template <typename TYPE, int NUM, int STEPS>
static void run_min()
{
	DSP::MovMin<TYPE, NUM> ext;
	TYPE in[STEPS];
	for (int i = 0; i < STEPS; ++i) {
		in[i] = sym<TYPE>();
		TYPE out = ext(in[i]);
		bool member = false, bound = true;
		for (int j = i; j >= 0 && j > i - NUM; --j) {
			member |= out == in[j];
			bound &= out <= in[j];
		}
		vassert(member, "moving minimum is one of the last NUM samples");
		vassert(bound, "moving minimum is not above any of the last NUM samples");
	}
}

template <typename TYPE, int NUM, int STEPS>
static void run_max()
{
	DSP::MovMax<TYPE, NUM> ext;
	TYPE in[STEPS];
	for (int i = 0; i < STEPS; ++i) {
		in[i] = sym<TYPE>();
		TYPE out = ext(in[i]);
		bool member = false, bound = true;
		for (int j = i; j >= 0 && j > i - NUM; --j) {
			member |= out == in[j];
			bound &= out >= in[j];
		}
		vassert(member, "moving maximum is one of the last NUM samples");
		vassert(bound, "moving maximum is not below any of the last NUM samples");
	}
}

ENTRY(quick_fmin1)
{ run_min<float, 1, 3>(); }
ENTRY(quick_fmax1)
{ run_max<float, 1, 3>(); }
ENTRY(quick_fmin2)
{ run_min<float, 2, 5>(); }
ENTRY(quick_fmax2)
{ run_max<float, 2, 5>(); }
ENTRY(quick_fmin3)
{ run_min<float, 3, 6>(); }
ENTRY(quick_fmax3)
{ run_max<float, 3, 6>(); }
