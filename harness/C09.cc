// bound: Kahan over a 4 and 6 significant bit round-to-nearest-even number type, every start value and up to 5 (thorough 6) inputs whose compensated terms are representable; start value of larger magnitude than the inputs
// bound: float: start 2^24 (and -2^24, 3*2^23), two inputs, every integer in -8..8
#include "vs.h"
#include "kahan.hh"

// integers rounded to nearest even with P significant bits
template <int P>
struct Small
{
	int16_t v;
	static int16_t round(int16_t x)
	{
		uint16_t neg = x < 0;
		uint16_t a = uint16_t(x ^ -neg) + neg;
		uint16_t r = a;
		for (int s = 1; s < 6; ++s) {
			uint16_t c = uint16_t(a + (1 << (s - 1)) - 1 + ((a >> s) & 1)) >> s << s;
			uint16_t m = -uint16_t(a >= (1 << (P + s - 1)));
			r = (r & ~m) | (c & m);
		}
		return uint16_t(r ^ -neg) + neg;
	}
	Small() : v(0) {}
	Small(int x) : v(x) {}
	Small operator + (Small b) const { return Small(round(v + b.v)); }
	Small operator - (Small b) const { return Small(round(v - b.v)); }
	bool operator == (Small b) const { return v == b.v; }
};
static int mag(int x)
{
	int neg = x < 0;
	return (x ^ -neg) + neg;
}
template <int P, int N, int LO, int BIG, int SMALL>
static void run()
{
	typedef Small<P> T;
	int first = vs_i16("first", LO, BIG);
	vassume(T::round(first) == first);
	DSP::Kahan<T> k{T(first)};
	int exact = first;
	for (int i = 0; i < N; ++i) {
		int x = vs_i16("in", -SMALL, SMALL);
		exact += x;
		T last = k(T(x));
		vassert(last.v == T::round(exact), "compensated sum is the exact sum rounded once");
		vassert(k().v == last.v, "reading the sum returns the last sum");
	}
	vreach("summed");
}
template <int P, int N, int LO, int BIG, int SMALL>
static void run_same()
{
	typedef Small<P> T;
	int first = vs_i16("first", LO, BIG);
	vassume(T::round(first) == first);
	DSP::Kahan<T> k{T(first)};
	int exact = first;
	for (int i = 0; i < N; ++i) {
		int x = vs_i16("in", -SMALL, SMALL);
		exact += x;
		bool same = k.same(T(x));
		vassert(same == (x == 0), "same() tells whether the input left the sum unchanged");
		vassert(k().v == T::round(exact), "same() adds the input");
		DSP::Kahan<T> copy(k);
		vassert(copy == k, "a copy compares equal");
	}
	vreach("summed");
}
template <int P, int N, int LO, int BIG, int SMALL>
static void run_sum()
{
	typedef Small<P> T;
	int first = vs_i16("first", LO, BIG);
	vassume(T::round(first) == first);
	int exact = first;
	T in[N+1];
	for (int i = 0; i < N; ++i) {
		in[i] = T(vs_i16("in", -SMALL, SMALL));
		exact += in[i].v;
	}
	vassert(DSP::kahan_sum(in, in + N, T(first)).v == T::round(exact), "range sum is the exact sum rounded once");
	vreach("summed");
}
template <int N>
static void run_float(int first, int small)
{
	DSP::Kahan<float> k{float(first)};
	int exact = first;
	for (int i = 0; i < N; ++i) {
		int x = vs_i16("in", -small, small);
		exact += x;
		float last = k(float(x));
		vassert(last == float(exact), "compensated sum is the exact sum rounded once");
		vassert(k() == last, "reading the sum returns the last sum");
	}
	vreach("summed");
}
ENTRY(quick_p4n2)
{ run<4, 2, 20, 120, 3>(); }
ENTRY(quick_p4n4)
{ run<4, 4, 20, 120, 3>(); }
ENTRY(quick_p4neg)
{ run<4, 3, -120, -20, 3>(); }
ENTRY(quick_p6n2)
{ run<6, 2, 40, 500, 10>(); }
ENTRY(quick_same)
{ run_same<4, 3, 20, 120, 3>(); }
ENTRY(quick_sum0)
{ run_sum<4, 0, 20, 120, 3>(); }
ENTRY(quick_sum3)
{ run_sum<4, 3, 20, 120, 3>(); }
ENTRY(quick_float) // vopt: mode=fp
{ run_float<2>(1 << 24, 8); }
ENTRY(quick_floatneg) // vopt: mode=fp
{ run_float<2>(-(1 << 24), 8); }
ENTRY(quick_float3) // vopt: mode=fp
{ run_float<2>(3 << 23, 8); }
ENTRY(quick_zero) // vopt: mode=fp
{
	DSP::Kahan<float> k;
	vassert(k() == 0.f, "a new sum is zero");
	float x = vs_f32("in", -1e30f, 1e30f);
	vassert(k(x) == x, "the first input is the sum");
	vassert(k() == x, "reading the sum returns the last sum");
}
ENTRY(deep_p4n5)
{ run<4, 5, 20, 120, 3>(); }
ENTRY(deep_p4n6)
{ run<4, 6, 20, 120, 3>(); }
ENTRY(deep_p6n3)
{ run<6, 3, 40, 500, 10>(); }
