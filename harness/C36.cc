// vfile: mode=real merge=no wild=1
// bound: 2 to 4 points, abscissas from fixed sets (any order, with repetitions), ordinates of any value in [-4,4] in exact arithmetic (long double taken as real numbers), so that every order and tie of the slopes is covered; crossing with the abscissa for 3 points within 1/8 of lines of slope 2 and -2; 4 points where there is room for 3
// assume: at least two different abscissas, and for the crossing with the abscissa a slope other than zero
#include "vs.h"
#include <cassert>
#include "theil_sen.hh"
#include "repeated_median.hh"

typedef long double T;

static const T eps = 1e-9L;

// v is the element that comes at position n/2 when sorted
static bool median(const T *a, int n, T v)
{
	int less = 0, upto = 0;
	for (int i = 0; i < n; ++i) {
		if (a[i] < v - eps)
			++less;
		if (a[i] <= v + eps)
			++upto;
	}
	return less <= n / 2 && upto > n / 2;
}
static T pick(T *a, int n)
{
	for (int i = 1; i < n; ++i) {
		for (int j = i; j > 0 && a[j] < a[j-1]; --j) {
			T t = a[j];
			a[j] = a[j-1];
			a[j-1] = t;
		}
	}
	return a[n/2];
}
static int slopes(T *s, const T *x, const T *y, int n, int i)
{
	int count = 0;
	for (int j = 0; j < n; ++j)
		if (j != i && x[j] != x[i])
			s[count++] = (y[j] - y[i]) / (x[j] - x[i]);
	return count;
}
static int offsets(T *s, const T *x, const T *y, int n, int i)
{
	int count = 0;
	for (int j = 0; j < n; ++j)
		if (j != i && x[j] != x[i])
			s[count++] = y[i] - x[i] * (y[j] - y[i]) / (x[j] - x[i]);
	return count;
}
static bool close(T a, T b)
{
	return a - b <= eps && b - a <= eps;
}
template <typename EST>
static void line(EST &e)
{
	T t = vs_f64("t", -2, 2);
	vassert(close(e(t), e.yint() + e.slope() * t), "value on the line");
}
template <int MAX>
static void theil(const T *x, int n)
{
	T y[4], all[6], part[4];
	for (int i = 0; i < n; ++i)
		y[i] = vs_f64("y", -4, 4);
	DSP::TheilSenEstimator<T, MAX> e;
	e.compute(x, y, n);
	int count = 0;
	for (int i = 0; i < n; ++i)
		for (int j = i + 1; j < n; ++j)
			if (x[j] != x[i])
				all[count++] = (y[j] - y[i]) / (x[j] - x[i]);
	vassert(median(all, count, e.slope()), "median of the slopes of all pairs");
	for (int i = 0; i < n; ++i)
		part[i] = y[i] - e.slope() * x[i];
	vassert(median(part, n, e.yint()), "median of the offsets");
	line(e);
}
template <int MAX, bool TWO>
static void repeated(const T *x, int n)
{
	T y[4], part[4], outer[4];
	for (int i = 0; i < n; ++i)
		y[i] = vs_f64("y", -4, 4);
	T slope, yint;
	if (TWO) {
		DSP::RepeatedMedianEstimator2<T, MAX> e;
		e.compute(x, y, n);
		slope = e.slope(); yint = e.yint();
		line(e);
	} else {
		DSP::RepeatedMedianEstimator<T, MAX> e;
		e.compute(x, y, n);
		slope = e.slope(); yint = e.yint();
		line(e);
	}
	for (int i = 0; i < n; ++i) {
		int count = slopes(part, x, y, n, i);
		outer[i] = pick(part, count);
	}
	vassert(median(outer, n, slope), "median of the medians of slopes");
	for (int i = 0; i < n; ++i) {
		if (TWO) {
			outer[i] = y[i] - slope * x[i];
		} else {
			int count = offsets(part, x, y, n, i);
			outer[i] = pick(part, count);
		}
	}
	vassert(median(outer, n, yint), "median of the offsets");
}
static const T up[4] = { 0, 1, 2, 3 }, odd[4] = { 2, -1, 0.5, 4 }, twice[4] = { 1, 3, 1, 0 };
ENTRY(quick_theil2)
{ theil<2>(odd, 2); }
ENTRY(quick_theil3)
{ theil<3>(odd, 3); }
ENTRY(quick_theil3r)
{ theil<4>(twice, 3); }
ENTRY(quick_theil4)
{ theil<4>(up, 4); }
ENTRY(quick_theil4r)
{ theil<4>(twice, 4); }
ENTRY(quick_repeated2)
{ repeated<2, false>(odd, 2); }
ENTRY(quick_repeated3)
{ repeated<3, false>(odd, 3); }
ENTRY(quick_repeated3r)
{ repeated<4, false>(twice, 3); }
ENTRY(quick_second2)
{ repeated<2, true>(odd, 2); }
ENTRY(quick_second3)
{ repeated<3, true>(odd, 3); }
ENTRY(quick_second3r)
{ repeated<4, true>(twice, 3); }
ENTRY(quick_repeated4r)
{ repeated<4, false>(twice, 4); }
ENTRY(quick_second4r)
{ repeated<4, true>(twice, 4); }
static const T trio[3] = { 1, 1, 0 };
ENTRY(quick_repeated3t)
{ repeated<3, false>(trio, 3); }
ENTRY(quick_repeated4)
{ repeated<4, false>(up, 4); }
ENTRY(quick_second4)
{ repeated<4, true>(odd, 4); }
// ordinates near a line with a slope of about two or minus two
template <typename EST>
static void crossing(T slope)
{
	T y[3];
	for (int i = 0; i < 3; ++i)
		y[i] = slope * odd[i] + 1 + vs_f64("e", -0.125, 0.125);
	EST e;
	vassert(close(e.xint(), 0) && close(e.yint(), 0) && close(e.slope(), 0) && close(e(3), 0), "zero line before the first fit");
	e.compute(odd, y, 3);
	vassert(close(e.yint() + e.slope() * e.xint(), 0), "crossing with the abscissa");
	line(e);
}
ENTRY(quick_theil_x)
{ crossing<DSP::TheilSenEstimator<T, 3>>(vs_pick(2) ? -2 : 2); }
ENTRY(quick_repeated_x)
{ crossing<DSP::RepeatedMedianEstimator<T, 3>>(vs_pick(2) ? -2 : 2); }
ENTRY(quick_second_x)
{ crossing<DSP::RepeatedMedianEstimator2<T, 3>>(vs_pick(2) ? -2 : 2); }
// more points than there is room for
template <typename EST>
static void excess()
{
	T y[4];
	for (int i = 0; i < 4; ++i)
		y[i] = vs_f64("y", -4, 4);
	EST e, f;
	e.compute(up, y, 4);
	f.compute(up, y, 3);
	line(e);
	vassert(close(e.slope(), f.slope()) && close(e.yint(), f.yint()), "points beyond the capacity are ignored");
}
ENTRY(quick_repeated_excess)
{ excess<DSP::RepeatedMedianEstimator<T, 3>>(); }
ENTRY(quick_second_excess)
{ excess<DSP::RepeatedMedianEstimator2<T, 3>>(); }
ENTRY(quick_theil_excess)
{
	T y[4];
	for (int i = 0; i < 4; ++i)
		y[i] = vs_f64("y", -4, 4);
	DSP::TheilSenEstimator<T, 3> e;
	e.compute(up, y, 4);
	line(e);
}
