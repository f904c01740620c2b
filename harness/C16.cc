// vfile: mode=real
// bound: 8 bit: every vector but zero, error bound (in parts of the circle in 256) by the larger magnitude m of its parts: 14.6 (m from 1), 8.4 (4), 4.9 (8), 3.0 (16), 1.95 (32), 1.3 (64 and more)
// bound: 16 bit: every vector within windows of 12 by 12 placed over all octants, the axes, the diagonals and the borders of the number range, larger part at least 16384, error bound 2.5 parts of the circle in 65536
// assume: the zero vector has no angle, so nothing is claimed for it
#include "vs.h"
#include "cordic.hh"

// the angle between (x,y) and the direction a is at most tol parts of the circle
template <typename TYPE>
static void check(TYPE y, TYPE x, long double tol)
{
	const long double scale = 2 * VPI / (1 << (8 * sizeof(TYPE)));
	const long double unit = 1 << 28;
	TYPE a = DSP::CORDIC<TYPE>::atan2(y, x);
	long double lo = (a - tol) * scale, hi = (a + tol) * scale;
	int64_t lc = (int64_t)(cosl(lo) * unit), ls = (int64_t)(sinl(lo) * unit);
	int64_t hc = (int64_t)(cosl(hi) * unit), hs = (int64_t)(sinl(hi) * unit);
	// truncation of the direction moves the products by less than the sum of the magnitudes
	int64_t slack = (x < 0 ? -(int64_t)x : x) + (y < 0 ? -(int64_t)y : y);
	vassert(lc * y - ls * x >= -slack, "angle is not too large");
	vassert(hs * x - hc * y >= -slack, "angle is not too small");
	vassert(lc * x + ls * y >= -slack || hc * x + hs * y >= -slack, "angle is not opposite");
}
static void small(int lo, int hi, long double tol, int xl = -128, int xh = 127, int yl = -128, int yh = 127)
{
	int8_t x = vs_i8("x", xl, xh), y = vs_i8("y", yl, yh);
	int ax = x < 0 ? -x : x, ay = y < 0 ? -y : y, m = ax > ay ? ax : ay;
	vassume(m >= lo && m <= hi);
	check<int8_t>(y, x, tol);
}
static void window(int y0, int x0)
{
	int16_t x = vs_i16("x", x0, x0 + 11), y = vs_i16("y", y0, y0 + 11);
	check<int16_t>(y, x, 2.5L);
}
ENTRY(quick_byte0)
{ small(1, 3, 14.6L); }
ENTRY(quick_byte1)
{ small(4, 7, 8.4L); }
ENTRY(quick_byte2_0)
{ small(8, 15, 4.9L, -128, -1, -128, -1); }
ENTRY(quick_byte2_1)
{ small(8, 15, 4.9L, -128, -1, 0, 127); }
ENTRY(quick_byte2_2)
{ small(8, 15, 4.9L, 0, 127, -128, -1); }
ENTRY(quick_byte2_3)
{ small(8, 15, 4.9L, 0, 127, 0, 127); }
ENTRY(quick_byte3_0)
{ small(16, 31, 3.0L, -128, -1, -128, -1); }
ENTRY(quick_byte3_1)
{ small(16, 31, 3.0L, -128, -1, 0, 127); }
ENTRY(quick_byte3_2)
{ small(16, 31, 3.0L, 0, 127, -128, -1); }
ENTRY(quick_byte3_3)
{ small(16, 31, 3.0L, 0, 127, 0, 127); }
ENTRY(quick_byte4_0)
{ small(32, 63, 1.95L, -128, -1, -128, -1); }
ENTRY(quick_byte4_1)
{ small(32, 63, 1.95L, -128, -1, 0, 127); }
ENTRY(quick_byte4_2)
{ small(32, 63, 1.95L, 0, 127, -128, -1); }
ENTRY(quick_byte4_3)
{ small(32, 63, 1.95L, 0, 127, 0, 127); }
ENTRY(quick_byte5_0)
{ small(64, 128, 1.3L, -128, -1, -128, -1); }
ENTRY(quick_byte5_1)
{ small(64, 128, 1.3L, -128, -1, 0, 127); }
ENTRY(quick_byte5_2)
{ small(64, 128, 1.3L, 0, 127, -128, -1); }
ENTRY(quick_byte5_3)
{ small(64, 128, 1.3L, 0, 127, 0, 127); }
ENTRY(quick_short0)
{
	switch (vs_pick(4)) {
	case 0: window(0, 24000); break;
	case 1: window(7817, 22690); break;
	case 2: window(14782, 18906); break;
	case 3: window(16970, 16970); break;
	}
}
ENTRY(quick_short1)
{
	switch (vs_pick(4)) {
	case 0: window(21573, 10516); break;
	case 1: window(23822, 2915); break;
	case 2: window(24000, 0); break;
	case 3: window(22690, -7817); break;
	}
}
ENTRY(quick_short2)
{
	switch (vs_pick(4)) {
	case 0: window(18906, -14782); break;
	case 1: window(16970, -16970); break;
	case 2: window(10516, -21573); break;
	case 3: window(2915, -23822); break;
	}
}
ENTRY(quick_short3)
{
	switch (vs_pick(4)) {
	case 0: window(0, -24000); break;
	case 1: window(-7817, -22690); break;
	case 2: window(-14782, -18906); break;
	case 3: window(-16970, -16970); break;
	}
}
ENTRY(quick_short4)
{
	switch (vs_pick(4)) {
	case 0: window(-21573, -10516); break;
	case 1: window(-23822, -2915); break;
	case 2: window(-24000, 0); break;
	case 3: window(-22690, 7817); break;
	}
}
ENTRY(quick_short5)
{
	switch (vs_pick(4)) {
	case 0: window(-18906, 14782); break;
	case 1: window(-16970, 16970); break;
	case 2: window(-10516, 21573); break;
	case 3: window(-2915, 23822); break;
	}
}
ENTRY(quick_short6)
{
	switch (vs_pick(4)) {
	case 0: window(-6, 19994); break;
	case 1: window(19994, -6); break;
	case 2: window(-6, -20006); break;
	case 3: window(-20006, -6); break;
	}
}
ENTRY(quick_short7)
{
	switch (vs_pick(4)) {
	case 0: window(19994, 19994); break;
	case 1: window(19994, -20006); break;
	case 2: window(-20006, 19994); break;
	case 3: window(-20006, -20006); break;
	}
}
ENTRY(quick_short8)
{
	switch (vs_pick(4)) {
	case 0: window(32756, 32756); break;
	case 1: window(-32768, -32768); break;
	case 2: window(32756, -32768); break;
	case 3: window(-32768, 32756); break;
	}
}
ENTRY(quick_short9)
{
	switch (vs_pick(4)) {
	case 0: window(32756, -6); break;
	case 1: window(-32768, -6); break;
	case 2: window(-6, 32756); break;
	case 3: window(-6, -32768); break;
	}
}
ENTRY(quick_short10)
{
	switch (vs_pick(4)) {
	case 0: window(16384, -20000); break;
	case 1: window(1000, 32756); break;
	case 2: window(-1000, -32768); break;
	case 3: window(32756, 1000); break;
	}
}
ENTRY(quick_short11)
{
	switch (vs_pick(2)) {
	case 0: window(9, -32768); break;
	case 1: window(-21, -32768); break;
	}
}
