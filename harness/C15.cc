// vfile: mode=real tm=1 quo=1 assert_ms=60000
// bound: atan: every double up to 1.7e308 and every float up to 3e38, both signs, with error bound 4e-15 and 2e-6; relative error bound 1e-14 (double) and 4e-6 (float) for arguments from 1e-30 to 0.3
// bound: atan2: every pair of doubles with |x| from 2^-20, 1 and 2^20 times [1,2] and |y/x| from 1e-12 to 1e12 in all four quadrants, error bound 4e-15; float likewise with error bound 2e-6
// bound: atan2 at the ends of the number range: |x| in 1e-200 and 1e200 (float 1e-30 and 1e30) times [1,1.125], |y/x| within 0.27 to 3.4
// bound: atan2 on the axes: every float and double (bit-exact); quotients that underflow: float pairs with |y| in [1e-44,1e-38] and |x| in [1e8,1e10]
#include "vs.h"
namespace DSP { using std::copysign; }
#include "atan2.hh"

// a is the arc tangent of q or, for large values, of its reciprocal
static long double ref(long double q, bool big, int sign)
{
	return big ? sign * VPI / 2 - atanl(1 / q) : atanl(q);
}
static void atan_d(double lo, double hi, long double tol, bool big = false)
{
	double x = vs_f64("x", lo, hi);
	vclose(DSP::atan(x), ref(x, big, lo < 0 ? -1 : 1), tol, "arc tangent of a double");
}
static void atan_f(float lo, float hi, long double tol, bool big = false)
{
	float x = vs_f32("x", lo, hi);
	vclose(DSP::atan(x), ref(x, big, lo < 0 ? -1 : 1), tol, "arc tangent of a float");
}
static long double ref2(long double y, long double x, bool big, int sy, int sx)
{
	long double phase = ref(y / x, big, sy * sx);
	return sx > 0 ? phase : phase + sy * VPI;
}
static void atan2_d(double yl, double yh, double xl, double xh, bool big)
{
	double y = vs_f64("y", yl, yh), x = vs_f64("x", xl, xh);
	vclose(DSP::atan2(y, x), ref2(y, x, big, yl < 0 ? -1 : 1, xl < 0 ? -1 : 1), 4e-15L, "angle of a pair of doubles");
}
static void atan2_f(float yl, float yh, float xl, float xh, bool big)
{
	float y = vs_f32("y", yl, yh), x = vs_f32("x", xl, xh);
	vclose(DSP::atan2(y, x), ref2(y, x, big, yl < 0 ? -1 : 1, xl < 0 ? -1 : 1), 2e-6L, "angle of a pair of floats");
}

ENTRY(quick_atan_d_p)
{
	switch (vs_pick(17)) {
	case 0: atan_d(0.0, 0.1, 4e-15L, false); break;
	case 1: atan_d(0.1, 0.25, 4e-15L, false); break;
	case 2: atan_d(0.25, 0.45, 4e-15L, false); break;
	case 3: atan_d(0.45, 0.66, 4e-15L, false); break;
	case 4: atan_d(0.6600000000000001, 0.9, 4e-15L, false); break;
	case 5: atan_d(0.9, 1.3, 4e-15L, false); break;
	case 6: atan_d(1.3, 1.8, 4e-15L, true); break;
	case 7: atan_d(1.8, 2.414213562373095, 4e-15L, true); break;
	case 8: atan_d(2.4142135623730954, 3.5, 4e-15L, true); break;
	case 9: atan_d(3.5, 5.0, 4e-15L, true); break;
	case 10: atan_d(5.0, 8.0, 4e-15L, true); break;
	case 11: atan_d(8.0, 14.0, 4e-15L, true); break;
	case 12: atan_d(14.0, 100.0, 4e-15L, true); break;
	case 13: atan_d(100.0, 10000.0, 4e-15L, true); break;
	case 14: atan_d(10000.0, 10000000000.0, 4e-15L, true); break;
	case 15: atan_d(10000000000.0, 1e+20, 4e-15L, true); break;
	case 16: atan_d(1e+20, 1.7e308, 4e-15L, true); break;
	}
}
ENTRY(quick_atan_d_m)
{
	switch (vs_pick(17)) {
	case 0: atan_d(-0.1, -0.0, 4e-15L, false); break;
	case 1: atan_d(-0.25, -0.1, 4e-15L, false); break;
	case 2: atan_d(-0.45, -0.25, 4e-15L, false); break;
	case 3: atan_d(-0.66, -0.45, 4e-15L, false); break;
	case 4: atan_d(-0.9, -0.6600000000000001, 4e-15L, false); break;
	case 5: atan_d(-1.3, -0.9, 4e-15L, false); break;
	case 6: atan_d(-1.8, -1.3, 4e-15L, true); break;
	case 7: atan_d(-2.414213562373095, -1.8, 4e-15L, true); break;
	case 8: atan_d(-3.5, -2.4142135623730954, 4e-15L, true); break;
	case 9: atan_d(-5.0, -3.5, 4e-15L, true); break;
	case 10: atan_d(-8.0, -5.0, 4e-15L, true); break;
	case 11: atan_d(-14.0, -8.0, 4e-15L, true); break;
	case 12: atan_d(-100.0, -14.0, 4e-15L, true); break;
	case 13: atan_d(-10000.0, -100.0, 4e-15L, true); break;
	case 14: atan_d(-10000000000.0, -10000.0, 4e-15L, true); break;
	case 15: atan_d(-1e+20, -10000000000.0, 4e-15L, true); break;
	case 16: atan_d(-1.7e308, -1e+20, 4e-15L, true); break;
	}
}
ENTRY(quick_atan_d_rel)
{
	switch (vs_pick(14)) {
	case 0: atan_d(0.2, 0.30000000000000004, 2e-15L); break;
	case 1: atan_d(-0.30000000000000004, -0.2, 2e-15L); break;
	case 2: atan_d(0.05, 0.07500000000000001, 5e-16L); break;
	case 3: atan_d(-0.07500000000000001, -0.05, 5e-16L); break;
	case 4: atan_d(0.01, 0.015, 1e-16L); break;
	case 5: atan_d(-0.015, -0.01, 1e-16L); break;
	case 6: atan_d(0.0001, 0.00015000000000000001, 1e-18L); break;
	case 7: atan_d(-0.00015000000000000001, -0.0001, 1e-18L); break;
	case 8: atan_d(1e-08, 1.5000000000000002e-08, 1e-22L); break;
	case 9: atan_d(-1.5000000000000002e-08, -1e-08, 1e-22L); break;
	case 10: atan_d(1e-15, 1.5000000000000001e-15, 1.0000000000000001e-29L); break;
	case 11: atan_d(-1.5000000000000001e-15, -1e-15, 1.0000000000000001e-29L); break;
	case 12: atan_d(1e-30, 1.5000000000000001e-30, 1.0000000000000001e-44L); break;
	case 13: atan_d(-1.5000000000000001e-30, -1e-30, 1.0000000000000001e-44L); break;
	}
}
ENTRY(quick_atan_f_p)
{
	switch (vs_pick(21)) {
	case 0: atan_f(0.0f, 0.1f, 2e-6L, false); break;
	case 1: atan_f(0.1f, 0.25f, 2e-6L, false); break;
	case 2: atan_f(0.25f, 0.45f, 2e-6L, false); break;
	case 3: atan_f(0.45f, 0.66f, 2e-6L, false); break;
	case 4: atan_f(0.6600000858306885f, 0.9f, 2e-6L, false); break;
	case 5: atan_f(0.9f, 1.3f, 2e-6L, false); break;
	case 6: atan_f(1.3f, 1.8f, 2e-6L, true); break;
	case 7: atan_f(1.8f, 2.414213562373095f, 2e-6L, true); break;
	case 8: atan_f(2.4142138957977295f, 3.5f, 2e-6L, true); break;
	case 9: atan_f(3.5f, 5.0f, 2e-6L, true); break;
	case 10: atan_f(5.0f, 8.0f, 2e-6L, true); break;
	case 11: atan_f(8.0f, 14.0f, 2e-6L, true); break;
	case 12: atan_f(14.0f, 20.0f, 2e-6L, true); break;
	case 13: atan_f(20.0f, 30.0f, 2e-6L, true); break;
	case 14: atan_f(30.0f, 50.0f, 2e-6L, true); break;
	case 15: atan_f(50.0f, 100.0f, 2e-6L, true); break;
	case 16: atan_f(100.0f, 1000.0f, 2e-6L, true); break;
	case 17: atan_f(1000.0f, 10000.0f, 2e-6L, true); break;
	case 18: atan_f(10000.0f, 10000000000.0f, 2e-6L, true); break;
	case 19: atan_f(10000000000.0f, 1e+20f, 2e-6L, true); break;
	case 20: atan_f(1e+20f, 3e38f, 2e-6L, true); break;
	}
}
ENTRY(quick_atan_f_m)
{
	switch (vs_pick(21)) {
	case 0: atan_f(-0.1f, -0.0f, 2e-6L, false); break;
	case 1: atan_f(-0.25f, -0.1f, 2e-6L, false); break;
	case 2: atan_f(-0.45f, -0.25f, 2e-6L, false); break;
	case 3: atan_f(-0.66f, -0.45f, 2e-6L, false); break;
	case 4: atan_f(-0.9f, -0.6600000858306885f, 2e-6L, false); break;
	case 5: atan_f(-1.3f, -0.9f, 2e-6L, false); break;
	case 6: atan_f(-1.8f, -1.3f, 2e-6L, true); break;
	case 7: atan_f(-2.414213562373095f, -1.8f, 2e-6L, true); break;
	case 8: atan_f(-3.5f, -2.4142138957977295f, 2e-6L, true); break;
	case 9: atan_f(-5.0f, -3.5f, 2e-6L, true); break;
	case 10: atan_f(-8.0f, -5.0f, 2e-6L, true); break;
	case 11: atan_f(-14.0f, -8.0f, 2e-6L, true); break;
	case 12: atan_f(-20.0f, -14.0f, 2e-6L, true); break;
	case 13: atan_f(-30.0f, -20.0f, 2e-6L, true); break;
	case 14: atan_f(-50.0f, -30.0f, 2e-6L, true); break;
	case 15: atan_f(-100.0f, -50.0f, 2e-6L, true); break;
	case 16: atan_f(-1000.0f, -100.0f, 2e-6L, true); break;
	case 17: atan_f(-10000.0f, -1000.0f, 2e-6L, true); break;
	case 18: atan_f(-10000000000.0f, -10000.0f, 2e-6L, true); break;
	case 19: atan_f(-1e+20f, -10000000000.0f, 2e-6L, true); break;
	case 20: atan_f(-3e38f, -1e+20f, 2e-6L, true); break;
	}
}
ENTRY(quick_atan_f_rel)
{
	switch (vs_pick(14)) {
	case 0: atan_f(0.2f, 0.30000000000000004f, 8e-07L); break;
	case 1: atan_f(-0.30000000000000004f, -0.2f, 8e-07L); break;
	case 2: atan_f(0.05f, 0.07500000000000001f, 2e-07L); break;
	case 3: atan_f(-0.07500000000000001f, -0.05f, 2e-07L); break;
	case 4: atan_f(0.01f, 0.015f, 4e-08L); break;
	case 5: atan_f(-0.015f, -0.01f, 4e-08L); break;
	case 6: atan_f(0.0001f, 0.00015000000000000001f, 4e-10L); break;
	case 7: atan_f(-0.00015000000000000001f, -0.0001f, 4e-10L); break;
	case 8: atan_f(1e-08f, 1.5000000000000002e-08f, 4e-14L); break;
	case 9: atan_f(-1.5000000000000002e-08f, -1e-08f, 4e-14L); break;
	case 10: atan_f(1e-15f, 1.5000000000000001e-15f, 4.0000000000000004e-21L); break;
	case 11: atan_f(-1.5000000000000001e-15f, -1e-15f, 4.0000000000000004e-21L); break;
	case 12: atan_f(1e-30f, 1.5000000000000001e-30f, 4.0000000000000004e-36L); break;
	case 13: atan_f(-1.5000000000000001e-30f, -1e-30f, 4.0000000000000004e-36L); break;
	}
}
ENTRY(quick_atan2_d0_0_1)
{
	switch (vs_pick(31)) {
	case 0: atan2_d(1.1348724365234375e-18, 1.1348724365234373e-12, 1.1348724365234374e-06, 1.354217529296875e-06, false); break;
	case 1: atan2_d(1.1348724365234373e-12, 1.1348724365234374e-07, 1.1348724365234374e-06, 1.354217529296875e-06, false); break;
	case 2: atan2_d(1.1348724365234374e-07, 1.5888214111328125e-07, 1.1348724365234374e-06, 1.354217529296875e-06, false); break;
	case 3: atan2_d(1.5888214111328125e-07, 2.2243499755859375e-07, 1.1348724365234374e-06, 1.354217529296875e-06, false); break;
	case 4: atan2_d(2.2243499755859375e-07, 3.109550476074219e-07, 1.1348724365234374e-06, 1.354217529296875e-06, false); break;
	case 5: atan2_d(3.109550476074219e-07, 4.35791015625e-07, 1.1348724365234374e-06, 1.354217529296875e-06, false); break;
	case 6: atan2_d(4.35791015625e-07, 5.016136169433594e-07, 1.1348724365234374e-06, 1.354217529296875e-06, false); break;
	case 7: atan2_d(5.016136169433594e-07, 5.765151977539062e-07, 1.1348724365234374e-06, 1.354217529296875e-06, false); break;
	case 8: atan2_d(5.765151977539062e-07, 6.627655029296874e-07, 1.1348724365234374e-06, 1.354217529296875e-06, false); break;
	case 9: atan2_d(6.627655029296874e-07, 7.626342773437501e-07, 1.1348724365234374e-06, 1.354217529296875e-06, false); break;
	case 10: atan2_d(7.626342773437501e-07, 8.772563934326172e-07, 1.1348724365234374e-06, 1.354217529296875e-06, false); break;
	case 11: atan2_d(8.772563934326172e-07, 1.0089015960693358e-06, 1.1348724365234374e-06, 1.354217529296875e-06, false); break;
	case 12: atan2_d(1.0089015960693358e-06, 1.1598396301269532e-06, 1.1348724365234374e-06, 1.354217529296875e-06, false); break;
	case 13: atan2_d(1.1598396301269532e-06, 1.333475112915039e-06, 1.1348724365234374e-06, 1.354217529296875e-06, false); break;
	case 14: atan2_d(1.333475112915039e-06, 1.533212661743164e-06, 1.1348724365234374e-06, 1.354217529296875e-06, false); break;
	case 15: atan2_d(1.533212661743164e-06, 1.7635917663574218e-06, 1.1348724365234374e-06, 1.354217529296875e-06, true); break;
	case 16: atan2_d(1.7635917663574218e-06, 2.0280170440673826e-06, 1.1348724365234374e-06, 1.354217529296875e-06, true); break;
	case 17: atan2_d(2.0280170440673826e-06, 2.332162857055664e-06, 1.1348724365234374e-06, 1.354217529296875e-06, true); break;
	case 18: atan2_d(2.332162857055664e-06, 2.681703567504883e-06, 1.1348724365234374e-06, 1.354217529296875e-06, true); break;
	case 19: atan2_d(2.681703567504883e-06, 3.0834484100341795e-06, 1.1348724365234374e-06, 1.354217529296875e-06, true); break;
	case 20: atan2_d(3.0834484100341795e-06, 3.546476364135742e-06, 1.1348724365234374e-06, 1.354217529296875e-06, true); break;
	case 21: atan2_d(3.546476364135742e-06, 4.078731536865234e-06, 1.1348724365234374e-06, 1.354217529296875e-06, true); break;
	case 22: atan2_d(4.078731536865234e-06, 4.690427780151367e-06, 1.1348724365234374e-06, 1.354217529296875e-06, true); break;
	case 23: atan2_d(4.690427780151367e-06, 6.566371917724609e-06, 1.1348724365234374e-06, 1.354217529296875e-06, true); break;
	case 24: atan2_d(6.566371917724609e-06, 9.192466735839843e-06, 1.1348724365234374e-06, 1.354217529296875e-06, true); break;
	case 25: atan2_d(9.192466735839843e-06, 1.286945343017578e-05, 1.1348724365234374e-06, 1.354217529296875e-06, true); break;
	case 26: atan2_d(1.286945343017578e-05, 1.801723480224609e-05, 1.1348724365234374e-06, 1.354217529296875e-06, true); break;
	case 27: atan2_d(1.801723480224609e-05, 2.522367477416992e-05, 1.1348724365234374e-06, 1.354217529296875e-06, true); break;
	case 28: atan2_d(2.522367477416992e-05, 0.0011348724365234375, 1.1348724365234374e-06, 1.354217529296875e-06, true); break;
	case 29: atan2_d(0.0011348724365234375, 1.1348724365234375, 1.1348724365234374e-06, 1.354217529296875e-06, true); break;
	case 30: atan2_d(1.1348724365234375, 1134872.4365234375, 1.1348724365234374e-06, 1.354217529296875e-06, true); break;
	}
}
ENTRY(quick_atan2_d0_1_2)
{
	switch (vs_pick(31)) {
	case 0: atan2_d(1.3542175292968748e-18, 1.354217529296875e-12, -1.6117095947265624e-06, -1.354217529296875e-06, false); break;
	case 1: atan2_d(1.354217529296875e-12, 1.354217529296875e-07, -1.6117095947265624e-06, -1.354217529296875e-06, false); break;
	case 2: atan2_d(1.354217529296875e-07, 1.895904541015625e-07, -1.6117095947265624e-06, -1.354217529296875e-06, false); break;
	case 3: atan2_d(1.895904541015625e-07, 2.654266357421875e-07, -1.6117095947265624e-06, -1.354217529296875e-06, false); break;
	case 4: atan2_d(2.654266357421875e-07, 3.710556030273438e-07, -1.6117095947265624e-06, -1.354217529296875e-06, false); break;
	case 5: atan2_d(3.710556030273438e-07, 5.2001953125e-07, -1.6117095947265624e-06, -1.354217529296875e-06, false); break;
	case 6: atan2_d(5.2001953125e-07, 5.985641479492187e-07, -1.6117095947265624e-06, -1.354217529296875e-06, false); break;
	case 7: atan2_d(5.985641479492187e-07, 6.879425048828125e-07, -1.6117095947265624e-06, -1.354217529296875e-06, false); break;
	case 8: atan2_d(6.879425048828125e-07, 7.908630371093749e-07, -1.6117095947265624e-06, -1.354217529296875e-06, false); break;
	case 9: atan2_d(7.908630371093749e-07, 9.100341796875e-07, -1.6117095947265624e-06, -1.354217529296875e-06, false); break;
	case 10: atan2_d(9.100341796875e-07, 1.0468101501464845e-06, -1.6117095947265624e-06, -1.354217529296875e-06, false); break;
	case 11: atan2_d(1.0468101501464845e-06, 1.203899383544922e-06, -1.6117095947265624e-06, -1.354217529296875e-06, false); break;
	case 12: atan2_d(1.203899383544922e-06, 1.3840103149414061e-06, -1.6117095947265624e-06, -1.354217529296875e-06, false); break;
	case 13: atan2_d(1.3840103149414061e-06, 1.591205596923828e-06, -1.6117095947265624e-06, -1.354217529296875e-06, false); break;
	case 14: atan2_d(1.591205596923828e-06, 1.829547882080078e-06, -1.6117095947265624e-06, -1.354217529296875e-06, false); break;
	case 15: atan2_d(1.829547882080078e-06, 2.1044540405273437e-06, -1.6117095947265624e-06, -1.354217529296875e-06, true); break;
	case 16: atan2_d(2.1044540405273437e-06, 2.4199867248535155e-06, -1.6117095947265624e-06, -1.354217529296875e-06, true); break;
	case 17: atan2_d(2.4199867248535155e-06, 2.782917022705078e-06, -1.6117095947265624e-06, -1.354217529296875e-06, true); break;
	case 18: atan2_d(2.782917022705078e-06, 3.2000160217285155e-06, -1.6117095947265624e-06, -1.354217529296875e-06, true); break;
	case 19: atan2_d(3.2000160217285155e-06, 3.6794090270996095e-06, -1.6117095947265624e-06, -1.354217529296875e-06, true); break;
	case 20: atan2_d(3.6794090270996095e-06, 4.231929779052734e-06, -1.6117095947265624e-06, -1.354217529296875e-06, true); break;
	case 21: atan2_d(4.231929779052734e-06, 4.867057800292968e-06, -1.6117095947265624e-06, -1.354217529296875e-06, true); break;
	case 22: atan2_d(4.867057800292968e-06, 5.596981048583984e-06, -1.6117095947265624e-06, -1.354217529296875e-06, true); break;
	case 23: atan2_d(5.596981048583984e-06, 7.835502624511717e-06, -1.6117095947265624e-06, -1.354217529296875e-06, true); break;
	case 24: atan2_d(7.835502624511717e-06, 1.0969161987304686e-05, -1.6117095947265624e-06, -1.354217529296875e-06, true); break;
	case 25: atan2_d(1.0969161987304686e-05, 1.535682678222656e-05, -1.6117095947265624e-06, -1.354217529296875e-06, true); break;
	case 26: atan2_d(1.535682678222656e-05, 2.1499557495117184e-05, -1.6117095947265624e-06, -1.354217529296875e-06, true); break;
	case 27: atan2_d(2.1499557495117184e-05, 3.009883880615234e-05, -1.6117095947265624e-06, -1.354217529296875e-06, true); break;
	case 28: atan2_d(3.009883880615234e-05, 0.001354217529296875, -1.6117095947265624e-06, -1.354217529296875e-06, true); break;
	case 29: atan2_d(0.001354217529296875, 1.354217529296875, -1.6117095947265624e-06, -1.354217529296875e-06, true); break;
	case 30: atan2_d(1.354217529296875, 1354217.529296875, -1.6117095947265624e-06, -1.354217529296875e-06, true); break;
	}
}
ENTRY(quick_atan2_d0_2_3)
{
	switch (vs_pick(31)) {
	case 0: atan2_d(-1.6117095947265624e-12, -1.6117095947265624e-18, -1.9073486328125e-06, -1.6117095947265624e-06, false); break;
	case 1: atan2_d(-1.6117095947265626e-07, -1.6117095947265624e-12, -1.9073486328125e-06, -1.6117095947265624e-06, false); break;
	case 2: atan2_d(-2.2563934326171875e-07, -1.6117095947265626e-07, -1.9073486328125e-06, -1.6117095947265624e-06, false); break;
	case 3: atan2_d(-3.1589508056640623e-07, -2.2563934326171875e-07, -1.9073486328125e-06, -1.6117095947265624e-06, false); break;
	case 4: atan2_d(-4.4160842895507815e-07, -3.1589508056640623e-07, -1.9073486328125e-06, -1.6117095947265624e-06, false); break;
	case 5: atan2_d(-6.18896484375e-07, -4.4160842895507815e-07, -1.9073486328125e-06, -1.6117095947265624e-06, false); break;
	case 6: atan2_d(-7.123756408691406e-07, -6.18896484375e-07, -1.9073486328125e-06, -1.6117095947265624e-06, false); break;
	case 7: atan2_d(-8.187484741210937e-07, -7.123756408691406e-07, -1.9073486328125e-06, -1.6117095947265624e-06, false); break;
	case 8: atan2_d(-9.412384033203125e-07, -8.187484741210937e-07, -1.9073486328125e-06, -1.6117095947265624e-06, false); break;
	case 9: atan2_d(-1.08306884765625e-06, -9.412384033203125e-07, -1.9073486328125e-06, -1.6117095947265624e-06, false); break;
	case 10: atan2_d(-1.2458515167236328e-06, -1.08306884765625e-06, -1.9073486328125e-06, -1.6117095947265624e-06, false); break;
	case 11: atan2_d(-1.432809829711914e-06, -1.2458515167236328e-06, -1.9073486328125e-06, -1.6117095947265624e-06, false); break;
	case 12: atan2_d(-1.6471672058105468e-06, -1.432809829711914e-06, -1.9073486328125e-06, -1.6117095947265624e-06, false); break;
	case 13: atan2_d(-1.8937587738037108e-06, -1.6471672058105468e-06, -1.9073486328125e-06, -1.6117095947265624e-06, false); break;
	case 14: atan2_d(-2.1774196624755858e-06, -1.8937587738037108e-06, -1.9073486328125e-06, -1.6117095947265624e-06, false); break;
	case 15: atan2_d(-2.504596710205078e-06, -2.1774196624755858e-06, -1.9073486328125e-06, -1.6117095947265624e-06, true); break;
	case 16: atan2_d(-2.880125045776367e-06, -2.504596710205078e-06, -1.9073486328125e-06, -1.6117095947265624e-06, true); break;
	case 17: atan2_d(-3.312063217163086e-06, -2.880125045776367e-06, -1.9073486328125e-06, -1.6117095947265624e-06, true); break;
	case 18: atan2_d(-3.808469772338867e-06, -3.312063217163086e-06, -1.9073486328125e-06, -1.6117095947265624e-06, true); break;
	case 19: atan2_d(-4.37901496887207e-06, -3.808469772338867e-06, -1.9073486328125e-06, -1.6117095947265624e-06, true); break;
	case 20: atan2_d(-5.036592483520508e-06, -4.37901496887207e-06, -1.9073486328125e-06, -1.6117095947265624e-06, true); break;
	case 21: atan2_d(-5.7924842834472654e-06, -5.036592483520508e-06, -1.9073486328125e-06, -1.6117095947265624e-06, true); break;
	case 22: atan2_d(-6.661195755004883e-06, -5.7924842834472654e-06, -1.9073486328125e-06, -1.6117095947265624e-06, true); break;
	case 23: atan2_d(-9.325351715087889e-06, -6.661195755004883e-06, -1.9073486328125e-06, -1.6117095947265624e-06, true); break;
	case 24: atan2_d(-1.3054847717285155e-05, -9.325351715087889e-06, -1.9073486328125e-06, -1.6117095947265624e-06, true); break;
	case 25: atan2_d(-1.827678680419922e-05, -1.3054847717285155e-05, -1.9073486328125e-06, -1.6117095947265624e-06, true); break;
	case 26: atan2_d(-2.5587501525878906e-05, -1.827678680419922e-05, -1.9073486328125e-06, -1.6117095947265624e-06, true); break;
	case 27: atan2_d(-3.582185745239258e-05, -2.5587501525878906e-05, -1.9073486328125e-06, -1.6117095947265624e-06, true); break;
	case 28: atan2_d(-0.0016117095947265625, -3.582185745239258e-05, -1.9073486328125e-06, -1.6117095947265624e-06, true); break;
	case 29: atan2_d(-1.6117095947265625, -0.0016117095947265625, -1.9073486328125e-06, -1.6117095947265624e-06, true); break;
	case 30: atan2_d(-1611709.5947265625, -1.6117095947265625, -1.9073486328125e-06, -1.6117095947265624e-06, true); break;
	}
}
ENTRY(quick_atan2_d0_3_0)
{
	switch (vs_pick(31)) {
	case 0: atan2_d(-9.5367431640625e-13, -9.5367431640625e-19, 9.5367431640625e-07, 1.1348724365234374e-06, false); break;
	case 1: atan2_d(-9.5367431640625e-08, -9.5367431640625e-13, 9.5367431640625e-07, 1.1348724365234374e-06, false); break;
	case 2: atan2_d(-1.33514404296875e-07, -9.5367431640625e-08, 9.5367431640625e-07, 1.1348724365234374e-06, false); break;
	case 3: atan2_d(-1.86920166015625e-07, -1.33514404296875e-07, 9.5367431640625e-07, 1.1348724365234374e-06, false); break;
	case 4: atan2_d(-2.613067626953125e-07, -1.86920166015625e-07, 9.5367431640625e-07, 1.1348724365234374e-06, false); break;
	case 5: atan2_d(-3.662109375e-07, -2.613067626953125e-07, 9.5367431640625e-07, 1.1348724365234374e-06, false); break;
	case 6: atan2_d(-4.215240478515625e-07, -3.662109375e-07, 9.5367431640625e-07, 1.1348724365234374e-06, false); break;
	case 7: atan2_d(-4.84466552734375e-07, -4.215240478515625e-07, 9.5367431640625e-07, 1.1348724365234374e-06, false); break;
	case 8: atan2_d(-5.5694580078125e-07, -4.84466552734375e-07, 9.5367431640625e-07, 1.1348724365234374e-06, false); break;
	case 9: atan2_d(-6.40869140625e-07, -5.5694580078125e-07, 9.5367431640625e-07, 1.1348724365234374e-06, false); break;
	case 10: atan2_d(-7.371902465820313e-07, -6.40869140625e-07, 9.5367431640625e-07, 1.1348724365234374e-06, false); break;
	case 11: atan2_d(-8.478164672851563e-07, -7.371902465820313e-07, 9.5367431640625e-07, 1.1348724365234374e-06, false); break;
	case 12: atan2_d(-9.746551513671875e-07, -8.478164672851563e-07, 9.5367431640625e-07, 1.1348724365234374e-06, false); break;
	case 13: atan2_d(-1.1205673217773438e-06, -9.746551513671875e-07, 9.5367431640625e-07, 1.1348724365234374e-06, false); break;
	case 14: atan2_d(-1.2884140014648437e-06, -1.1205673217773438e-06, 9.5367431640625e-07, 1.1348724365234374e-06, false); break;
	case 15: atan2_d(-1.4820098876953125e-06, -1.2884140014648437e-06, 9.5367431640625e-07, 1.1348724365234374e-06, true); break;
	case 16: atan2_d(-1.7042160034179687e-06, -1.4820098876953125e-06, 9.5367431640625e-07, 1.1348724365234374e-06, true); break;
	case 17: atan2_d(-1.959800720214844e-06, -1.7042160034179687e-06, 9.5367431640625e-07, 1.1348724365234374e-06, true); break;
	case 18: atan2_d(-2.2535324096679687e-06, -1.959800720214844e-06, 9.5367431640625e-07, 1.1348724365234374e-06, true); break;
	case 19: atan2_d(-2.5911331176757813e-06, -2.2535324096679687e-06, 9.5367431640625e-07, 1.1348724365234374e-06, true); break;
	case 20: atan2_d(-2.9802322387695312e-06, -2.5911331176757813e-06, 9.5367431640625e-07, 1.1348724365234374e-06, true); break;
	case 21: atan2_d(-3.4275054931640624e-06, -2.9802322387695312e-06, 9.5367431640625e-07, 1.1348724365234374e-06, true); break;
	case 22: atan2_d(-3.941535949707031e-06, -3.4275054931640624e-06, 9.5367431640625e-07, 1.1348724365234374e-06, true); break;
	case 23: atan2_d(-5.517959594726562e-06, -3.941535949707031e-06, 9.5367431640625e-07, 1.1348724365234374e-06, true); break;
	case 24: atan2_d(-7.724761962890625e-06, -5.517959594726562e-06, 9.5367431640625e-07, 1.1348724365234374e-06, true); break;
	case 25: atan2_d(-1.0814666748046875e-05, -7.724761962890625e-06, 9.5367431640625e-07, 1.1348724365234374e-06, true); break;
	case 26: atan2_d(-1.5140533447265624e-05, -1.0814666748046875e-05, 9.5367431640625e-07, 1.1348724365234374e-06, true); break;
	case 27: atan2_d(-2.119636535644531e-05, -1.5140533447265624e-05, 9.5367431640625e-07, 1.1348724365234374e-06, true); break;
	case 28: atan2_d(-0.00095367431640625, -2.119636535644531e-05, 9.5367431640625e-07, 1.1348724365234374e-06, true); break;
	case 29: atan2_d(-0.95367431640625, -0.00095367431640625, 9.5367431640625e-07, 1.1348724365234374e-06, true); break;
	case 30: atan2_d(-953674.31640625, -0.95367431640625, 9.5367431640625e-07, 1.1348724365234374e-06, true); break;
	}
}
ENTRY(quick_atan2_d1_0_0)
{
	switch (vs_pick(31)) {
	case 0: atan2_d(1e-12, 1e-06, 1.0, 1.19, false); break;
	case 1: atan2_d(1e-06, 0.1, 1.0, 1.19, false); break;
	case 2: atan2_d(0.1, 0.14, 1.0, 1.19, false); break;
	case 3: atan2_d(0.14, 0.196, 1.0, 1.19, false); break;
	case 4: atan2_d(0.196, 0.274, 1.0, 1.19, false); break;
	case 5: atan2_d(0.274, 0.384, 1.0, 1.19, false); break;
	case 6: atan2_d(0.384, 0.442, 1.0, 1.19, false); break;
	case 7: atan2_d(0.442, 0.508, 1.0, 1.19, false); break;
	case 8: atan2_d(0.508, 0.584, 1.0, 1.19, false); break;
	case 9: atan2_d(0.584, 0.672, 1.0, 1.19, false); break;
	case 10: atan2_d(0.672, 0.773, 1.0, 1.19, false); break;
	case 11: atan2_d(0.773, 0.889, 1.0, 1.19, false); break;
	case 12: atan2_d(0.889, 1.022, 1.0, 1.19, false); break;
	case 13: atan2_d(1.022, 1.175, 1.0, 1.19, false); break;
	case 14: atan2_d(1.175, 1.351, 1.0, 1.19, false); break;
	case 15: atan2_d(1.351, 1.554, 1.0, 1.19, true); break;
	case 16: atan2_d(1.554, 1.787, 1.0, 1.19, true); break;
	case 17: atan2_d(1.787, 2.055, 1.0, 1.19, true); break;
	case 18: atan2_d(2.055, 2.363, 1.0, 1.19, true); break;
	case 19: atan2_d(2.363, 2.717, 1.0, 1.19, true); break;
	case 20: atan2_d(2.717, 3.125, 1.0, 1.19, true); break;
	case 21: atan2_d(3.125, 3.594, 1.0, 1.19, true); break;
	case 22: atan2_d(3.594, 4.133, 1.0, 1.19, true); break;
	case 23: atan2_d(4.133, 5.786, 1.0, 1.19, true); break;
	case 24: atan2_d(5.786, 8.1, 1.0, 1.19, true); break;
	case 25: atan2_d(8.1, 11.34, 1.0, 1.19, true); break;
	case 26: atan2_d(11.34, 15.876, 1.0, 1.19, true); break;
	case 27: atan2_d(15.876, 22.226, 1.0, 1.19, true); break;
	case 28: atan2_d(22.226, 1000.0, 1.0, 1.19, true); break;
	case 29: atan2_d(1000.0, 1000000.0, 1.0, 1.19, true); break;
	case 30: atan2_d(1000000.0, 1000000000000.0, 1.0, 1.19, true); break;
	}
}
ENTRY(quick_atan2_d1_0_1)
{
	switch (vs_pick(31)) {
	case 0: atan2_d(1.19e-12, 1.1899999999999998e-06, 1.19, 1.42, false); break;
	case 1: atan2_d(1.1899999999999998e-06, 0.119, 1.19, 1.42, false); break;
	case 2: atan2_d(0.119, 0.1666, 1.19, 1.42, false); break;
	case 3: atan2_d(0.1666, 0.23324, 1.19, 1.42, false); break;
	case 4: atan2_d(0.23324, 0.32606, 1.19, 1.42, false); break;
	case 5: atan2_d(0.32606, 0.45696, 1.19, 1.42, false); break;
	case 6: atan2_d(0.45696, 0.52598, 1.19, 1.42, false); break;
	case 7: atan2_d(0.52598, 0.60452, 1.19, 1.42, false); break;
	case 8: atan2_d(0.60452, 0.6949599999999999, 1.19, 1.42, false); break;
	case 9: atan2_d(0.6949599999999999, 0.7996800000000001, 1.19, 1.42, false); break;
	case 10: atan2_d(0.7996800000000001, 0.91987, 1.19, 1.42, false); break;
	case 11: atan2_d(0.91987, 1.05791, 1.19, 1.42, false); break;
	case 12: atan2_d(1.05791, 1.21618, 1.19, 1.42, false); break;
	case 13: atan2_d(1.21618, 1.39825, 1.19, 1.42, false); break;
	case 14: atan2_d(1.39825, 1.6076899999999998, 1.19, 1.42, false); break;
	case 15: atan2_d(1.6076899999999998, 1.84926, 1.19, 1.42, true); break;
	case 16: atan2_d(1.84926, 2.12653, 1.19, 1.42, true); break;
	case 17: atan2_d(2.12653, 2.44545, 1.19, 1.42, true); break;
	case 18: atan2_d(2.44545, 2.81197, 1.19, 1.42, true); break;
	case 19: atan2_d(2.81197, 3.23323, 1.19, 1.42, true); break;
	case 20: atan2_d(3.23323, 3.71875, 1.19, 1.42, true); break;
	case 21: atan2_d(3.71875, 4.276859999999999, 1.19, 1.42, true); break;
	case 22: atan2_d(4.276859999999999, 4.91827, 1.19, 1.42, true); break;
	case 23: atan2_d(4.91827, 6.885339999999999, 1.19, 1.42, true); break;
	case 24: atan2_d(6.885339999999999, 9.639, 1.19, 1.42, true); break;
	case 25: atan2_d(9.639, 13.494599999999998, 1.19, 1.42, true); break;
	case 26: atan2_d(13.494599999999998, 18.892439999999997, 1.19, 1.42, true); break;
	case 27: atan2_d(18.892439999999997, 26.448939999999997, 1.19, 1.42, true); break;
	case 28: atan2_d(26.448939999999997, 1190.0, 1.19, 1.42, true); break;
	case 29: atan2_d(1190.0, 1190000.0, 1.19, 1.42, true); break;
	case 30: atan2_d(1190000.0, 1190000000000.0, 1.19, 1.42, true); break;
	}
}
ENTRY(quick_atan2_d1_0_2)
{
	switch (vs_pick(31)) {
	case 0: atan2_d(1.4199999999999998e-12, 1.42e-06, 1.42, 1.69, false); break;
	case 1: atan2_d(1.42e-06, 0.142, 1.42, 1.69, false); break;
	case 2: atan2_d(0.142, 0.1988, 1.42, 1.69, false); break;
	case 3: atan2_d(0.1988, 0.27832, 1.42, 1.69, false); break;
	case 4: atan2_d(0.27832, 0.38908000000000004, 1.42, 1.69, false); break;
	case 5: atan2_d(0.38908000000000004, 0.54528, 1.42, 1.69, false); break;
	case 6: atan2_d(0.54528, 0.62764, 1.42, 1.69, false); break;
	case 7: atan2_d(0.62764, 0.72136, 1.42, 1.69, false); break;
	case 8: atan2_d(0.72136, 0.8292799999999999, 1.42, 1.69, false); break;
	case 9: atan2_d(0.8292799999999999, 0.95424, 1.42, 1.69, false); break;
	case 10: atan2_d(0.95424, 1.09766, 1.42, 1.69, false); break;
	case 11: atan2_d(1.09766, 1.26238, 1.42, 1.69, false); break;
	case 12: atan2_d(1.26238, 1.4512399999999999, 1.42, 1.69, false); break;
	case 13: atan2_d(1.4512399999999999, 1.6684999999999999, 1.42, 1.69, false); break;
	case 14: atan2_d(1.6684999999999999, 1.9184199999999998, 1.42, 1.69, false); break;
	case 15: atan2_d(1.9184199999999998, 2.20668, 1.42, 1.69, true); break;
	case 16: atan2_d(2.20668, 2.53754, 1.42, 1.69, true); break;
	case 17: atan2_d(2.53754, 2.9181, 1.42, 1.69, true); break;
	case 18: atan2_d(2.9181, 3.35546, 1.42, 1.69, true); break;
	case 19: atan2_d(3.35546, 3.85814, 1.42, 1.69, true); break;
	case 20: atan2_d(3.85814, 4.4375, 1.42, 1.69, true); break;
	case 21: atan2_d(4.4375, 5.103479999999999, 1.42, 1.69, true); break;
	case 22: atan2_d(5.103479999999999, 5.86886, 1.42, 1.69, true); break;
	case 23: atan2_d(5.86886, 8.216119999999998, 1.42, 1.69, true); break;
	case 24: atan2_d(8.216119999999998, 11.501999999999999, 1.42, 1.69, true); break;
	case 25: atan2_d(11.501999999999999, 16.1028, 1.42, 1.69, true); break;
	case 26: atan2_d(16.1028, 22.543919999999996, 1.42, 1.69, true); break;
	case 27: atan2_d(22.543919999999996, 31.560919999999996, 1.42, 1.69, true); break;
	case 28: atan2_d(31.560919999999996, 1420.0, 1.42, 1.69, true); break;
	case 29: atan2_d(1420.0, 1420000.0, 1.42, 1.69, true); break;
	case 30: atan2_d(1420000.0, 1420000000000.0, 1.42, 1.69, true); break;
	}
}
ENTRY(quick_atan2_d1_0_3)
{
	switch (vs_pick(31)) {
	case 0: atan2_d(1.6899999999999999e-12, 1.69e-06, 1.69, 2.0, false); break;
	case 1: atan2_d(1.69e-06, 0.169, 1.69, 2.0, false); break;
	case 2: atan2_d(0.169, 0.2366, 1.69, 2.0, false); break;
	case 3: atan2_d(0.2366, 0.33124, 1.69, 2.0, false); break;
	case 4: atan2_d(0.33124, 0.46306, 1.69, 2.0, false); break;
	case 5: atan2_d(0.46306, 0.64896, 1.69, 2.0, false); break;
	case 6: atan2_d(0.64896, 0.74698, 1.69, 2.0, false); break;
	case 7: atan2_d(0.74698, 0.85852, 1.69, 2.0, false); break;
	case 8: atan2_d(0.85852, 0.98696, 1.69, 2.0, false); break;
	case 9: atan2_d(0.98696, 1.13568, 1.69, 2.0, false); break;
	case 10: atan2_d(1.13568, 1.30637, 1.69, 2.0, false); break;
	case 11: atan2_d(1.30637, 1.50241, 1.69, 2.0, false); break;
	case 12: atan2_d(1.50241, 1.72718, 1.69, 2.0, false); break;
	case 13: atan2_d(1.72718, 1.98575, 1.69, 2.0, false); break;
	case 14: atan2_d(1.98575, 2.28319, 1.69, 2.0, false); break;
	case 15: atan2_d(2.28319, 2.62626, 1.69, 2.0, true); break;
	case 16: atan2_d(2.62626, 3.0200299999999998, 1.69, 2.0, true); break;
	case 17: atan2_d(3.0200299999999998, 3.47295, 1.69, 2.0, true); break;
	case 18: atan2_d(3.47295, 3.99347, 1.69, 2.0, true); break;
	case 19: atan2_d(3.99347, 4.59173, 1.69, 2.0, true); break;
	case 20: atan2_d(4.59173, 5.28125, 1.69, 2.0, true); break;
	case 21: atan2_d(5.28125, 6.07386, 1.69, 2.0, true); break;
	case 22: atan2_d(6.07386, 6.98477, 1.69, 2.0, true); break;
	case 23: atan2_d(6.98477, 9.778339999999998, 1.69, 2.0, true); break;
	case 24: atan2_d(9.778339999999998, 13.688999999999998, 1.69, 2.0, true); break;
	case 25: atan2_d(13.688999999999998, 19.1646, 1.69, 2.0, true); break;
	case 26: atan2_d(19.1646, 26.83044, 1.69, 2.0, true); break;
	case 27: atan2_d(26.83044, 37.56194, 1.69, 2.0, true); break;
	case 28: atan2_d(37.56194, 1690.0, 1.69, 2.0, true); break;
	case 29: atan2_d(1690.0, 1690000.0, 1.69, 2.0, true); break;
	case 30: atan2_d(1690000.0, 1690000000000.0, 1.69, 2.0, true); break;
	}
}
ENTRY(quick_atan2_d1_1_0)
{
	switch (vs_pick(31)) {
	case 0: atan2_d(1e-12, 1e-06, -1.19, -1.0, false); break;
	case 1: atan2_d(1e-06, 0.1, -1.19, -1.0, false); break;
	case 2: atan2_d(0.1, 0.14, -1.19, -1.0, false); break;
	case 3: atan2_d(0.14, 0.196, -1.19, -1.0, false); break;
	case 4: atan2_d(0.196, 0.274, -1.19, -1.0, false); break;
	case 5: atan2_d(0.274, 0.384, -1.19, -1.0, false); break;
	case 6: atan2_d(0.384, 0.442, -1.19, -1.0, false); break;
	case 7: atan2_d(0.442, 0.508, -1.19, -1.0, false); break;
	case 8: atan2_d(0.508, 0.584, -1.19, -1.0, false); break;
	case 9: atan2_d(0.584, 0.672, -1.19, -1.0, false); break;
	case 10: atan2_d(0.672, 0.773, -1.19, -1.0, false); break;
	case 11: atan2_d(0.773, 0.889, -1.19, -1.0, false); break;
	case 12: atan2_d(0.889, 1.022, -1.19, -1.0, false); break;
	case 13: atan2_d(1.022, 1.175, -1.19, -1.0, false); break;
	case 14: atan2_d(1.175, 1.351, -1.19, -1.0, false); break;
	case 15: atan2_d(1.351, 1.554, -1.19, -1.0, true); break;
	case 16: atan2_d(1.554, 1.787, -1.19, -1.0, true); break;
	case 17: atan2_d(1.787, 2.055, -1.19, -1.0, true); break;
	case 18: atan2_d(2.055, 2.363, -1.19, -1.0, true); break;
	case 19: atan2_d(2.363, 2.717, -1.19, -1.0, true); break;
	case 20: atan2_d(2.717, 3.125, -1.19, -1.0, true); break;
	case 21: atan2_d(3.125, 3.594, -1.19, -1.0, true); break;
	case 22: atan2_d(3.594, 4.133, -1.19, -1.0, true); break;
	case 23: atan2_d(4.133, 5.786, -1.19, -1.0, true); break;
	case 24: atan2_d(5.786, 8.1, -1.19, -1.0, true); break;
	case 25: atan2_d(8.1, 11.34, -1.19, -1.0, true); break;
	case 26: atan2_d(11.34, 15.876, -1.19, -1.0, true); break;
	case 27: atan2_d(15.876, 22.226, -1.19, -1.0, true); break;
	case 28: atan2_d(22.226, 1000.0, -1.19, -1.0, true); break;
	case 29: atan2_d(1000.0, 1000000.0, -1.19, -1.0, true); break;
	case 30: atan2_d(1000000.0, 1000000000000.0, -1.19, -1.0, true); break;
	}
}
ENTRY(quick_atan2_d1_1_1)
{
	switch (vs_pick(31)) {
	case 0: atan2_d(1.19e-12, 1.1899999999999998e-06, -1.42, -1.19, false); break;
	case 1: atan2_d(1.1899999999999998e-06, 0.119, -1.42, -1.19, false); break;
	case 2: atan2_d(0.119, 0.1666, -1.42, -1.19, false); break;
	case 3: atan2_d(0.1666, 0.23324, -1.42, -1.19, false); break;
	case 4: atan2_d(0.23324, 0.32606, -1.42, -1.19, false); break;
	case 5: atan2_d(0.32606, 0.45696, -1.42, -1.19, false); break;
	case 6: atan2_d(0.45696, 0.52598, -1.42, -1.19, false); break;
	case 7: atan2_d(0.52598, 0.60452, -1.42, -1.19, false); break;
	case 8: atan2_d(0.60452, 0.6949599999999999, -1.42, -1.19, false); break;
	case 9: atan2_d(0.6949599999999999, 0.7996800000000001, -1.42, -1.19, false); break;
	case 10: atan2_d(0.7996800000000001, 0.91987, -1.42, -1.19, false); break;
	case 11: atan2_d(0.91987, 1.05791, -1.42, -1.19, false); break;
	case 12: atan2_d(1.05791, 1.21618, -1.42, -1.19, false); break;
	case 13: atan2_d(1.21618, 1.39825, -1.42, -1.19, false); break;
	case 14: atan2_d(1.39825, 1.6076899999999998, -1.42, -1.19, false); break;
	case 15: atan2_d(1.6076899999999998, 1.84926, -1.42, -1.19, true); break;
	case 16: atan2_d(1.84926, 2.12653, -1.42, -1.19, true); break;
	case 17: atan2_d(2.12653, 2.44545, -1.42, -1.19, true); break;
	case 18: atan2_d(2.44545, 2.81197, -1.42, -1.19, true); break;
	case 19: atan2_d(2.81197, 3.23323, -1.42, -1.19, true); break;
	case 20: atan2_d(3.23323, 3.71875, -1.42, -1.19, true); break;
	case 21: atan2_d(3.71875, 4.276859999999999, -1.42, -1.19, true); break;
	case 22: atan2_d(4.276859999999999, 4.91827, -1.42, -1.19, true); break;
	case 23: atan2_d(4.91827, 6.885339999999999, -1.42, -1.19, true); break;
	case 24: atan2_d(6.885339999999999, 9.639, -1.42, -1.19, true); break;
	case 25: atan2_d(9.639, 13.494599999999998, -1.42, -1.19, true); break;
	case 26: atan2_d(13.494599999999998, 18.892439999999997, -1.42, -1.19, true); break;
	case 27: atan2_d(18.892439999999997, 26.448939999999997, -1.42, -1.19, true); break;
	case 28: atan2_d(26.448939999999997, 1190.0, -1.42, -1.19, true); break;
	case 29: atan2_d(1190.0, 1190000.0, -1.42, -1.19, true); break;
	case 30: atan2_d(1190000.0, 1190000000000.0, -1.42, -1.19, true); break;
	}
}
ENTRY(quick_atan2_d1_1_2)
{
	switch (vs_pick(31)) {
	case 0: atan2_d(1.4199999999999998e-12, 1.42e-06, -1.69, -1.42, false); break;
	case 1: atan2_d(1.42e-06, 0.142, -1.69, -1.42, false); break;
	case 2: atan2_d(0.142, 0.1988, -1.69, -1.42, false); break;
	case 3: atan2_d(0.1988, 0.27832, -1.69, -1.42, false); break;
	case 4: atan2_d(0.27832, 0.38908000000000004, -1.69, -1.42, false); break;
	case 5: atan2_d(0.38908000000000004, 0.54528, -1.69, -1.42, false); break;
	case 6: atan2_d(0.54528, 0.62764, -1.69, -1.42, false); break;
	case 7: atan2_d(0.62764, 0.72136, -1.69, -1.42, false); break;
	case 8: atan2_d(0.72136, 0.8292799999999999, -1.69, -1.42, false); break;
	case 9: atan2_d(0.8292799999999999, 0.95424, -1.69, -1.42, false); break;
	case 10: atan2_d(0.95424, 1.09766, -1.69, -1.42, false); break;
	case 11: atan2_d(1.09766, 1.26238, -1.69, -1.42, false); break;
	case 12: atan2_d(1.26238, 1.4512399999999999, -1.69, -1.42, false); break;
	case 13: atan2_d(1.4512399999999999, 1.6684999999999999, -1.69, -1.42, false); break;
	case 14: atan2_d(1.6684999999999999, 1.9184199999999998, -1.69, -1.42, false); break;
	case 15: atan2_d(1.9184199999999998, 2.20668, -1.69, -1.42, true); break;
	case 16: atan2_d(2.20668, 2.53754, -1.69, -1.42, true); break;
	case 17: atan2_d(2.53754, 2.9181, -1.69, -1.42, true); break;
	case 18: atan2_d(2.9181, 3.35546, -1.69, -1.42, true); break;
	case 19: atan2_d(3.35546, 3.85814, -1.69, -1.42, true); break;
	case 20: atan2_d(3.85814, 4.4375, -1.69, -1.42, true); break;
	case 21: atan2_d(4.4375, 5.103479999999999, -1.69, -1.42, true); break;
	case 22: atan2_d(5.103479999999999, 5.86886, -1.69, -1.42, true); break;
	case 23: atan2_d(5.86886, 8.216119999999998, -1.69, -1.42, true); break;
	case 24: atan2_d(8.216119999999998, 11.501999999999999, -1.69, -1.42, true); break;
	case 25: atan2_d(11.501999999999999, 16.1028, -1.69, -1.42, true); break;
	case 26: atan2_d(16.1028, 22.543919999999996, -1.69, -1.42, true); break;
	case 27: atan2_d(22.543919999999996, 31.560919999999996, -1.69, -1.42, true); break;
	case 28: atan2_d(31.560919999999996, 1420.0, -1.69, -1.42, true); break;
	case 29: atan2_d(1420.0, 1420000.0, -1.69, -1.42, true); break;
	case 30: atan2_d(1420000.0, 1420000000000.0, -1.69, -1.42, true); break;
	}
}
ENTRY(quick_atan2_d1_1_3)
{
	switch (vs_pick(31)) {
	case 0: atan2_d(1.6899999999999999e-12, 1.69e-06, -2.0, -1.69, false); break;
	case 1: atan2_d(1.69e-06, 0.169, -2.0, -1.69, false); break;
	case 2: atan2_d(0.169, 0.2366, -2.0, -1.69, false); break;
	case 3: atan2_d(0.2366, 0.33124, -2.0, -1.69, false); break;
	case 4: atan2_d(0.33124, 0.46306, -2.0, -1.69, false); break;
	case 5: atan2_d(0.46306, 0.64896, -2.0, -1.69, false); break;
	case 6: atan2_d(0.64896, 0.74698, -2.0, -1.69, false); break;
	case 7: atan2_d(0.74698, 0.85852, -2.0, -1.69, false); break;
	case 8: atan2_d(0.85852, 0.98696, -2.0, -1.69, false); break;
	case 9: atan2_d(0.98696, 1.13568, -2.0, -1.69, false); break;
	case 10: atan2_d(1.13568, 1.30637, -2.0, -1.69, false); break;
	case 11: atan2_d(1.30637, 1.50241, -2.0, -1.69, false); break;
	case 12: atan2_d(1.50241, 1.72718, -2.0, -1.69, false); break;
	case 13: atan2_d(1.72718, 1.98575, -2.0, -1.69, false); break;
	case 14: atan2_d(1.98575, 2.28319, -2.0, -1.69, false); break;
	case 15: atan2_d(2.28319, 2.62626, -2.0, -1.69, true); break;
	case 16: atan2_d(2.62626, 3.0200299999999998, -2.0, -1.69, true); break;
	case 17: atan2_d(3.0200299999999998, 3.47295, -2.0, -1.69, true); break;
	case 18: atan2_d(3.47295, 3.99347, -2.0, -1.69, true); break;
	case 19: atan2_d(3.99347, 4.59173, -2.0, -1.69, true); break;
	case 20: atan2_d(4.59173, 5.28125, -2.0, -1.69, true); break;
	case 21: atan2_d(5.28125, 6.07386, -2.0, -1.69, true); break;
	case 22: atan2_d(6.07386, 6.98477, -2.0, -1.69, true); break;
	case 23: atan2_d(6.98477, 9.778339999999998, -2.0, -1.69, true); break;
	case 24: atan2_d(9.778339999999998, 13.688999999999998, -2.0, -1.69, true); break;
	case 25: atan2_d(13.688999999999998, 19.1646, -2.0, -1.69, true); break;
	case 26: atan2_d(19.1646, 26.83044, -2.0, -1.69, true); break;
	case 27: atan2_d(26.83044, 37.56194, -2.0, -1.69, true); break;
	case 28: atan2_d(37.56194, 1690.0, -2.0, -1.69, true); break;
	case 29: atan2_d(1690.0, 1690000.0, -2.0, -1.69, true); break;
	case 30: atan2_d(1690000.0, 1690000000000.0, -2.0, -1.69, true); break;
	}
}
ENTRY(quick_atan2_d1_2_0)
{
	switch (vs_pick(31)) {
	case 0: atan2_d(-1e-06, -1e-12, -1.19, -1.0, false); break;
	case 1: atan2_d(-0.1, -1e-06, -1.19, -1.0, false); break;
	case 2: atan2_d(-0.14, -0.1, -1.19, -1.0, false); break;
	case 3: atan2_d(-0.196, -0.14, -1.19, -1.0, false); break;
	case 4: atan2_d(-0.274, -0.196, -1.19, -1.0, false); break;
	case 5: atan2_d(-0.384, -0.274, -1.19, -1.0, false); break;
	case 6: atan2_d(-0.442, -0.384, -1.19, -1.0, false); break;
	case 7: atan2_d(-0.508, -0.442, -1.19, -1.0, false); break;
	case 8: atan2_d(-0.584, -0.508, -1.19, -1.0, false); break;
	case 9: atan2_d(-0.672, -0.584, -1.19, -1.0, false); break;
	case 10: atan2_d(-0.773, -0.672, -1.19, -1.0, false); break;
	case 11: atan2_d(-0.889, -0.773, -1.19, -1.0, false); break;
	case 12: atan2_d(-1.022, -0.889, -1.19, -1.0, false); break;
	case 13: atan2_d(-1.175, -1.022, -1.19, -1.0, false); break;
	case 14: atan2_d(-1.351, -1.175, -1.19, -1.0, false); break;
	case 15: atan2_d(-1.554, -1.351, -1.19, -1.0, true); break;
	case 16: atan2_d(-1.787, -1.554, -1.19, -1.0, true); break;
	case 17: atan2_d(-2.055, -1.787, -1.19, -1.0, true); break;
	case 18: atan2_d(-2.363, -2.055, -1.19, -1.0, true); break;
	case 19: atan2_d(-2.717, -2.363, -1.19, -1.0, true); break;
	case 20: atan2_d(-3.125, -2.717, -1.19, -1.0, true); break;
	case 21: atan2_d(-3.594, -3.125, -1.19, -1.0, true); break;
	case 22: atan2_d(-4.133, -3.594, -1.19, -1.0, true); break;
	case 23: atan2_d(-5.786, -4.133, -1.19, -1.0, true); break;
	case 24: atan2_d(-8.1, -5.786, -1.19, -1.0, true); break;
	case 25: atan2_d(-11.34, -8.1, -1.19, -1.0, true); break;
	case 26: atan2_d(-15.876, -11.34, -1.19, -1.0, true); break;
	case 27: atan2_d(-22.226, -15.876, -1.19, -1.0, true); break;
	case 28: atan2_d(-1000.0, -22.226, -1.19, -1.0, true); break;
	case 29: atan2_d(-1000000.0, -1000.0, -1.19, -1.0, true); break;
	case 30: atan2_d(-1000000000000.0, -1000000.0, -1.19, -1.0, true); break;
	}
}
ENTRY(quick_atan2_d1_2_1)
{
	switch (vs_pick(31)) {
	case 0: atan2_d(-1.1899999999999998e-06, -1.19e-12, -1.42, -1.19, false); break;
	case 1: atan2_d(-0.119, -1.1899999999999998e-06, -1.42, -1.19, false); break;
	case 2: atan2_d(-0.1666, -0.119, -1.42, -1.19, false); break;
	case 3: atan2_d(-0.23324, -0.1666, -1.42, -1.19, false); break;
	case 4: atan2_d(-0.32606, -0.23324, -1.42, -1.19, false); break;
	case 5: atan2_d(-0.45696, -0.32606, -1.42, -1.19, false); break;
	case 6: atan2_d(-0.52598, -0.45696, -1.42, -1.19, false); break;
	case 7: atan2_d(-0.60452, -0.52598, -1.42, -1.19, false); break;
	case 8: atan2_d(-0.6949599999999999, -0.60452, -1.42, -1.19, false); break;
	case 9: atan2_d(-0.7996800000000001, -0.6949599999999999, -1.42, -1.19, false); break;
	case 10: atan2_d(-0.91987, -0.7996800000000001, -1.42, -1.19, false); break;
	case 11: atan2_d(-1.05791, -0.91987, -1.42, -1.19, false); break;
	case 12: atan2_d(-1.21618, -1.05791, -1.42, -1.19, false); break;
	case 13: atan2_d(-1.39825, -1.21618, -1.42, -1.19, false); break;
	case 14: atan2_d(-1.6076899999999998, -1.39825, -1.42, -1.19, false); break;
	case 15: atan2_d(-1.84926, -1.6076899999999998, -1.42, -1.19, true); break;
	case 16: atan2_d(-2.12653, -1.84926, -1.42, -1.19, true); break;
	case 17: atan2_d(-2.44545, -2.12653, -1.42, -1.19, true); break;
	case 18: atan2_d(-2.81197, -2.44545, -1.42, -1.19, true); break;
	case 19: atan2_d(-3.23323, -2.81197, -1.42, -1.19, true); break;
	case 20: atan2_d(-3.71875, -3.23323, -1.42, -1.19, true); break;
	case 21: atan2_d(-4.276859999999999, -3.71875, -1.42, -1.19, true); break;
	case 22: atan2_d(-4.91827, -4.276859999999999, -1.42, -1.19, true); break;
	case 23: atan2_d(-6.885339999999999, -4.91827, -1.42, -1.19, true); break;
	case 24: atan2_d(-9.639, -6.885339999999999, -1.42, -1.19, true); break;
	case 25: atan2_d(-13.494599999999998, -9.639, -1.42, -1.19, true); break;
	case 26: atan2_d(-18.892439999999997, -13.494599999999998, -1.42, -1.19, true); break;
	case 27: atan2_d(-26.448939999999997, -18.892439999999997, -1.42, -1.19, true); break;
	case 28: atan2_d(-1190.0, -26.448939999999997, -1.42, -1.19, true); break;
	case 29: atan2_d(-1190000.0, -1190.0, -1.42, -1.19, true); break;
	case 30: atan2_d(-1190000000000.0, -1190000.0, -1.42, -1.19, true); break;
	}
}
ENTRY(quick_atan2_d1_2_2)
{
	switch (vs_pick(31)) {
	case 0: atan2_d(-1.42e-06, -1.4199999999999998e-12, -1.69, -1.42, false); break;
	case 1: atan2_d(-0.142, -1.42e-06, -1.69, -1.42, false); break;
	case 2: atan2_d(-0.1988, -0.142, -1.69, -1.42, false); break;
	case 3: atan2_d(-0.27832, -0.1988, -1.69, -1.42, false); break;
	case 4: atan2_d(-0.38908000000000004, -0.27832, -1.69, -1.42, false); break;
	case 5: atan2_d(-0.54528, -0.38908000000000004, -1.69, -1.42, false); break;
	case 6: atan2_d(-0.62764, -0.54528, -1.69, -1.42, false); break;
	case 7: atan2_d(-0.72136, -0.62764, -1.69, -1.42, false); break;
	case 8: atan2_d(-0.8292799999999999, -0.72136, -1.69, -1.42, false); break;
	case 9: atan2_d(-0.95424, -0.8292799999999999, -1.69, -1.42, false); break;
	case 10: atan2_d(-1.09766, -0.95424, -1.69, -1.42, false); break;
	case 11: atan2_d(-1.26238, -1.09766, -1.69, -1.42, false); break;
	case 12: atan2_d(-1.4512399999999999, -1.26238, -1.69, -1.42, false); break;
	case 13: atan2_d(-1.6684999999999999, -1.4512399999999999, -1.69, -1.42, false); break;
	case 14: atan2_d(-1.9184199999999998, -1.6684999999999999, -1.69, -1.42, false); break;
	case 15: atan2_d(-2.20668, -1.9184199999999998, -1.69, -1.42, true); break;
	case 16: atan2_d(-2.53754, -2.20668, -1.69, -1.42, true); break;
	case 17: atan2_d(-2.9181, -2.53754, -1.69, -1.42, true); break;
	case 18: atan2_d(-3.35546, -2.9181, -1.69, -1.42, true); break;
	case 19: atan2_d(-3.85814, -3.35546, -1.69, -1.42, true); break;
	case 20: atan2_d(-4.4375, -3.85814, -1.69, -1.42, true); break;
	case 21: atan2_d(-5.103479999999999, -4.4375, -1.69, -1.42, true); break;
	case 22: atan2_d(-5.86886, -5.103479999999999, -1.69, -1.42, true); break;
	case 23: atan2_d(-8.216119999999998, -5.86886, -1.69, -1.42, true); break;
	case 24: atan2_d(-11.501999999999999, -8.216119999999998, -1.69, -1.42, true); break;
	case 25: atan2_d(-16.1028, -11.501999999999999, -1.69, -1.42, true); break;
	case 26: atan2_d(-22.543919999999996, -16.1028, -1.69, -1.42, true); break;
	case 27: atan2_d(-31.560919999999996, -22.543919999999996, -1.69, -1.42, true); break;
	case 28: atan2_d(-1420.0, -31.560919999999996, -1.69, -1.42, true); break;
	case 29: atan2_d(-1420000.0, -1420.0, -1.69, -1.42, true); break;
	case 30: atan2_d(-1420000000000.0, -1420000.0, -1.69, -1.42, true); break;
	}
}
ENTRY(quick_atan2_d1_2_3)
{
	switch (vs_pick(31)) {
	case 0: atan2_d(-1.69e-06, -1.6899999999999999e-12, -2.0, -1.69, false); break;
	case 1: atan2_d(-0.169, -1.69e-06, -2.0, -1.69, false); break;
	case 2: atan2_d(-0.2366, -0.169, -2.0, -1.69, false); break;
	case 3: atan2_d(-0.33124, -0.2366, -2.0, -1.69, false); break;
	case 4: atan2_d(-0.46306, -0.33124, -2.0, -1.69, false); break;
	case 5: atan2_d(-0.64896, -0.46306, -2.0, -1.69, false); break;
	case 6: atan2_d(-0.74698, -0.64896, -2.0, -1.69, false); break;
	case 7: atan2_d(-0.85852, -0.74698, -2.0, -1.69, false); break;
	case 8: atan2_d(-0.98696, -0.85852, -2.0, -1.69, false); break;
	case 9: atan2_d(-1.13568, -0.98696, -2.0, -1.69, false); break;
	case 10: atan2_d(-1.30637, -1.13568, -2.0, -1.69, false); break;
	case 11: atan2_d(-1.50241, -1.30637, -2.0, -1.69, false); break;
	case 12: atan2_d(-1.72718, -1.50241, -2.0, -1.69, false); break;
	case 13: atan2_d(-1.98575, -1.72718, -2.0, -1.69, false); break;
	case 14: atan2_d(-2.28319, -1.98575, -2.0, -1.69, false); break;
	case 15: atan2_d(-2.62626, -2.28319, -2.0, -1.69, true); break;
	case 16: atan2_d(-3.0200299999999998, -2.62626, -2.0, -1.69, true); break;
	case 17: atan2_d(-3.47295, -3.0200299999999998, -2.0, -1.69, true); break;
	case 18: atan2_d(-3.99347, -3.47295, -2.0, -1.69, true); break;
	case 19: atan2_d(-4.59173, -3.99347, -2.0, -1.69, true); break;
	case 20: atan2_d(-5.28125, -4.59173, -2.0, -1.69, true); break;
	case 21: atan2_d(-6.07386, -5.28125, -2.0, -1.69, true); break;
	case 22: atan2_d(-6.98477, -6.07386, -2.0, -1.69, true); break;
	case 23: atan2_d(-9.778339999999998, -6.98477, -2.0, -1.69, true); break;
	case 24: atan2_d(-13.688999999999998, -9.778339999999998, -2.0, -1.69, true); break;
	case 25: atan2_d(-19.1646, -13.688999999999998, -2.0, -1.69, true); break;
	case 26: atan2_d(-26.83044, -19.1646, -2.0, -1.69, true); break;
	case 27: atan2_d(-37.56194, -26.83044, -2.0, -1.69, true); break;
	case 28: atan2_d(-1690.0, -37.56194, -2.0, -1.69, true); break;
	case 29: atan2_d(-1690000.0, -1690.0, -2.0, -1.69, true); break;
	case 30: atan2_d(-1690000000000.0, -1690000.0, -2.0, -1.69, true); break;
	}
}
ENTRY(quick_atan2_d1_3_0)
{
	switch (vs_pick(31)) {
	case 0: atan2_d(-1e-06, -1e-12, 1.0, 1.19, false); break;
	case 1: atan2_d(-0.1, -1e-06, 1.0, 1.19, false); break;
	case 2: atan2_d(-0.14, -0.1, 1.0, 1.19, false); break;
	case 3: atan2_d(-0.196, -0.14, 1.0, 1.19, false); break;
	case 4: atan2_d(-0.274, -0.196, 1.0, 1.19, false); break;
	case 5: atan2_d(-0.384, -0.274, 1.0, 1.19, false); break;
	case 6: atan2_d(-0.442, -0.384, 1.0, 1.19, false); break;
	case 7: atan2_d(-0.508, -0.442, 1.0, 1.19, false); break;
	case 8: atan2_d(-0.584, -0.508, 1.0, 1.19, false); break;
	case 9: atan2_d(-0.672, -0.584, 1.0, 1.19, false); break;
	case 10: atan2_d(-0.773, -0.672, 1.0, 1.19, false); break;
	case 11: atan2_d(-0.889, -0.773, 1.0, 1.19, false); break;
	case 12: atan2_d(-1.022, -0.889, 1.0, 1.19, false); break;
	case 13: atan2_d(-1.175, -1.022, 1.0, 1.19, false); break;
	case 14: atan2_d(-1.351, -1.175, 1.0, 1.19, false); break;
	case 15: atan2_d(-1.554, -1.351, 1.0, 1.19, true); break;
	case 16: atan2_d(-1.787, -1.554, 1.0, 1.19, true); break;
	case 17: atan2_d(-2.055, -1.787, 1.0, 1.19, true); break;
	case 18: atan2_d(-2.363, -2.055, 1.0, 1.19, true); break;
	case 19: atan2_d(-2.717, -2.363, 1.0, 1.19, true); break;
	case 20: atan2_d(-3.125, -2.717, 1.0, 1.19, true); break;
	case 21: atan2_d(-3.594, -3.125, 1.0, 1.19, true); break;
	case 22: atan2_d(-4.133, -3.594, 1.0, 1.19, true); break;
	case 23: atan2_d(-5.786, -4.133, 1.0, 1.19, true); break;
	case 24: atan2_d(-8.1, -5.786, 1.0, 1.19, true); break;
	case 25: atan2_d(-11.34, -8.1, 1.0, 1.19, true); break;
	case 26: atan2_d(-15.876, -11.34, 1.0, 1.19, true); break;
	case 27: atan2_d(-22.226, -15.876, 1.0, 1.19, true); break;
	case 28: atan2_d(-1000.0, -22.226, 1.0, 1.19, true); break;
	case 29: atan2_d(-1000000.0, -1000.0, 1.0, 1.19, true); break;
	case 30: atan2_d(-1000000000000.0, -1000000.0, 1.0, 1.19, true); break;
	}
}
ENTRY(quick_atan2_d1_3_1)
{
	switch (vs_pick(31)) {
	case 0: atan2_d(-1.1899999999999998e-06, -1.19e-12, 1.19, 1.42, false); break;
	case 1: atan2_d(-0.119, -1.1899999999999998e-06, 1.19, 1.42, false); break;
	case 2: atan2_d(-0.1666, -0.119, 1.19, 1.42, false); break;
	case 3: atan2_d(-0.23324, -0.1666, 1.19, 1.42, false); break;
	case 4: atan2_d(-0.32606, -0.23324, 1.19, 1.42, false); break;
	case 5: atan2_d(-0.45696, -0.32606, 1.19, 1.42, false); break;
	case 6: atan2_d(-0.52598, -0.45696, 1.19, 1.42, false); break;
	case 7: atan2_d(-0.60452, -0.52598, 1.19, 1.42, false); break;
	case 8: atan2_d(-0.6949599999999999, -0.60452, 1.19, 1.42, false); break;
	case 9: atan2_d(-0.7996800000000001, -0.6949599999999999, 1.19, 1.42, false); break;
	case 10: atan2_d(-0.91987, -0.7996800000000001, 1.19, 1.42, false); break;
	case 11: atan2_d(-1.05791, -0.91987, 1.19, 1.42, false); break;
	case 12: atan2_d(-1.21618, -1.05791, 1.19, 1.42, false); break;
	case 13: atan2_d(-1.39825, -1.21618, 1.19, 1.42, false); break;
	case 14: atan2_d(-1.6076899999999998, -1.39825, 1.19, 1.42, false); break;
	case 15: atan2_d(-1.84926, -1.6076899999999998, 1.19, 1.42, true); break;
	case 16: atan2_d(-2.12653, -1.84926, 1.19, 1.42, true); break;
	case 17: atan2_d(-2.44545, -2.12653, 1.19, 1.42, true); break;
	case 18: atan2_d(-2.81197, -2.44545, 1.19, 1.42, true); break;
	case 19: atan2_d(-3.23323, -2.81197, 1.19, 1.42, true); break;
	case 20: atan2_d(-3.71875, -3.23323, 1.19, 1.42, true); break;
	case 21: atan2_d(-4.276859999999999, -3.71875, 1.19, 1.42, true); break;
	case 22: atan2_d(-4.91827, -4.276859999999999, 1.19, 1.42, true); break;
	case 23: atan2_d(-6.885339999999999, -4.91827, 1.19, 1.42, true); break;
	case 24: atan2_d(-9.639, -6.885339999999999, 1.19, 1.42, true); break;
	case 25: atan2_d(-13.494599999999998, -9.639, 1.19, 1.42, true); break;
	case 26: atan2_d(-18.892439999999997, -13.494599999999998, 1.19, 1.42, true); break;
	case 27: atan2_d(-26.448939999999997, -18.892439999999997, 1.19, 1.42, true); break;
	case 28: atan2_d(-1190.0, -26.448939999999997, 1.19, 1.42, true); break;
	case 29: atan2_d(-1190000.0, -1190.0, 1.19, 1.42, true); break;
	case 30: atan2_d(-1190000000000.0, -1190000.0, 1.19, 1.42, true); break;
	}
}
ENTRY(quick_atan2_d1_3_2)
{
	switch (vs_pick(31)) {
	case 0: atan2_d(-1.42e-06, -1.4199999999999998e-12, 1.42, 1.69, false); break;
	case 1: atan2_d(-0.142, -1.42e-06, 1.42, 1.69, false); break;
	case 2: atan2_d(-0.1988, -0.142, 1.42, 1.69, false); break;
	case 3: atan2_d(-0.27832, -0.1988, 1.42, 1.69, false); break;
	case 4: atan2_d(-0.38908000000000004, -0.27832, 1.42, 1.69, false); break;
	case 5: atan2_d(-0.54528, -0.38908000000000004, 1.42, 1.69, false); break;
	case 6: atan2_d(-0.62764, -0.54528, 1.42, 1.69, false); break;
	case 7: atan2_d(-0.72136, -0.62764, 1.42, 1.69, false); break;
	case 8: atan2_d(-0.8292799999999999, -0.72136, 1.42, 1.69, false); break;
	case 9: atan2_d(-0.95424, -0.8292799999999999, 1.42, 1.69, false); break;
	case 10: atan2_d(-1.09766, -0.95424, 1.42, 1.69, false); break;
	case 11: atan2_d(-1.26238, -1.09766, 1.42, 1.69, false); break;
	case 12: atan2_d(-1.4512399999999999, -1.26238, 1.42, 1.69, false); break;
	case 13: atan2_d(-1.6684999999999999, -1.4512399999999999, 1.42, 1.69, false); break;
	case 14: atan2_d(-1.9184199999999998, -1.6684999999999999, 1.42, 1.69, false); break;
	case 15: atan2_d(-2.20668, -1.9184199999999998, 1.42, 1.69, true); break;
	case 16: atan2_d(-2.53754, -2.20668, 1.42, 1.69, true); break;
	case 17: atan2_d(-2.9181, -2.53754, 1.42, 1.69, true); break;
	case 18: atan2_d(-3.35546, -2.9181, 1.42, 1.69, true); break;
	case 19: atan2_d(-3.85814, -3.35546, 1.42, 1.69, true); break;
	case 20: atan2_d(-4.4375, -3.85814, 1.42, 1.69, true); break;
	case 21: atan2_d(-5.103479999999999, -4.4375, 1.42, 1.69, true); break;
	case 22: atan2_d(-5.86886, -5.103479999999999, 1.42, 1.69, true); break;
	case 23: atan2_d(-8.216119999999998, -5.86886, 1.42, 1.69, true); break;
	case 24: atan2_d(-11.501999999999999, -8.216119999999998, 1.42, 1.69, true); break;
	case 25: atan2_d(-16.1028, -11.501999999999999, 1.42, 1.69, true); break;
	case 26: atan2_d(-22.543919999999996, -16.1028, 1.42, 1.69, true); break;
	case 27: atan2_d(-31.560919999999996, -22.543919999999996, 1.42, 1.69, true); break;
	case 28: atan2_d(-1420.0, -31.560919999999996, 1.42, 1.69, true); break;
	case 29: atan2_d(-1420000.0, -1420.0, 1.42, 1.69, true); break;
	case 30: atan2_d(-1420000000000.0, -1420000.0, 1.42, 1.69, true); break;
	}
}
ENTRY(quick_atan2_d1_3_3)
{
	switch (vs_pick(31)) {
	case 0: atan2_d(-1.69e-06, -1.6899999999999999e-12, 1.69, 2.0, false); break;
	case 1: atan2_d(-0.169, -1.69e-06, 1.69, 2.0, false); break;
	case 2: atan2_d(-0.2366, -0.169, 1.69, 2.0, false); break;
	case 3: atan2_d(-0.33124, -0.2366, 1.69, 2.0, false); break;
	case 4: atan2_d(-0.46306, -0.33124, 1.69, 2.0, false); break;
	case 5: atan2_d(-0.64896, -0.46306, 1.69, 2.0, false); break;
	case 6: atan2_d(-0.74698, -0.64896, 1.69, 2.0, false); break;
	case 7: atan2_d(-0.85852, -0.74698, 1.69, 2.0, false); break;
	case 8: atan2_d(-0.98696, -0.85852, 1.69, 2.0, false); break;
	case 9: atan2_d(-1.13568, -0.98696, 1.69, 2.0, false); break;
	case 10: atan2_d(-1.30637, -1.13568, 1.69, 2.0, false); break;
	case 11: atan2_d(-1.50241, -1.30637, 1.69, 2.0, false); break;
	case 12: atan2_d(-1.72718, -1.50241, 1.69, 2.0, false); break;
	case 13: atan2_d(-1.98575, -1.72718, 1.69, 2.0, false); break;
	case 14: atan2_d(-2.28319, -1.98575, 1.69, 2.0, false); break;
	case 15: atan2_d(-2.62626, -2.28319, 1.69, 2.0, true); break;
	case 16: atan2_d(-3.0200299999999998, -2.62626, 1.69, 2.0, true); break;
	case 17: atan2_d(-3.47295, -3.0200299999999998, 1.69, 2.0, true); break;
	case 18: atan2_d(-3.99347, -3.47295, 1.69, 2.0, true); break;
	case 19: atan2_d(-4.59173, -3.99347, 1.69, 2.0, true); break;
	case 20: atan2_d(-5.28125, -4.59173, 1.69, 2.0, true); break;
	case 21: atan2_d(-6.07386, -5.28125, 1.69, 2.0, true); break;
	case 22: atan2_d(-6.98477, -6.07386, 1.69, 2.0, true); break;
	case 23: atan2_d(-9.778339999999998, -6.98477, 1.69, 2.0, true); break;
	case 24: atan2_d(-13.688999999999998, -9.778339999999998, 1.69, 2.0, true); break;
	case 25: atan2_d(-19.1646, -13.688999999999998, 1.69, 2.0, true); break;
	case 26: atan2_d(-26.83044, -19.1646, 1.69, 2.0, true); break;
	case 27: atan2_d(-37.56194, -26.83044, 1.69, 2.0, true); break;
	case 28: atan2_d(-1690.0, -37.56194, 1.69, 2.0, true); break;
	case 29: atan2_d(-1690000.0, -1690.0, 1.69, 2.0, true); break;
	case 30: atan2_d(-1690000000000.0, -1690000.0, 1.69, 2.0, true); break;
	}
}
ENTRY(quick_atan2_d2_0_1)
{
	switch (vs_pick(31)) {
	case 0: atan2_d(1.24780544e-06, 1.2478054399999998, 1247805.44, 1488977.92, false); break;
	case 1: atan2_d(1.2478054399999998, 124780.544, 1247805.44, 1488977.92, false); break;
	case 2: atan2_d(124780.544, 174692.7616, 1247805.44, 1488977.92, false); break;
	case 3: atan2_d(174692.7616, 244569.86624, 1247805.44, 1488977.92, false); break;
	case 4: atan2_d(244569.86624, 341898.69056, 1247805.44, 1488977.92, false); break;
	case 5: atan2_d(341898.69056, 479157.28896, 1247805.44, 1488977.92, false); break;
	case 6: atan2_d(479157.28896, 551530.00448, 1247805.44, 1488977.92, false); break;
	case 7: atan2_d(551530.00448, 633885.16352, 1247805.44, 1488977.92, false); break;
	case 8: atan2_d(633885.16352, 728718.3769599999, 1247805.44, 1488977.92, false); break;
	case 9: atan2_d(728718.3769599999, 838525.2556800001, 1247805.44, 1488977.92, false); break;
	case 10: atan2_d(838525.2556800001, 964553.60512, 1247805.44, 1488977.92, false); break;
	case 11: atan2_d(964553.60512, 1109299.03616, 1247805.44, 1488977.92, false); break;
	case 12: atan2_d(1109299.03616, 1275257.15968, 1247805.44, 1488977.92, false); break;
	case 13: atan2_d(1275257.15968, 1466171.392, 1247805.44, 1488977.92, false); break;
	case 14: atan2_d(1466171.392, 1685785.1494399998, 1247805.44, 1488977.92, false); break;
	case 15: atan2_d(1685785.1494399998, 1939089.65376, 1247805.44, 1488977.92, true); break;
	case 16: atan2_d(1939089.65376, 2229828.32128, 1247805.44, 1488977.92, true); break;
	case 17: atan2_d(2229828.32128, 2564240.1792, 1247805.44, 1488977.92, true); break;
	case 18: atan2_d(2564240.1792, 2948564.25472, 1247805.44, 1488977.92, true); break;
	case 19: atan2_d(2948564.25472, 3390287.38048, 1247805.44, 1488977.92, true); break;
	case 20: atan2_d(3390287.38048, 3899392.0, 1247805.44, 1488977.92, true); break;
	case 21: atan2_d(3899392.0, 4484612.751359999, 1247805.44, 1488977.92, true); break;
	case 22: atan2_d(4484612.751359999, 5157179.88352, 1247805.44, 1488977.92, true); break;
	case 23: atan2_d(5157179.88352, 7219802.275839999, 1247805.44, 1488977.92, true); break;
	case 24: atan2_d(7219802.275839999, 10107224.064, 1247805.44, 1488977.92, true); break;
	case 25: atan2_d(10107224.064, 14150113.689599998, 1247805.44, 1488977.92, true); break;
	case 26: atan2_d(14150113.689599998, 19810159.165439997, 1247805.44, 1488977.92, true); break;
	case 27: atan2_d(19810159.165439997, 27733723.709439997, 1247805.44, 1488977.92, true); break;
	case 28: atan2_d(27733723.709439997, 1247805440.0, 1247805.44, 1488977.92, true); break;
	case 29: atan2_d(1247805440.0, 1247805440000.0, 1247805.44, 1488977.92, true); break;
	case 30: atan2_d(1247805440000.0, 1.24780544e+18, 1247805.44, 1488977.92, true); break;
	}
}
ENTRY(quick_atan2_d2_1_2)
{
	switch (vs_pick(31)) {
	case 0: atan2_d(1.4889779199999998e-06, 1.48897792, -1772093.44, -1488977.92, false); break;
	case 1: atan2_d(1.48897792, 148897.792, -1772093.44, -1488977.92, false); break;
	case 2: atan2_d(148897.792, 208456.9088, -1772093.44, -1488977.92, false); break;
	case 3: atan2_d(208456.9088, 291839.67232, -1772093.44, -1488977.92, false); break;
	case 4: atan2_d(291839.67232, 407979.95008000004, -1772093.44, -1488977.92, false); break;
	case 5: atan2_d(407979.95008000004, 571767.52128, -1772093.44, -1488977.92, false); break;
	case 6: atan2_d(571767.52128, 658128.24064, -1772093.44, -1488977.92, false); break;
	case 7: atan2_d(658128.24064, 756400.78336, -1772093.44, -1488977.92, false); break;
	case 8: atan2_d(756400.78336, 869563.1052799999, -1772093.44, -1488977.92, false); break;
	case 9: atan2_d(869563.1052799999, 1000593.16224, -1772093.44, -1488977.92, false); break;
	case 10: atan2_d(1000593.16224, 1150979.93216, -1772093.44, -1488977.92, false); break;
	case 11: atan2_d(1150979.93216, 1323701.37088, -1772093.44, -1488977.92, false); break;
	case 12: atan2_d(1323701.37088, 1521735.4342399999, -1772093.44, -1488977.92, false); break;
	case 13: atan2_d(1521735.4342399999, 1749549.0559999999, -1772093.44, -1488977.92, false); break;
	case 14: atan2_d(1749549.0559999999, 2011609.1699199998, -1772093.44, -1488977.92, false); break;
	case 15: atan2_d(2011609.1699199998, 2313871.68768, -1772093.44, -1488977.92, true); break;
	case 16: atan2_d(2313871.68768, 2660803.54304, -1772093.44, -1488977.92, true); break;
	case 17: atan2_d(2660803.54304, 3059849.6256, -1772093.44, -1488977.92, true); break;
	case 18: atan2_d(3059849.6256, 3518454.82496, -1772093.44, -1488977.92, true); break;
	case 19: atan2_d(3518454.82496, 4045553.00864, -1772093.44, -1488977.92, true); break;
	case 20: atan2_d(4045553.00864, 4653056.0, -1772093.44, -1488977.92, true); break;
	case 21: atan2_d(4653056.0, 5351386.644479999, -1772093.44, -1488977.92, true); break;
	case 22: atan2_d(5351386.644479999, 6153945.74336, -1772093.44, -1488977.92, true); break;
	case 23: atan2_d(6153945.74336, 8615226.245119998, -1772093.44, -1488977.92, true); break;
	case 24: atan2_d(8615226.245119998, 12060721.151999999, -1772093.44, -1488977.92, true); break;
	case 25: atan2_d(12060721.151999999, 16885009.6128, -1772093.44, -1488977.92, true); break;
	case 26: atan2_d(16885009.6128, 23639013.457919996, -1772093.44, -1488977.92, true); break;
	case 27: atan2_d(23639013.457919996, 33094023.249919996, -1772093.44, -1488977.92, true); break;
	case 28: atan2_d(33094023.249919996, 1488977920.0, -1772093.44, -1488977.92, true); break;
	case 29: atan2_d(1488977920.0, 1488977920000.0, -1772093.44, -1488977.92, true); break;
	case 30: atan2_d(1488977920000.0, 1.48897792e+18, -1772093.44, -1488977.92, true); break;
	}
}
ENTRY(quick_atan2_d2_2_3)
{
	switch (vs_pick(31)) {
	case 0: atan2_d(-1.77209344, -1.7720934399999999e-06, -2097152.0, -1772093.44, false); break;
	case 1: atan2_d(-177209.344, -1.77209344, -2097152.0, -1772093.44, false); break;
	case 2: atan2_d(-248093.0816, -177209.344, -2097152.0, -1772093.44, false); break;
	case 3: atan2_d(-347330.31424, -248093.0816, -2097152.0, -1772093.44, false); break;
	case 4: atan2_d(-485553.60256, -347330.31424, -2097152.0, -1772093.44, false); break;
	case 5: atan2_d(-680483.88096, -485553.60256, -2097152.0, -1772093.44, false); break;
	case 6: atan2_d(-783265.30048, -680483.88096, -2097152.0, -1772093.44, false); break;
	case 7: atan2_d(-900223.46752, -783265.30048, -2097152.0, -1772093.44, false); break;
	case 8: atan2_d(-1034902.56896, -900223.46752, -2097152.0, -1772093.44, false); break;
	case 9: atan2_d(-1190846.79168, -1034902.56896, -2097152.0, -1772093.44, false); break;
	case 10: atan2_d(-1369828.22912, -1190846.79168, -2097152.0, -1772093.44, false); break;
	case 11: atan2_d(-1575391.06816, -1369828.22912, -2097152.0, -1772093.44, false); break;
	case 12: atan2_d(-1811079.49568, -1575391.06816, -2097152.0, -1772093.44, false); break;
	case 13: atan2_d(-2082209.792, -1811079.49568, -2097152.0, -1772093.44, false); break;
	case 14: atan2_d(-2394098.23744, -2082209.792, -2097152.0, -1772093.44, false); break;
	case 15: atan2_d(-2753833.20576, -2394098.23744, -2097152.0, -1772093.44, true); break;
	case 16: atan2_d(-3166730.9772799998, -2753833.20576, -2097152.0, -1772093.44, true); break;
	case 17: atan2_d(-3641652.0192, -3166730.9772799998, -2097152.0, -1772093.44, true); break;
	case 18: atan2_d(-4187456.79872, -3641652.0192, -2097152.0, -1772093.44, true); break;
	case 19: atan2_d(-4814777.87648, -4187456.79872, -2097152.0, -1772093.44, true); break;
	case 20: atan2_d(-5537792.0, -4814777.87648, -2097152.0, -1772093.44, true); break;
	case 21: atan2_d(-6368903.82336, -5537792.0, -2097152.0, -1772093.44, true); break;
	case 22: atan2_d(-7324062.18752, -6368903.82336, -2097152.0, -1772093.44, true); break;
	case 23: atan2_d(-10253332.643839998, -7324062.18752, -2097152.0, -1772093.44, true); break;
	case 24: atan2_d(-14353956.863999998, -10253332.643839998, -2097152.0, -1772093.44, true); break;
	case 25: atan2_d(-20095539.6096, -14353956.863999998, -2097152.0, -1772093.44, true); break;
	case 26: atan2_d(-28133755.45344, -20095539.6096, -2097152.0, -1772093.44, true); break;
	case 27: atan2_d(-39386548.79744, -28133755.45344, -2097152.0, -1772093.44, true); break;
	case 28: atan2_d(-1772093440.0, -39386548.79744, -2097152.0, -1772093.44, true); break;
	case 29: atan2_d(-1772093440000.0, -1772093440.0, -2097152.0, -1772093.44, true); break;
	case 30: atan2_d(-1.77209344e+18, -1772093440000.0, -2097152.0, -1772093.44, true); break;
	}
}
ENTRY(quick_atan2_d2_3_0)
{
	switch (vs_pick(31)) {
	case 0: atan2_d(-1.048576, -1.048576e-06, 1048576.0, 1247805.44, false); break;
	case 1: atan2_d(-104857.6, -1.048576, 1048576.0, 1247805.44, false); break;
	case 2: atan2_d(-146800.64, -104857.6, 1048576.0, 1247805.44, false); break;
	case 3: atan2_d(-205520.896, -146800.64, 1048576.0, 1247805.44, false); break;
	case 4: atan2_d(-287309.824, -205520.896, 1048576.0, 1247805.44, false); break;
	case 5: atan2_d(-402653.184, -287309.824, 1048576.0, 1247805.44, false); break;
	case 6: atan2_d(-463470.592, -402653.184, 1048576.0, 1247805.44, false); break;
	case 7: atan2_d(-532676.608, -463470.592, 1048576.0, 1247805.44, false); break;
	case 8: atan2_d(-612368.384, -532676.608, 1048576.0, 1247805.44, false); break;
	case 9: atan2_d(-704643.072, -612368.384, 1048576.0, 1247805.44, false); break;
	case 10: atan2_d(-810549.248, -704643.072, 1048576.0, 1247805.44, false); break;
	case 11: atan2_d(-932184.064, -810549.248, 1048576.0, 1247805.44, false); break;
	case 12: atan2_d(-1071644.672, -932184.064, 1048576.0, 1247805.44, false); break;
	case 13: atan2_d(-1232076.8, -1071644.672, 1048576.0, 1247805.44, false); break;
	case 14: atan2_d(-1416626.176, -1232076.8, 1048576.0, 1247805.44, false); break;
	case 15: atan2_d(-1629487.104, -1416626.176, 1048576.0, 1247805.44, true); break;
	case 16: atan2_d(-1873805.312, -1629487.104, 1048576.0, 1247805.44, true); break;
	case 17: atan2_d(-2154823.68, -1873805.312, 1048576.0, 1247805.44, true); break;
	case 18: atan2_d(-2477785.088, -2154823.68, 1048576.0, 1247805.44, true); break;
	case 19: atan2_d(-2848980.992, -2477785.088, 1048576.0, 1247805.44, true); break;
	case 20: atan2_d(-3276800.0, -2848980.992, 1048576.0, 1247805.44, true); break;
	case 21: atan2_d(-3768582.144, -3276800.0, 1048576.0, 1247805.44, true); break;
	case 22: atan2_d(-4333764.608, -3768582.144, 1048576.0, 1247805.44, true); break;
	case 23: atan2_d(-6067060.736, -4333764.608, 1048576.0, 1247805.44, true); break;
	case 24: atan2_d(-8493465.6, -6067060.736, 1048576.0, 1247805.44, true); break;
	case 25: atan2_d(-11890851.84, -8493465.6, 1048576.0, 1247805.44, true); break;
	case 26: atan2_d(-16647192.576, -11890851.84, 1048576.0, 1247805.44, true); break;
	case 27: atan2_d(-23305650.176, -16647192.576, 1048576.0, 1247805.44, true); break;
	case 28: atan2_d(-1048576000.0, -23305650.176, 1048576.0, 1247805.44, true); break;
	case 29: atan2_d(-1048576000000.0, -1048576000.0, 1048576.0, 1247805.44, true); break;
	case 30: atan2_d(-1.048576e+18, -1048576000000.0, 1048576.0, 1247805.44, true); break;
	}
}
ENTRY(quick_atan2_f0_0_0)
{
	switch (vs_pick(31)) {
	case 0: atan2_f(9.5367431640625e-19f, 9.5367431640625e-13f, 9.5367431640625e-07f, 1.1348724365234374e-06f, false); break;
	case 1: atan2_f(9.5367431640625e-13f, 9.5367431640625e-08f, 9.5367431640625e-07f, 1.1348724365234374e-06f, false); break;
	case 2: atan2_f(9.5367431640625e-08f, 1.33514404296875e-07f, 9.5367431640625e-07f, 1.1348724365234374e-06f, false); break;
	case 3: atan2_f(1.33514404296875e-07f, 1.86920166015625e-07f, 9.5367431640625e-07f, 1.1348724365234374e-06f, false); break;
	case 4: atan2_f(1.86920166015625e-07f, 2.613067626953125e-07f, 9.5367431640625e-07f, 1.1348724365234374e-06f, false); break;
	case 5: atan2_f(2.613067626953125e-07f, 3.662109375e-07f, 9.5367431640625e-07f, 1.1348724365234374e-06f, false); break;
	case 6: atan2_f(3.662109375e-07f, 4.215240478515625e-07f, 9.5367431640625e-07f, 1.1348724365234374e-06f, false); break;
	case 7: atan2_f(4.215240478515625e-07f, 4.84466552734375e-07f, 9.5367431640625e-07f, 1.1348724365234374e-06f, false); break;
	case 8: atan2_f(4.84466552734375e-07f, 5.5694580078125e-07f, 9.5367431640625e-07f, 1.1348724365234374e-06f, false); break;
	case 9: atan2_f(5.5694580078125e-07f, 6.40869140625e-07f, 9.5367431640625e-07f, 1.1348724365234374e-06f, false); break;
	case 10: atan2_f(6.40869140625e-07f, 7.371902465820313e-07f, 9.5367431640625e-07f, 1.1348724365234374e-06f, false); break;
	case 11: atan2_f(7.371902465820313e-07f, 8.478164672851563e-07f, 9.5367431640625e-07f, 1.1348724365234374e-06f, false); break;
	case 12: atan2_f(8.478164672851563e-07f, 9.746551513671875e-07f, 9.5367431640625e-07f, 1.1348724365234374e-06f, false); break;
	case 13: atan2_f(9.746551513671875e-07f, 1.1205673217773438e-06f, 9.5367431640625e-07f, 1.1348724365234374e-06f, false); break;
	case 14: atan2_f(1.1205673217773438e-06f, 1.2884140014648437e-06f, 9.5367431640625e-07f, 1.1348724365234374e-06f, false); break;
	case 15: atan2_f(1.2884140014648437e-06f, 1.4820098876953125e-06f, 9.5367431640625e-07f, 1.1348724365234374e-06f, true); break;
	case 16: atan2_f(1.4820098876953125e-06f, 1.7042160034179687e-06f, 9.5367431640625e-07f, 1.1348724365234374e-06f, true); break;
	case 17: atan2_f(1.7042160034179687e-06f, 1.959800720214844e-06f, 9.5367431640625e-07f, 1.1348724365234374e-06f, true); break;
	case 18: atan2_f(1.959800720214844e-06f, 2.2535324096679687e-06f, 9.5367431640625e-07f, 1.1348724365234374e-06f, true); break;
	case 19: atan2_f(2.2535324096679687e-06f, 2.5911331176757813e-06f, 9.5367431640625e-07f, 1.1348724365234374e-06f, true); break;
	case 20: atan2_f(2.5911331176757813e-06f, 2.9802322387695312e-06f, 9.5367431640625e-07f, 1.1348724365234374e-06f, true); break;
	case 21: atan2_f(2.9802322387695312e-06f, 3.4275054931640624e-06f, 9.5367431640625e-07f, 1.1348724365234374e-06f, true); break;
	case 22: atan2_f(3.4275054931640624e-06f, 3.941535949707031e-06f, 9.5367431640625e-07f, 1.1348724365234374e-06f, true); break;
	case 23: atan2_f(3.941535949707031e-06f, 5.517959594726562e-06f, 9.5367431640625e-07f, 1.1348724365234374e-06f, true); break;
	case 24: atan2_f(5.517959594726562e-06f, 7.724761962890625e-06f, 9.5367431640625e-07f, 1.1348724365234374e-06f, true); break;
	case 25: atan2_f(7.724761962890625e-06f, 1.0814666748046875e-05f, 9.5367431640625e-07f, 1.1348724365234374e-06f, true); break;
	case 26: atan2_f(1.0814666748046875e-05f, 1.5140533447265624e-05f, 9.5367431640625e-07f, 1.1348724365234374e-06f, true); break;
	case 27: atan2_f(1.5140533447265624e-05f, 2.119636535644531e-05f, 9.5367431640625e-07f, 1.1348724365234374e-06f, true); break;
	case 28: atan2_f(2.119636535644531e-05f, 0.00095367431640625f, 9.5367431640625e-07f, 1.1348724365234374e-06f, true); break;
	case 29: atan2_f(0.00095367431640625f, 0.95367431640625f, 9.5367431640625e-07f, 1.1348724365234374e-06f, true); break;
	case 30: atan2_f(0.95367431640625f, 953674.31640625f, 9.5367431640625e-07f, 1.1348724365234374e-06f, true); break;
	}
}
ENTRY(quick_atan2_f0_1_1)
{
	switch (vs_pick(31)) {
	case 0: atan2_f(1.1348724365234375e-18f, 1.1348724365234373e-12f, -1.354217529296875e-06f, -1.1348724365234374e-06f, false); break;
	case 1: atan2_f(1.1348724365234373e-12f, 1.1348724365234374e-07f, -1.354217529296875e-06f, -1.1348724365234374e-06f, false); break;
	case 2: atan2_f(1.1348724365234374e-07f, 1.5888214111328125e-07f, -1.354217529296875e-06f, -1.1348724365234374e-06f, false); break;
	case 3: atan2_f(1.5888214111328125e-07f, 2.2243499755859375e-07f, -1.354217529296875e-06f, -1.1348724365234374e-06f, false); break;
	case 4: atan2_f(2.2243499755859375e-07f, 3.109550476074219e-07f, -1.354217529296875e-06f, -1.1348724365234374e-06f, false); break;
	case 5: atan2_f(3.109550476074219e-07f, 4.35791015625e-07f, -1.354217529296875e-06f, -1.1348724365234374e-06f, false); break;
	case 6: atan2_f(4.35791015625e-07f, 5.016136169433594e-07f, -1.354217529296875e-06f, -1.1348724365234374e-06f, false); break;
	case 7: atan2_f(5.016136169433594e-07f, 5.765151977539062e-07f, -1.354217529296875e-06f, -1.1348724365234374e-06f, false); break;
	case 8: atan2_f(5.765151977539062e-07f, 6.627655029296874e-07f, -1.354217529296875e-06f, -1.1348724365234374e-06f, false); break;
	case 9: atan2_f(6.627655029296874e-07f, 7.626342773437501e-07f, -1.354217529296875e-06f, -1.1348724365234374e-06f, false); break;
	case 10: atan2_f(7.626342773437501e-07f, 8.772563934326172e-07f, -1.354217529296875e-06f, -1.1348724365234374e-06f, false); break;
	case 11: atan2_f(8.772563934326172e-07f, 1.0089015960693358e-06f, -1.354217529296875e-06f, -1.1348724365234374e-06f, false); break;
	case 12: atan2_f(1.0089015960693358e-06f, 1.1598396301269532e-06f, -1.354217529296875e-06f, -1.1348724365234374e-06f, false); break;
	case 13: atan2_f(1.1598396301269532e-06f, 1.333475112915039e-06f, -1.354217529296875e-06f, -1.1348724365234374e-06f, false); break;
	case 14: atan2_f(1.333475112915039e-06f, 1.533212661743164e-06f, -1.354217529296875e-06f, -1.1348724365234374e-06f, false); break;
	case 15: atan2_f(1.533212661743164e-06f, 1.7635917663574218e-06f, -1.354217529296875e-06f, -1.1348724365234374e-06f, true); break;
	case 16: atan2_f(1.7635917663574218e-06f, 2.0280170440673826e-06f, -1.354217529296875e-06f, -1.1348724365234374e-06f, true); break;
	case 17: atan2_f(2.0280170440673826e-06f, 2.332162857055664e-06f, -1.354217529296875e-06f, -1.1348724365234374e-06f, true); break;
	case 18: atan2_f(2.332162857055664e-06f, 2.681703567504883e-06f, -1.354217529296875e-06f, -1.1348724365234374e-06f, true); break;
	case 19: atan2_f(2.681703567504883e-06f, 3.0834484100341795e-06f, -1.354217529296875e-06f, -1.1348724365234374e-06f, true); break;
	case 20: atan2_f(3.0834484100341795e-06f, 3.546476364135742e-06f, -1.354217529296875e-06f, -1.1348724365234374e-06f, true); break;
	case 21: atan2_f(3.546476364135742e-06f, 4.078731536865234e-06f, -1.354217529296875e-06f, -1.1348724365234374e-06f, true); break;
	case 22: atan2_f(4.078731536865234e-06f, 4.690427780151367e-06f, -1.354217529296875e-06f, -1.1348724365234374e-06f, true); break;
	case 23: atan2_f(4.690427780151367e-06f, 6.566371917724609e-06f, -1.354217529296875e-06f, -1.1348724365234374e-06f, true); break;
	case 24: atan2_f(6.566371917724609e-06f, 9.192466735839843e-06f, -1.354217529296875e-06f, -1.1348724365234374e-06f, true); break;
	case 25: atan2_f(9.192466735839843e-06f, 1.286945343017578e-05f, -1.354217529296875e-06f, -1.1348724365234374e-06f, true); break;
	case 26: atan2_f(1.286945343017578e-05f, 1.801723480224609e-05f, -1.354217529296875e-06f, -1.1348724365234374e-06f, true); break;
	case 27: atan2_f(1.801723480224609e-05f, 2.522367477416992e-05f, -1.354217529296875e-06f, -1.1348724365234374e-06f, true); break;
	case 28: atan2_f(2.522367477416992e-05f, 0.0011348724365234375f, -1.354217529296875e-06f, -1.1348724365234374e-06f, true); break;
	case 29: atan2_f(0.0011348724365234375f, 1.1348724365234375f, -1.354217529296875e-06f, -1.1348724365234374e-06f, true); break;
	case 30: atan2_f(1.1348724365234375f, 1134872.4365234375f, -1.354217529296875e-06f, -1.1348724365234374e-06f, true); break;
	}
}
ENTRY(quick_atan2_f0_2_2)
{
	switch (vs_pick(31)) {
	case 0: atan2_f(-1.354217529296875e-12f, -1.3542175292968748e-18f, -1.6117095947265624e-06f, -1.354217529296875e-06f, false); break;
	case 1: atan2_f(-1.354217529296875e-07f, -1.354217529296875e-12f, -1.6117095947265624e-06f, -1.354217529296875e-06f, false); break;
	case 2: atan2_f(-1.895904541015625e-07f, -1.354217529296875e-07f, -1.6117095947265624e-06f, -1.354217529296875e-06f, false); break;
	case 3: atan2_f(-2.654266357421875e-07f, -1.895904541015625e-07f, -1.6117095947265624e-06f, -1.354217529296875e-06f, false); break;
	case 4: atan2_f(-3.710556030273438e-07f, -2.654266357421875e-07f, -1.6117095947265624e-06f, -1.354217529296875e-06f, false); break;
	case 5: atan2_f(-5.2001953125e-07f, -3.710556030273438e-07f, -1.6117095947265624e-06f, -1.354217529296875e-06f, false); break;
	case 6: atan2_f(-5.985641479492187e-07f, -5.2001953125e-07f, -1.6117095947265624e-06f, -1.354217529296875e-06f, false); break;
	case 7: atan2_f(-6.879425048828125e-07f, -5.985641479492187e-07f, -1.6117095947265624e-06f, -1.354217529296875e-06f, false); break;
	case 8: atan2_f(-7.908630371093749e-07f, -6.879425048828125e-07f, -1.6117095947265624e-06f, -1.354217529296875e-06f, false); break;
	case 9: atan2_f(-9.100341796875e-07f, -7.908630371093749e-07f, -1.6117095947265624e-06f, -1.354217529296875e-06f, false); break;
	case 10: atan2_f(-1.0468101501464845e-06f, -9.100341796875e-07f, -1.6117095947265624e-06f, -1.354217529296875e-06f, false); break;
	case 11: atan2_f(-1.203899383544922e-06f, -1.0468101501464845e-06f, -1.6117095947265624e-06f, -1.354217529296875e-06f, false); break;
	case 12: atan2_f(-1.3840103149414061e-06f, -1.203899383544922e-06f, -1.6117095947265624e-06f, -1.354217529296875e-06f, false); break;
	case 13: atan2_f(-1.591205596923828e-06f, -1.3840103149414061e-06f, -1.6117095947265624e-06f, -1.354217529296875e-06f, false); break;
	case 14: atan2_f(-1.829547882080078e-06f, -1.591205596923828e-06f, -1.6117095947265624e-06f, -1.354217529296875e-06f, false); break;
	case 15: atan2_f(-2.1044540405273437e-06f, -1.829547882080078e-06f, -1.6117095947265624e-06f, -1.354217529296875e-06f, true); break;
	case 16: atan2_f(-2.4199867248535155e-06f, -2.1044540405273437e-06f, -1.6117095947265624e-06f, -1.354217529296875e-06f, true); break;
	case 17: atan2_f(-2.782917022705078e-06f, -2.4199867248535155e-06f, -1.6117095947265624e-06f, -1.354217529296875e-06f, true); break;
	case 18: atan2_f(-3.2000160217285155e-06f, -2.782917022705078e-06f, -1.6117095947265624e-06f, -1.354217529296875e-06f, true); break;
	case 19: atan2_f(-3.6794090270996095e-06f, -3.2000160217285155e-06f, -1.6117095947265624e-06f, -1.354217529296875e-06f, true); break;
	case 20: atan2_f(-4.231929779052734e-06f, -3.6794090270996095e-06f, -1.6117095947265624e-06f, -1.354217529296875e-06f, true); break;
	case 21: atan2_f(-4.867057800292968e-06f, -4.231929779052734e-06f, -1.6117095947265624e-06f, -1.354217529296875e-06f, true); break;
	case 22: atan2_f(-5.596981048583984e-06f, -4.867057800292968e-06f, -1.6117095947265624e-06f, -1.354217529296875e-06f, true); break;
	case 23: atan2_f(-7.835502624511717e-06f, -5.596981048583984e-06f, -1.6117095947265624e-06f, -1.354217529296875e-06f, true); break;
	case 24: atan2_f(-1.0969161987304686e-05f, -7.835502624511717e-06f, -1.6117095947265624e-06f, -1.354217529296875e-06f, true); break;
	case 25: atan2_f(-1.535682678222656e-05f, -1.0969161987304686e-05f, -1.6117095947265624e-06f, -1.354217529296875e-06f, true); break;
	case 26: atan2_f(-2.1499557495117184e-05f, -1.535682678222656e-05f, -1.6117095947265624e-06f, -1.354217529296875e-06f, true); break;
	case 27: atan2_f(-3.009883880615234e-05f, -2.1499557495117184e-05f, -1.6117095947265624e-06f, -1.354217529296875e-06f, true); break;
	case 28: atan2_f(-0.001354217529296875f, -3.009883880615234e-05f, -1.6117095947265624e-06f, -1.354217529296875e-06f, true); break;
	case 29: atan2_f(-1.354217529296875f, -0.001354217529296875f, -1.6117095947265624e-06f, -1.354217529296875e-06f, true); break;
	case 30: atan2_f(-1354217.529296875f, -1.354217529296875f, -1.6117095947265624e-06f, -1.354217529296875e-06f, true); break;
	}
}
ENTRY(quick_atan2_f0_3_3)
{
	switch (vs_pick(31)) {
	case 0: atan2_f(-1.6117095947265624e-12f, -1.6117095947265624e-18f, 1.6117095947265624e-06f, 1.9073486328125e-06f, false); break;
	case 1: atan2_f(-1.6117095947265626e-07f, -1.6117095947265624e-12f, 1.6117095947265624e-06f, 1.9073486328125e-06f, false); break;
	case 2: atan2_f(-2.2563934326171875e-07f, -1.6117095947265626e-07f, 1.6117095947265624e-06f, 1.9073486328125e-06f, false); break;
	case 3: atan2_f(-3.1589508056640623e-07f, -2.2563934326171875e-07f, 1.6117095947265624e-06f, 1.9073486328125e-06f, false); break;
	case 4: atan2_f(-4.4160842895507815e-07f, -3.1589508056640623e-07f, 1.6117095947265624e-06f, 1.9073486328125e-06f, false); break;
	case 5: atan2_f(-6.18896484375e-07f, -4.4160842895507815e-07f, 1.6117095947265624e-06f, 1.9073486328125e-06f, false); break;
	case 6: atan2_f(-7.123756408691406e-07f, -6.18896484375e-07f, 1.6117095947265624e-06f, 1.9073486328125e-06f, false); break;
	case 7: atan2_f(-8.187484741210937e-07f, -7.123756408691406e-07f, 1.6117095947265624e-06f, 1.9073486328125e-06f, false); break;
	case 8: atan2_f(-9.412384033203125e-07f, -8.187484741210937e-07f, 1.6117095947265624e-06f, 1.9073486328125e-06f, false); break;
	case 9: atan2_f(-1.08306884765625e-06f, -9.412384033203125e-07f, 1.6117095947265624e-06f, 1.9073486328125e-06f, false); break;
	case 10: atan2_f(-1.2458515167236328e-06f, -1.08306884765625e-06f, 1.6117095947265624e-06f, 1.9073486328125e-06f, false); break;
	case 11: atan2_f(-1.432809829711914e-06f, -1.2458515167236328e-06f, 1.6117095947265624e-06f, 1.9073486328125e-06f, false); break;
	case 12: atan2_f(-1.6471672058105468e-06f, -1.432809829711914e-06f, 1.6117095947265624e-06f, 1.9073486328125e-06f, false); break;
	case 13: atan2_f(-1.8937587738037108e-06f, -1.6471672058105468e-06f, 1.6117095947265624e-06f, 1.9073486328125e-06f, false); break;
	case 14: atan2_f(-2.1774196624755858e-06f, -1.8937587738037108e-06f, 1.6117095947265624e-06f, 1.9073486328125e-06f, false); break;
	case 15: atan2_f(-2.504596710205078e-06f, -2.1774196624755858e-06f, 1.6117095947265624e-06f, 1.9073486328125e-06f, true); break;
	case 16: atan2_f(-2.880125045776367e-06f, -2.504596710205078e-06f, 1.6117095947265624e-06f, 1.9073486328125e-06f, true); break;
	case 17: atan2_f(-3.312063217163086e-06f, -2.880125045776367e-06f, 1.6117095947265624e-06f, 1.9073486328125e-06f, true); break;
	case 18: atan2_f(-3.808469772338867e-06f, -3.312063217163086e-06f, 1.6117095947265624e-06f, 1.9073486328125e-06f, true); break;
	case 19: atan2_f(-4.37901496887207e-06f, -3.808469772338867e-06f, 1.6117095947265624e-06f, 1.9073486328125e-06f, true); break;
	case 20: atan2_f(-5.036592483520508e-06f, -4.37901496887207e-06f, 1.6117095947265624e-06f, 1.9073486328125e-06f, true); break;
	case 21: atan2_f(-5.7924842834472654e-06f, -5.036592483520508e-06f, 1.6117095947265624e-06f, 1.9073486328125e-06f, true); break;
	case 22: atan2_f(-6.661195755004883e-06f, -5.7924842834472654e-06f, 1.6117095947265624e-06f, 1.9073486328125e-06f, true); break;
	case 23: atan2_f(-9.325351715087889e-06f, -6.661195755004883e-06f, 1.6117095947265624e-06f, 1.9073486328125e-06f, true); break;
	case 24: atan2_f(-1.3054847717285155e-05f, -9.325351715087889e-06f, 1.6117095947265624e-06f, 1.9073486328125e-06f, true); break;
	case 25: atan2_f(-1.827678680419922e-05f, -1.3054847717285155e-05f, 1.6117095947265624e-06f, 1.9073486328125e-06f, true); break;
	case 26: atan2_f(-2.5587501525878906e-05f, -1.827678680419922e-05f, 1.6117095947265624e-06f, 1.9073486328125e-06f, true); break;
	case 27: atan2_f(-3.582185745239258e-05f, -2.5587501525878906e-05f, 1.6117095947265624e-06f, 1.9073486328125e-06f, true); break;
	case 28: atan2_f(-0.0016117095947265625f, -3.582185745239258e-05f, 1.6117095947265624e-06f, 1.9073486328125e-06f, true); break;
	case 29: atan2_f(-1.6117095947265625f, -0.0016117095947265625f, 1.6117095947265624e-06f, 1.9073486328125e-06f, true); break;
	case 30: atan2_f(-1611709.5947265625f, -1.6117095947265625f, 1.6117095947265624e-06f, 1.9073486328125e-06f, true); break;
	}
}
ENTRY(quick_atan2_f1_0_0)
{
	switch (vs_pick(31)) {
	case 0: atan2_f(1e-12f, 1e-06f, 1.0f, 1.19f, false); break;
	case 1: atan2_f(1e-06f, 0.1f, 1.0f, 1.19f, false); break;
	case 2: atan2_f(0.1f, 0.14f, 1.0f, 1.19f, false); break;
	case 3: atan2_f(0.14f, 0.196f, 1.0f, 1.19f, false); break;
	case 4: atan2_f(0.196f, 0.274f, 1.0f, 1.19f, false); break;
	case 5: atan2_f(0.274f, 0.384f, 1.0f, 1.19f, false); break;
	case 6: atan2_f(0.384f, 0.442f, 1.0f, 1.19f, false); break;
	case 7: atan2_f(0.442f, 0.508f, 1.0f, 1.19f, false); break;
	case 8: atan2_f(0.508f, 0.584f, 1.0f, 1.19f, false); break;
	case 9: atan2_f(0.584f, 0.672f, 1.0f, 1.19f, false); break;
	case 10: atan2_f(0.672f, 0.773f, 1.0f, 1.19f, false); break;
	case 11: atan2_f(0.773f, 0.889f, 1.0f, 1.19f, false); break;
	case 12: atan2_f(0.889f, 1.022f, 1.0f, 1.19f, false); break;
	case 13: atan2_f(1.022f, 1.175f, 1.0f, 1.19f, false); break;
	case 14: atan2_f(1.175f, 1.351f, 1.0f, 1.19f, false); break;
	case 15: atan2_f(1.351f, 1.554f, 1.0f, 1.19f, true); break;
	case 16: atan2_f(1.554f, 1.787f, 1.0f, 1.19f, true); break;
	case 17: atan2_f(1.787f, 2.055f, 1.0f, 1.19f, true); break;
	case 18: atan2_f(2.055f, 2.363f, 1.0f, 1.19f, true); break;
	case 19: atan2_f(2.363f, 2.717f, 1.0f, 1.19f, true); break;
	case 20: atan2_f(2.717f, 3.125f, 1.0f, 1.19f, true); break;
	case 21: atan2_f(3.125f, 3.594f, 1.0f, 1.19f, true); break;
	case 22: atan2_f(3.594f, 4.133f, 1.0f, 1.19f, true); break;
	case 23: atan2_f(4.133f, 5.786f, 1.0f, 1.19f, true); break;
	case 24: atan2_f(5.786f, 8.1f, 1.0f, 1.19f, true); break;
	case 25: atan2_f(8.1f, 11.34f, 1.0f, 1.19f, true); break;
	case 26: atan2_f(11.34f, 15.876f, 1.0f, 1.19f, true); break;
	case 27: atan2_f(15.876f, 22.226f, 1.0f, 1.19f, true); break;
	case 28: atan2_f(22.226f, 1000.0f, 1.0f, 1.19f, true); break;
	case 29: atan2_f(1000.0f, 1000000.0f, 1.0f, 1.19f, true); break;
	case 30: atan2_f(1000000.0f, 1000000000000.0f, 1.0f, 1.19f, true); break;
	}
}
ENTRY(quick_atan2_f1_0_1)
{
	switch (vs_pick(31)) {
	case 0: atan2_f(1.19e-12f, 1.1899999999999998e-06f, 1.19f, 1.42f, false); break;
	case 1: atan2_f(1.1899999999999998e-06f, 0.119f, 1.19f, 1.42f, false); break;
	case 2: atan2_f(0.119f, 0.1666f, 1.19f, 1.42f, false); break;
	case 3: atan2_f(0.1666f, 0.23324f, 1.19f, 1.42f, false); break;
	case 4: atan2_f(0.23324f, 0.32606f, 1.19f, 1.42f, false); break;
	case 5: atan2_f(0.32606f, 0.45696f, 1.19f, 1.42f, false); break;
	case 6: atan2_f(0.45696f, 0.52598f, 1.19f, 1.42f, false); break;
	case 7: atan2_f(0.52598f, 0.60452f, 1.19f, 1.42f, false); break;
	case 8: atan2_f(0.60452f, 0.6949599999999999f, 1.19f, 1.42f, false); break;
	case 9: atan2_f(0.6949599999999999f, 0.7996800000000001f, 1.19f, 1.42f, false); break;
	case 10: atan2_f(0.7996800000000001f, 0.91987f, 1.19f, 1.42f, false); break;
	case 11: atan2_f(0.91987f, 1.05791f, 1.19f, 1.42f, false); break;
	case 12: atan2_f(1.05791f, 1.21618f, 1.19f, 1.42f, false); break;
	case 13: atan2_f(1.21618f, 1.39825f, 1.19f, 1.42f, false); break;
	case 14: atan2_f(1.39825f, 1.6076899999999998f, 1.19f, 1.42f, false); break;
	case 15: atan2_f(1.6076899999999998f, 1.84926f, 1.19f, 1.42f, true); break;
	case 16: atan2_f(1.84926f, 2.12653f, 1.19f, 1.42f, true); break;
	case 17: atan2_f(2.12653f, 2.44545f, 1.19f, 1.42f, true); break;
	case 18: atan2_f(2.44545f, 2.81197f, 1.19f, 1.42f, true); break;
	case 19: atan2_f(2.81197f, 3.23323f, 1.19f, 1.42f, true); break;
	case 20: atan2_f(3.23323f, 3.71875f, 1.19f, 1.42f, true); break;
	case 21: atan2_f(3.71875f, 4.276859999999999f, 1.19f, 1.42f, true); break;
	case 22: atan2_f(4.276859999999999f, 4.91827f, 1.19f, 1.42f, true); break;
	case 23: atan2_f(4.91827f, 6.885339999999999f, 1.19f, 1.42f, true); break;
	case 24: atan2_f(6.885339999999999f, 9.639f, 1.19f, 1.42f, true); break;
	case 25: atan2_f(9.639f, 13.494599999999998f, 1.19f, 1.42f, true); break;
	case 26: atan2_f(13.494599999999998f, 18.892439999999997f, 1.19f, 1.42f, true); break;
	case 27: atan2_f(18.892439999999997f, 26.448939999999997f, 1.19f, 1.42f, true); break;
	case 28: atan2_f(26.448939999999997f, 1190.0f, 1.19f, 1.42f, true); break;
	case 29: atan2_f(1190.0f, 1190000.0f, 1.19f, 1.42f, true); break;
	case 30: atan2_f(1190000.0f, 1190000000000.0f, 1.19f, 1.42f, true); break;
	}
}
ENTRY(quick_atan2_f1_0_2)
{
	switch (vs_pick(31)) {
	case 0: atan2_f(1.4199999999999998e-12f, 1.42e-06f, 1.42f, 1.69f, false); break;
	case 1: atan2_f(1.42e-06f, 0.142f, 1.42f, 1.69f, false); break;
	case 2: atan2_f(0.142f, 0.1988f, 1.42f, 1.69f, false); break;
	case 3: atan2_f(0.1988f, 0.27832f, 1.42f, 1.69f, false); break;
	case 4: atan2_f(0.27832f, 0.38908000000000004f, 1.42f, 1.69f, false); break;
	case 5: atan2_f(0.38908000000000004f, 0.54528f, 1.42f, 1.69f, false); break;
	case 6: atan2_f(0.54528f, 0.62764f, 1.42f, 1.69f, false); break;
	case 7: atan2_f(0.62764f, 0.72136f, 1.42f, 1.69f, false); break;
	case 8: atan2_f(0.72136f, 0.8292799999999999f, 1.42f, 1.69f, false); break;
	case 9: atan2_f(0.8292799999999999f, 0.95424f, 1.42f, 1.69f, false); break;
	case 10: atan2_f(0.95424f, 1.09766f, 1.42f, 1.69f, false); break;
	case 11: atan2_f(1.09766f, 1.26238f, 1.42f, 1.69f, false); break;
	case 12: atan2_f(1.26238f, 1.4512399999999999f, 1.42f, 1.69f, false); break;
	case 13: atan2_f(1.4512399999999999f, 1.6684999999999999f, 1.42f, 1.69f, false); break;
	case 14: atan2_f(1.6684999999999999f, 1.9184199999999998f, 1.42f, 1.69f, false); break;
	case 15: atan2_f(1.9184199999999998f, 2.20668f, 1.42f, 1.69f, true); break;
	case 16: atan2_f(2.20668f, 2.53754f, 1.42f, 1.69f, true); break;
	case 17: atan2_f(2.53754f, 2.9181f, 1.42f, 1.69f, true); break;
	case 18: atan2_f(2.9181f, 3.35546f, 1.42f, 1.69f, true); break;
	case 19: atan2_f(3.35546f, 3.85814f, 1.42f, 1.69f, true); break;
	case 20: atan2_f(3.85814f, 4.4375f, 1.42f, 1.69f, true); break;
	case 21: atan2_f(4.4375f, 5.103479999999999f, 1.42f, 1.69f, true); break;
	case 22: atan2_f(5.103479999999999f, 5.86886f, 1.42f, 1.69f, true); break;
	case 23: atan2_f(5.86886f, 8.216119999999998f, 1.42f, 1.69f, true); break;
	case 24: atan2_f(8.216119999999998f, 11.501999999999999f, 1.42f, 1.69f, true); break;
	case 25: atan2_f(11.501999999999999f, 16.1028f, 1.42f, 1.69f, true); break;
	case 26: atan2_f(16.1028f, 22.543919999999996f, 1.42f, 1.69f, true); break;
	case 27: atan2_f(22.543919999999996f, 31.560919999999996f, 1.42f, 1.69f, true); break;
	case 28: atan2_f(31.560919999999996f, 1420.0f, 1.42f, 1.69f, true); break;
	case 29: atan2_f(1420.0f, 1420000.0f, 1.42f, 1.69f, true); break;
	case 30: atan2_f(1420000.0f, 1420000000000.0f, 1.42f, 1.69f, true); break;
	}
}
ENTRY(quick_atan2_f1_0_3)
{
	switch (vs_pick(31)) {
	case 0: atan2_f(1.6899999999999999e-12f, 1.69e-06f, 1.69f, 2.0f, false); break;
	case 1: atan2_f(1.69e-06f, 0.169f, 1.69f, 2.0f, false); break;
	case 2: atan2_f(0.169f, 0.2366f, 1.69f, 2.0f, false); break;
	case 3: atan2_f(0.2366f, 0.33124f, 1.69f, 2.0f, false); break;
	case 4: atan2_f(0.33124f, 0.46306f, 1.69f, 2.0f, false); break;
	case 5: atan2_f(0.46306f, 0.64896f, 1.69f, 2.0f, false); break;
	case 6: atan2_f(0.64896f, 0.74698f, 1.69f, 2.0f, false); break;
	case 7: atan2_f(0.74698f, 0.85852f, 1.69f, 2.0f, false); break;
	case 8: atan2_f(0.85852f, 0.98696f, 1.69f, 2.0f, false); break;
	case 9: atan2_f(0.98696f, 1.13568f, 1.69f, 2.0f, false); break;
	case 10: atan2_f(1.13568f, 1.30637f, 1.69f, 2.0f, false); break;
	case 11: atan2_f(1.30637f, 1.50241f, 1.69f, 2.0f, false); break;
	case 12: atan2_f(1.50241f, 1.72718f, 1.69f, 2.0f, false); break;
	case 13: atan2_f(1.72718f, 1.98575f, 1.69f, 2.0f, false); break;
	case 14: atan2_f(1.98575f, 2.28319f, 1.69f, 2.0f, false); break;
	case 15: atan2_f(2.28319f, 2.62626f, 1.69f, 2.0f, true); break;
	case 16: atan2_f(2.62626f, 3.0200299999999998f, 1.69f, 2.0f, true); break;
	case 17: atan2_f(3.0200299999999998f, 3.47295f, 1.69f, 2.0f, true); break;
	case 18: atan2_f(3.47295f, 3.99347f, 1.69f, 2.0f, true); break;
	case 19: atan2_f(3.99347f, 4.59173f, 1.69f, 2.0f, true); break;
	case 20: atan2_f(4.59173f, 5.28125f, 1.69f, 2.0f, true); break;
	case 21: atan2_f(5.28125f, 6.07386f, 1.69f, 2.0f, true); break;
	case 22: atan2_f(6.07386f, 6.98477f, 1.69f, 2.0f, true); break;
	case 23: atan2_f(6.98477f, 9.778339999999998f, 1.69f, 2.0f, true); break;
	case 24: atan2_f(9.778339999999998f, 13.688999999999998f, 1.69f, 2.0f, true); break;
	case 25: atan2_f(13.688999999999998f, 19.1646f, 1.69f, 2.0f, true); break;
	case 26: atan2_f(19.1646f, 26.83044f, 1.69f, 2.0f, true); break;
	case 27: atan2_f(26.83044f, 37.56194f, 1.69f, 2.0f, true); break;
	case 28: atan2_f(37.56194f, 1690.0f, 1.69f, 2.0f, true); break;
	case 29: atan2_f(1690.0f, 1690000.0f, 1.69f, 2.0f, true); break;
	case 30: atan2_f(1690000.0f, 1690000000000.0f, 1.69f, 2.0f, true); break;
	}
}
ENTRY(quick_atan2_f1_1_0)
{
	switch (vs_pick(31)) {
	case 0: atan2_f(1e-12f, 1e-06f, -1.19f, -1.0f, false); break;
	case 1: atan2_f(1e-06f, 0.1f, -1.19f, -1.0f, false); break;
	case 2: atan2_f(0.1f, 0.14f, -1.19f, -1.0f, false); break;
	case 3: atan2_f(0.14f, 0.196f, -1.19f, -1.0f, false); break;
	case 4: atan2_f(0.196f, 0.274f, -1.19f, -1.0f, false); break;
	case 5: atan2_f(0.274f, 0.384f, -1.19f, -1.0f, false); break;
	case 6: atan2_f(0.384f, 0.442f, -1.19f, -1.0f, false); break;
	case 7: atan2_f(0.442f, 0.508f, -1.19f, -1.0f, false); break;
	case 8: atan2_f(0.508f, 0.584f, -1.19f, -1.0f, false); break;
	case 9: atan2_f(0.584f, 0.672f, -1.19f, -1.0f, false); break;
	case 10: atan2_f(0.672f, 0.773f, -1.19f, -1.0f, false); break;
	case 11: atan2_f(0.773f, 0.889f, -1.19f, -1.0f, false); break;
	case 12: atan2_f(0.889f, 1.022f, -1.19f, -1.0f, false); break;
	case 13: atan2_f(1.022f, 1.175f, -1.19f, -1.0f, false); break;
	case 14: atan2_f(1.175f, 1.351f, -1.19f, -1.0f, false); break;
	case 15: atan2_f(1.351f, 1.554f, -1.19f, -1.0f, true); break;
	case 16: atan2_f(1.554f, 1.787f, -1.19f, -1.0f, true); break;
	case 17: atan2_f(1.787f, 2.055f, -1.19f, -1.0f, true); break;
	case 18: atan2_f(2.055f, 2.363f, -1.19f, -1.0f, true); break;
	case 19: atan2_f(2.363f, 2.717f, -1.19f, -1.0f, true); break;
	case 20: atan2_f(2.717f, 3.125f, -1.19f, -1.0f, true); break;
	case 21: atan2_f(3.125f, 3.594f, -1.19f, -1.0f, true); break;
	case 22: atan2_f(3.594f, 4.133f, -1.19f, -1.0f, true); break;
	case 23: atan2_f(4.133f, 5.786f, -1.19f, -1.0f, true); break;
	case 24: atan2_f(5.786f, 8.1f, -1.19f, -1.0f, true); break;
	case 25: atan2_f(8.1f, 11.34f, -1.19f, -1.0f, true); break;
	case 26: atan2_f(11.34f, 15.876f, -1.19f, -1.0f, true); break;
	case 27: atan2_f(15.876f, 22.226f, -1.19f, -1.0f, true); break;
	case 28: atan2_f(22.226f, 1000.0f, -1.19f, -1.0f, true); break;
	case 29: atan2_f(1000.0f, 1000000.0f, -1.19f, -1.0f, true); break;
	case 30: atan2_f(1000000.0f, 1000000000000.0f, -1.19f, -1.0f, true); break;
	}
}
ENTRY(quick_atan2_f1_1_1)
{
	switch (vs_pick(31)) {
	case 0: atan2_f(1.19e-12f, 1.1899999999999998e-06f, -1.42f, -1.19f, false); break;
	case 1: atan2_f(1.1899999999999998e-06f, 0.119f, -1.42f, -1.19f, false); break;
	case 2: atan2_f(0.119f, 0.1666f, -1.42f, -1.19f, false); break;
	case 3: atan2_f(0.1666f, 0.23324f, -1.42f, -1.19f, false); break;
	case 4: atan2_f(0.23324f, 0.32606f, -1.42f, -1.19f, false); break;
	case 5: atan2_f(0.32606f, 0.45696f, -1.42f, -1.19f, false); break;
	case 6: atan2_f(0.45696f, 0.52598f, -1.42f, -1.19f, false); break;
	case 7: atan2_f(0.52598f, 0.60452f, -1.42f, -1.19f, false); break;
	case 8: atan2_f(0.60452f, 0.6949599999999999f, -1.42f, -1.19f, false); break;
	case 9: atan2_f(0.6949599999999999f, 0.7996800000000001f, -1.42f, -1.19f, false); break;
	case 10: atan2_f(0.7996800000000001f, 0.91987f, -1.42f, -1.19f, false); break;
	case 11: atan2_f(0.91987f, 1.05791f, -1.42f, -1.19f, false); break;
	case 12: atan2_f(1.05791f, 1.21618f, -1.42f, -1.19f, false); break;
	case 13: atan2_f(1.21618f, 1.39825f, -1.42f, -1.19f, false); break;
	case 14: atan2_f(1.39825f, 1.6076899999999998f, -1.42f, -1.19f, false); break;
	case 15: atan2_f(1.6076899999999998f, 1.84926f, -1.42f, -1.19f, true); break;
	case 16: atan2_f(1.84926f, 2.12653f, -1.42f, -1.19f, true); break;
	case 17: atan2_f(2.12653f, 2.44545f, -1.42f, -1.19f, true); break;
	case 18: atan2_f(2.44545f, 2.81197f, -1.42f, -1.19f, true); break;
	case 19: atan2_f(2.81197f, 3.23323f, -1.42f, -1.19f, true); break;
	case 20: atan2_f(3.23323f, 3.71875f, -1.42f, -1.19f, true); break;
	case 21: atan2_f(3.71875f, 4.276859999999999f, -1.42f, -1.19f, true); break;
	case 22: atan2_f(4.276859999999999f, 4.91827f, -1.42f, -1.19f, true); break;
	case 23: atan2_f(4.91827f, 6.885339999999999f, -1.42f, -1.19f, true); break;
	case 24: atan2_f(6.885339999999999f, 9.639f, -1.42f, -1.19f, true); break;
	case 25: atan2_f(9.639f, 13.494599999999998f, -1.42f, -1.19f, true); break;
	case 26: atan2_f(13.494599999999998f, 18.892439999999997f, -1.42f, -1.19f, true); break;
	case 27: atan2_f(18.892439999999997f, 26.448939999999997f, -1.42f, -1.19f, true); break;
	case 28: atan2_f(26.448939999999997f, 1190.0f, -1.42f, -1.19f, true); break;
	case 29: atan2_f(1190.0f, 1190000.0f, -1.42f, -1.19f, true); break;
	case 30: atan2_f(1190000.0f, 1190000000000.0f, -1.42f, -1.19f, true); break;
	}
}
ENTRY(quick_atan2_f1_1_2)
{
	switch (vs_pick(31)) {
	case 0: atan2_f(1.4199999999999998e-12f, 1.42e-06f, -1.69f, -1.42f, false); break;
	case 1: atan2_f(1.42e-06f, 0.142f, -1.69f, -1.42f, false); break;
	case 2: atan2_f(0.142f, 0.1988f, -1.69f, -1.42f, false); break;
	case 3: atan2_f(0.1988f, 0.27832f, -1.69f, -1.42f, false); break;
	case 4: atan2_f(0.27832f, 0.38908000000000004f, -1.69f, -1.42f, false); break;
	case 5: atan2_f(0.38908000000000004f, 0.54528f, -1.69f, -1.42f, false); break;
	case 6: atan2_f(0.54528f, 0.62764f, -1.69f, -1.42f, false); break;
	case 7: atan2_f(0.62764f, 0.72136f, -1.69f, -1.42f, false); break;
	case 8: atan2_f(0.72136f, 0.8292799999999999f, -1.69f, -1.42f, false); break;
	case 9: atan2_f(0.8292799999999999f, 0.95424f, -1.69f, -1.42f, false); break;
	case 10: atan2_f(0.95424f, 1.09766f, -1.69f, -1.42f, false); break;
	case 11: atan2_f(1.09766f, 1.26238f, -1.69f, -1.42f, false); break;
	case 12: atan2_f(1.26238f, 1.4512399999999999f, -1.69f, -1.42f, false); break;
	case 13: atan2_f(1.4512399999999999f, 1.6684999999999999f, -1.69f, -1.42f, false); break;
	case 14: atan2_f(1.6684999999999999f, 1.9184199999999998f, -1.69f, -1.42f, false); break;
	case 15: atan2_f(1.9184199999999998f, 2.20668f, -1.69f, -1.42f, true); break;
	case 16: atan2_f(2.20668f, 2.53754f, -1.69f, -1.42f, true); break;
	case 17: atan2_f(2.53754f, 2.9181f, -1.69f, -1.42f, true); break;
	case 18: atan2_f(2.9181f, 3.35546f, -1.69f, -1.42f, true); break;
	case 19: atan2_f(3.35546f, 3.85814f, -1.69f, -1.42f, true); break;
	case 20: atan2_f(3.85814f, 4.4375f, -1.69f, -1.42f, true); break;
	case 21: atan2_f(4.4375f, 5.103479999999999f, -1.69f, -1.42f, true); break;
	case 22: atan2_f(5.103479999999999f, 5.86886f, -1.69f, -1.42f, true); break;
	case 23: atan2_f(5.86886f, 8.216119999999998f, -1.69f, -1.42f, true); break;
	case 24: atan2_f(8.216119999999998f, 11.501999999999999f, -1.69f, -1.42f, true); break;
	case 25: atan2_f(11.501999999999999f, 16.1028f, -1.69f, -1.42f, true); break;
	case 26: atan2_f(16.1028f, 22.543919999999996f, -1.69f, -1.42f, true); break;
	case 27: atan2_f(22.543919999999996f, 31.560919999999996f, -1.69f, -1.42f, true); break;
	case 28: atan2_f(31.560919999999996f, 1420.0f, -1.69f, -1.42f, true); break;
	case 29: atan2_f(1420.0f, 1420000.0f, -1.69f, -1.42f, true); break;
	case 30: atan2_f(1420000.0f, 1420000000000.0f, -1.69f, -1.42f, true); break;
	}
}
ENTRY(quick_atan2_f1_1_3)
{
	switch (vs_pick(31)) {
	case 0: atan2_f(1.6899999999999999e-12f, 1.69e-06f, -2.0f, -1.69f, false); break;
	case 1: atan2_f(1.69e-06f, 0.169f, -2.0f, -1.69f, false); break;
	case 2: atan2_f(0.169f, 0.2366f, -2.0f, -1.69f, false); break;
	case 3: atan2_f(0.2366f, 0.33124f, -2.0f, -1.69f, false); break;
	case 4: atan2_f(0.33124f, 0.46306f, -2.0f, -1.69f, false); break;
	case 5: atan2_f(0.46306f, 0.64896f, -2.0f, -1.69f, false); break;
	case 6: atan2_f(0.64896f, 0.74698f, -2.0f, -1.69f, false); break;
	case 7: atan2_f(0.74698f, 0.85852f, -2.0f, -1.69f, false); break;
	case 8: atan2_f(0.85852f, 0.98696f, -2.0f, -1.69f, false); break;
	case 9: atan2_f(0.98696f, 1.13568f, -2.0f, -1.69f, false); break;
	case 10: atan2_f(1.13568f, 1.30637f, -2.0f, -1.69f, false); break;
	case 11: atan2_f(1.30637f, 1.50241f, -2.0f, -1.69f, false); break;
	case 12: atan2_f(1.50241f, 1.72718f, -2.0f, -1.69f, false); break;
	case 13: atan2_f(1.72718f, 1.98575f, -2.0f, -1.69f, false); break;
	case 14: atan2_f(1.98575f, 2.28319f, -2.0f, -1.69f, false); break;
	case 15: atan2_f(2.28319f, 2.62626f, -2.0f, -1.69f, true); break;
	case 16: atan2_f(2.62626f, 3.0200299999999998f, -2.0f, -1.69f, true); break;
	case 17: atan2_f(3.0200299999999998f, 3.47295f, -2.0f, -1.69f, true); break;
	case 18: atan2_f(3.47295f, 3.99347f, -2.0f, -1.69f, true); break;
	case 19: atan2_f(3.99347f, 4.59173f, -2.0f, -1.69f, true); break;
	case 20: atan2_f(4.59173f, 5.28125f, -2.0f, -1.69f, true); break;
	case 21: atan2_f(5.28125f, 6.07386f, -2.0f, -1.69f, true); break;
	case 22: atan2_f(6.07386f, 6.98477f, -2.0f, -1.69f, true); break;
	case 23: atan2_f(6.98477f, 9.778339999999998f, -2.0f, -1.69f, true); break;
	case 24: atan2_f(9.778339999999998f, 13.688999999999998f, -2.0f, -1.69f, true); break;
	case 25: atan2_f(13.688999999999998f, 19.1646f, -2.0f, -1.69f, true); break;
	case 26: atan2_f(19.1646f, 26.83044f, -2.0f, -1.69f, true); break;
	case 27: atan2_f(26.83044f, 37.56194f, -2.0f, -1.69f, true); break;
	case 28: atan2_f(37.56194f, 1690.0f, -2.0f, -1.69f, true); break;
	case 29: atan2_f(1690.0f, 1690000.0f, -2.0f, -1.69f, true); break;
	case 30: atan2_f(1690000.0f, 1690000000000.0f, -2.0f, -1.69f, true); break;
	}
}
ENTRY(quick_atan2_f1_2_0)
{
	switch (vs_pick(31)) {
	case 0: atan2_f(-1e-06f, -1e-12f, -1.19f, -1.0f, false); break;
	case 1: atan2_f(-0.1f, -1e-06f, -1.19f, -1.0f, false); break;
	case 2: atan2_f(-0.14f, -0.1f, -1.19f, -1.0f, false); break;
	case 3: atan2_f(-0.196f, -0.14f, -1.19f, -1.0f, false); break;
	case 4: atan2_f(-0.274f, -0.196f, -1.19f, -1.0f, false); break;
	case 5: atan2_f(-0.384f, -0.274f, -1.19f, -1.0f, false); break;
	case 6: atan2_f(-0.442f, -0.384f, -1.19f, -1.0f, false); break;
	case 7: atan2_f(-0.508f, -0.442f, -1.19f, -1.0f, false); break;
	case 8: atan2_f(-0.584f, -0.508f, -1.19f, -1.0f, false); break;
	case 9: atan2_f(-0.672f, -0.584f, -1.19f, -1.0f, false); break;
	case 10: atan2_f(-0.773f, -0.672f, -1.19f, -1.0f, false); break;
	case 11: atan2_f(-0.889f, -0.773f, -1.19f, -1.0f, false); break;
	case 12: atan2_f(-1.022f, -0.889f, -1.19f, -1.0f, false); break;
	case 13: atan2_f(-1.175f, -1.022f, -1.19f, -1.0f, false); break;
	case 14: atan2_f(-1.351f, -1.175f, -1.19f, -1.0f, false); break;
	case 15: atan2_f(-1.554f, -1.351f, -1.19f, -1.0f, true); break;
	case 16: atan2_f(-1.787f, -1.554f, -1.19f, -1.0f, true); break;
	case 17: atan2_f(-2.055f, -1.787f, -1.19f, -1.0f, true); break;
	case 18: atan2_f(-2.363f, -2.055f, -1.19f, -1.0f, true); break;
	case 19: atan2_f(-2.717f, -2.363f, -1.19f, -1.0f, true); break;
	case 20: atan2_f(-3.125f, -2.717f, -1.19f, -1.0f, true); break;
	case 21: atan2_f(-3.594f, -3.125f, -1.19f, -1.0f, true); break;
	case 22: atan2_f(-4.133f, -3.594f, -1.19f, -1.0f, true); break;
	case 23: atan2_f(-5.786f, -4.133f, -1.19f, -1.0f, true); break;
	case 24: atan2_f(-8.1f, -5.786f, -1.19f, -1.0f, true); break;
	case 25: atan2_f(-11.34f, -8.1f, -1.19f, -1.0f, true); break;
	case 26: atan2_f(-15.876f, -11.34f, -1.19f, -1.0f, true); break;
	case 27: atan2_f(-22.226f, -15.876f, -1.19f, -1.0f, true); break;
	case 28: atan2_f(-1000.0f, -22.226f, -1.19f, -1.0f, true); break;
	case 29: atan2_f(-1000000.0f, -1000.0f, -1.19f, -1.0f, true); break;
	case 30: atan2_f(-1000000000000.0f, -1000000.0f, -1.19f, -1.0f, true); break;
	}
}
ENTRY(quick_atan2_f1_2_1)
{
	switch (vs_pick(31)) {
	case 0: atan2_f(-1.1899999999999998e-06f, -1.19e-12f, -1.42f, -1.19f, false); break;
	case 1: atan2_f(-0.119f, -1.1899999999999998e-06f, -1.42f, -1.19f, false); break;
	case 2: atan2_f(-0.1666f, -0.119f, -1.42f, -1.19f, false); break;
	case 3: atan2_f(-0.23324f, -0.1666f, -1.42f, -1.19f, false); break;
	case 4: atan2_f(-0.32606f, -0.23324f, -1.42f, -1.19f, false); break;
	case 5: atan2_f(-0.45696f, -0.32606f, -1.42f, -1.19f, false); break;
	case 6: atan2_f(-0.52598f, -0.45696f, -1.42f, -1.19f, false); break;
	case 7: atan2_f(-0.60452f, -0.52598f, -1.42f, -1.19f, false); break;
	case 8: atan2_f(-0.6949599999999999f, -0.60452f, -1.42f, -1.19f, false); break;
	case 9: atan2_f(-0.7996800000000001f, -0.6949599999999999f, -1.42f, -1.19f, false); break;
	case 10: atan2_f(-0.91987f, -0.7996800000000001f, -1.42f, -1.19f, false); break;
	case 11: atan2_f(-1.05791f, -0.91987f, -1.42f, -1.19f, false); break;
	case 12: atan2_f(-1.21618f, -1.05791f, -1.42f, -1.19f, false); break;
	case 13: atan2_f(-1.39825f, -1.21618f, -1.42f, -1.19f, false); break;
	case 14: atan2_f(-1.6076899999999998f, -1.39825f, -1.42f, -1.19f, false); break;
	case 15: atan2_f(-1.84926f, -1.6076899999999998f, -1.42f, -1.19f, true); break;
	case 16: atan2_f(-2.12653f, -1.84926f, -1.42f, -1.19f, true); break;
	case 17: atan2_f(-2.44545f, -2.12653f, -1.42f, -1.19f, true); break;
	case 18: atan2_f(-2.81197f, -2.44545f, -1.42f, -1.19f, true); break;
	case 19: atan2_f(-3.23323f, -2.81197f, -1.42f, -1.19f, true); break;
	case 20: atan2_f(-3.71875f, -3.23323f, -1.42f, -1.19f, true); break;
	case 21: atan2_f(-4.276859999999999f, -3.71875f, -1.42f, -1.19f, true); break;
	case 22: atan2_f(-4.91827f, -4.276859999999999f, -1.42f, -1.19f, true); break;
	case 23: atan2_f(-6.885339999999999f, -4.91827f, -1.42f, -1.19f, true); break;
	case 24: atan2_f(-9.639f, -6.885339999999999f, -1.42f, -1.19f, true); break;
	case 25: atan2_f(-13.494599999999998f, -9.639f, -1.42f, -1.19f, true); break;
	case 26: atan2_f(-18.892439999999997f, -13.494599999999998f, -1.42f, -1.19f, true); break;
	case 27: atan2_f(-26.448939999999997f, -18.892439999999997f, -1.42f, -1.19f, true); break;
	case 28: atan2_f(-1190.0f, -26.448939999999997f, -1.42f, -1.19f, true); break;
	case 29: atan2_f(-1190000.0f, -1190.0f, -1.42f, -1.19f, true); break;
	case 30: atan2_f(-1190000000000.0f, -1190000.0f, -1.42f, -1.19f, true); break;
	}
}
ENTRY(quick_atan2_f1_2_2)
{
	switch (vs_pick(31)) {
	case 0: atan2_f(-1.42e-06f, -1.4199999999999998e-12f, -1.69f, -1.42f, false); break;
	case 1: atan2_f(-0.142f, -1.42e-06f, -1.69f, -1.42f, false); break;
	case 2: atan2_f(-0.1988f, -0.142f, -1.69f, -1.42f, false); break;
	case 3: atan2_f(-0.27832f, -0.1988f, -1.69f, -1.42f, false); break;
	case 4: atan2_f(-0.38908000000000004f, -0.27832f, -1.69f, -1.42f, false); break;
	case 5: atan2_f(-0.54528f, -0.38908000000000004f, -1.69f, -1.42f, false); break;
	case 6: atan2_f(-0.62764f, -0.54528f, -1.69f, -1.42f, false); break;
	case 7: atan2_f(-0.72136f, -0.62764f, -1.69f, -1.42f, false); break;
	case 8: atan2_f(-0.8292799999999999f, -0.72136f, -1.69f, -1.42f, false); break;
	case 9: atan2_f(-0.95424f, -0.8292799999999999f, -1.69f, -1.42f, false); break;
	case 10: atan2_f(-1.09766f, -0.95424f, -1.69f, -1.42f, false); break;
	case 11: atan2_f(-1.26238f, -1.09766f, -1.69f, -1.42f, false); break;
	case 12: atan2_f(-1.4512399999999999f, -1.26238f, -1.69f, -1.42f, false); break;
	case 13: atan2_f(-1.6684999999999999f, -1.4512399999999999f, -1.69f, -1.42f, false); break;
	case 14: atan2_f(-1.9184199999999998f, -1.6684999999999999f, -1.69f, -1.42f, false); break;
	case 15: atan2_f(-2.20668f, -1.9184199999999998f, -1.69f, -1.42f, true); break;
	case 16: atan2_f(-2.53754f, -2.20668f, -1.69f, -1.42f, true); break;
	case 17: atan2_f(-2.9181f, -2.53754f, -1.69f, -1.42f, true); break;
	case 18: atan2_f(-3.35546f, -2.9181f, -1.69f, -1.42f, true); break;
	case 19: atan2_f(-3.85814f, -3.35546f, -1.69f, -1.42f, true); break;
	case 20: atan2_f(-4.4375f, -3.85814f, -1.69f, -1.42f, true); break;
	case 21: atan2_f(-5.103479999999999f, -4.4375f, -1.69f, -1.42f, true); break;
	case 22: atan2_f(-5.86886f, -5.103479999999999f, -1.69f, -1.42f, true); break;
	case 23: atan2_f(-8.216119999999998f, -5.86886f, -1.69f, -1.42f, true); break;
	case 24: atan2_f(-11.501999999999999f, -8.216119999999998f, -1.69f, -1.42f, true); break;
	case 25: atan2_f(-16.1028f, -11.501999999999999f, -1.69f, -1.42f, true); break;
	case 26: atan2_f(-22.543919999999996f, -16.1028f, -1.69f, -1.42f, true); break;
	case 27: atan2_f(-31.560919999999996f, -22.543919999999996f, -1.69f, -1.42f, true); break;
	case 28: atan2_f(-1420.0f, -31.560919999999996f, -1.69f, -1.42f, true); break;
	case 29: atan2_f(-1420000.0f, -1420.0f, -1.69f, -1.42f, true); break;
	case 30: atan2_f(-1420000000000.0f, -1420000.0f, -1.69f, -1.42f, true); break;
	}
}
ENTRY(quick_atan2_f1_2_3)
{
	switch (vs_pick(31)) {
	case 0: atan2_f(-1.69e-06f, -1.6899999999999999e-12f, -2.0f, -1.69f, false); break;
	case 1: atan2_f(-0.169f, -1.69e-06f, -2.0f, -1.69f, false); break;
	case 2: atan2_f(-0.2366f, -0.169f, -2.0f, -1.69f, false); break;
	case 3: atan2_f(-0.33124f, -0.2366f, -2.0f, -1.69f, false); break;
	case 4: atan2_f(-0.46306f, -0.33124f, -2.0f, -1.69f, false); break;
	case 5: atan2_f(-0.64896f, -0.46306f, -2.0f, -1.69f, false); break;
	case 6: atan2_f(-0.74698f, -0.64896f, -2.0f, -1.69f, false); break;
	case 7: atan2_f(-0.85852f, -0.74698f, -2.0f, -1.69f, false); break;
	case 8: atan2_f(-0.98696f, -0.85852f, -2.0f, -1.69f, false); break;
	case 9: atan2_f(-1.13568f, -0.98696f, -2.0f, -1.69f, false); break;
	case 10: atan2_f(-1.30637f, -1.13568f, -2.0f, -1.69f, false); break;
	case 11: atan2_f(-1.50241f, -1.30637f, -2.0f, -1.69f, false); break;
	case 12: atan2_f(-1.72718f, -1.50241f, -2.0f, -1.69f, false); break;
	case 13: atan2_f(-1.98575f, -1.72718f, -2.0f, -1.69f, false); break;
	case 14: atan2_f(-2.28319f, -1.98575f, -2.0f, -1.69f, false); break;
	case 15: atan2_f(-2.62626f, -2.28319f, -2.0f, -1.69f, true); break;
	case 16: atan2_f(-3.0200299999999998f, -2.62626f, -2.0f, -1.69f, true); break;
	case 17: atan2_f(-3.47295f, -3.0200299999999998f, -2.0f, -1.69f, true); break;
	case 18: atan2_f(-3.99347f, -3.47295f, -2.0f, -1.69f, true); break;
	case 19: atan2_f(-4.59173f, -3.99347f, -2.0f, -1.69f, true); break;
	case 20: atan2_f(-5.28125f, -4.59173f, -2.0f, -1.69f, true); break;
	case 21: atan2_f(-6.07386f, -5.28125f, -2.0f, -1.69f, true); break;
	case 22: atan2_f(-6.98477f, -6.07386f, -2.0f, -1.69f, true); break;
	case 23: atan2_f(-9.778339999999998f, -6.98477f, -2.0f, -1.69f, true); break;
	case 24: atan2_f(-13.688999999999998f, -9.778339999999998f, -2.0f, -1.69f, true); break;
	case 25: atan2_f(-19.1646f, -13.688999999999998f, -2.0f, -1.69f, true); break;
	case 26: atan2_f(-26.83044f, -19.1646f, -2.0f, -1.69f, true); break;
	case 27: atan2_f(-37.56194f, -26.83044f, -2.0f, -1.69f, true); break;
	case 28: atan2_f(-1690.0f, -37.56194f, -2.0f, -1.69f, true); break;
	case 29: atan2_f(-1690000.0f, -1690.0f, -2.0f, -1.69f, true); break;
	case 30: atan2_f(-1690000000000.0f, -1690000.0f, -2.0f, -1.69f, true); break;
	}
}
ENTRY(quick_atan2_f1_3_0)
{
	switch (vs_pick(31)) {
	case 0: atan2_f(-1e-06f, -1e-12f, 1.0f, 1.19f, false); break;
	case 1: atan2_f(-0.1f, -1e-06f, 1.0f, 1.19f, false); break;
	case 2: atan2_f(-0.14f, -0.1f, 1.0f, 1.19f, false); break;
	case 3: atan2_f(-0.196f, -0.14f, 1.0f, 1.19f, false); break;
	case 4: atan2_f(-0.274f, -0.196f, 1.0f, 1.19f, false); break;
	case 5: atan2_f(-0.384f, -0.274f, 1.0f, 1.19f, false); break;
	case 6: atan2_f(-0.442f, -0.384f, 1.0f, 1.19f, false); break;
	case 7: atan2_f(-0.508f, -0.442f, 1.0f, 1.19f, false); break;
	case 8: atan2_f(-0.584f, -0.508f, 1.0f, 1.19f, false); break;
	case 9: atan2_f(-0.672f, -0.584f, 1.0f, 1.19f, false); break;
	case 10: atan2_f(-0.773f, -0.672f, 1.0f, 1.19f, false); break;
	case 11: atan2_f(-0.889f, -0.773f, 1.0f, 1.19f, false); break;
	case 12: atan2_f(-1.022f, -0.889f, 1.0f, 1.19f, false); break;
	case 13: atan2_f(-1.175f, -1.022f, 1.0f, 1.19f, false); break;
	case 14: atan2_f(-1.351f, -1.175f, 1.0f, 1.19f, false); break;
	case 15: atan2_f(-1.554f, -1.351f, 1.0f, 1.19f, true); break;
	case 16: atan2_f(-1.787f, -1.554f, 1.0f, 1.19f, true); break;
	case 17: atan2_f(-2.055f, -1.787f, 1.0f, 1.19f, true); break;
	case 18: atan2_f(-2.363f, -2.055f, 1.0f, 1.19f, true); break;
	case 19: atan2_f(-2.717f, -2.363f, 1.0f, 1.19f, true); break;
	case 20: atan2_f(-3.125f, -2.717f, 1.0f, 1.19f, true); break;
	case 21: atan2_f(-3.594f, -3.125f, 1.0f, 1.19f, true); break;
	case 22: atan2_f(-4.133f, -3.594f, 1.0f, 1.19f, true); break;
	case 23: atan2_f(-5.786f, -4.133f, 1.0f, 1.19f, true); break;
	case 24: atan2_f(-8.1f, -5.786f, 1.0f, 1.19f, true); break;
	case 25: atan2_f(-11.34f, -8.1f, 1.0f, 1.19f, true); break;
	case 26: atan2_f(-15.876f, -11.34f, 1.0f, 1.19f, true); break;
	case 27: atan2_f(-22.226f, -15.876f, 1.0f, 1.19f, true); break;
	case 28: atan2_f(-1000.0f, -22.226f, 1.0f, 1.19f, true); break;
	case 29: atan2_f(-1000000.0f, -1000.0f, 1.0f, 1.19f, true); break;
	case 30: atan2_f(-1000000000000.0f, -1000000.0f, 1.0f, 1.19f, true); break;
	}
}
ENTRY(quick_atan2_f1_3_1)
{
	switch (vs_pick(31)) {
	case 0: atan2_f(-1.1899999999999998e-06f, -1.19e-12f, 1.19f, 1.42f, false); break;
	case 1: atan2_f(-0.119f, -1.1899999999999998e-06f, 1.19f, 1.42f, false); break;
	case 2: atan2_f(-0.1666f, -0.119f, 1.19f, 1.42f, false); break;
	case 3: atan2_f(-0.23324f, -0.1666f, 1.19f, 1.42f, false); break;
	case 4: atan2_f(-0.32606f, -0.23324f, 1.19f, 1.42f, false); break;
	case 5: atan2_f(-0.45696f, -0.32606f, 1.19f, 1.42f, false); break;
	case 6: atan2_f(-0.52598f, -0.45696f, 1.19f, 1.42f, false); break;
	case 7: atan2_f(-0.60452f, -0.52598f, 1.19f, 1.42f, false); break;
	case 8: atan2_f(-0.6949599999999999f, -0.60452f, 1.19f, 1.42f, false); break;
	case 9: atan2_f(-0.7996800000000001f, -0.6949599999999999f, 1.19f, 1.42f, false); break;
	case 10: atan2_f(-0.91987f, -0.7996800000000001f, 1.19f, 1.42f, false); break;
	case 11: atan2_f(-1.05791f, -0.91987f, 1.19f, 1.42f, false); break;
	case 12: atan2_f(-1.21618f, -1.05791f, 1.19f, 1.42f, false); break;
	case 13: atan2_f(-1.39825f, -1.21618f, 1.19f, 1.42f, false); break;
	case 14: atan2_f(-1.6076899999999998f, -1.39825f, 1.19f, 1.42f, false); break;
	case 15: atan2_f(-1.84926f, -1.6076899999999998f, 1.19f, 1.42f, true); break;
	case 16: atan2_f(-2.12653f, -1.84926f, 1.19f, 1.42f, true); break;
	case 17: atan2_f(-2.44545f, -2.12653f, 1.19f, 1.42f, true); break;
	case 18: atan2_f(-2.81197f, -2.44545f, 1.19f, 1.42f, true); break;
	case 19: atan2_f(-3.23323f, -2.81197f, 1.19f, 1.42f, true); break;
	case 20: atan2_f(-3.71875f, -3.23323f, 1.19f, 1.42f, true); break;
	case 21: atan2_f(-4.276859999999999f, -3.71875f, 1.19f, 1.42f, true); break;
	case 22: atan2_f(-4.91827f, -4.276859999999999f, 1.19f, 1.42f, true); break;
	case 23: atan2_f(-6.885339999999999f, -4.91827f, 1.19f, 1.42f, true); break;
	case 24: atan2_f(-9.639f, -6.885339999999999f, 1.19f, 1.42f, true); break;
	case 25: atan2_f(-13.494599999999998f, -9.639f, 1.19f, 1.42f, true); break;
	case 26: atan2_f(-18.892439999999997f, -13.494599999999998f, 1.19f, 1.42f, true); break;
	case 27: atan2_f(-26.448939999999997f, -18.892439999999997f, 1.19f, 1.42f, true); break;
	case 28: atan2_f(-1190.0f, -26.448939999999997f, 1.19f, 1.42f, true); break;
	case 29: atan2_f(-1190000.0f, -1190.0f, 1.19f, 1.42f, true); break;
	case 30: atan2_f(-1190000000000.0f, -1190000.0f, 1.19f, 1.42f, true); break;
	}
}
ENTRY(quick_atan2_f1_3_2)
{
	switch (vs_pick(31)) {
	case 0: atan2_f(-1.42e-06f, -1.4199999999999998e-12f, 1.42f, 1.69f, false); break;
	case 1: atan2_f(-0.142f, -1.42e-06f, 1.42f, 1.69f, false); break;
	case 2: atan2_f(-0.1988f, -0.142f, 1.42f, 1.69f, false); break;
	case 3: atan2_f(-0.27832f, -0.1988f, 1.42f, 1.69f, false); break;
	case 4: atan2_f(-0.38908000000000004f, -0.27832f, 1.42f, 1.69f, false); break;
	case 5: atan2_f(-0.54528f, -0.38908000000000004f, 1.42f, 1.69f, false); break;
	case 6: atan2_f(-0.62764f, -0.54528f, 1.42f, 1.69f, false); break;
	case 7: atan2_f(-0.72136f, -0.62764f, 1.42f, 1.69f, false); break;
	case 8: atan2_f(-0.8292799999999999f, -0.72136f, 1.42f, 1.69f, false); break;
	case 9: atan2_f(-0.95424f, -0.8292799999999999f, 1.42f, 1.69f, false); break;
	case 10: atan2_f(-1.09766f, -0.95424f, 1.42f, 1.69f, false); break;
	case 11: atan2_f(-1.26238f, -1.09766f, 1.42f, 1.69f, false); break;
	case 12: atan2_f(-1.4512399999999999f, -1.26238f, 1.42f, 1.69f, false); break;
	case 13: atan2_f(-1.6684999999999999f, -1.4512399999999999f, 1.42f, 1.69f, false); break;
	case 14: atan2_f(-1.9184199999999998f, -1.6684999999999999f, 1.42f, 1.69f, false); break;
	case 15: atan2_f(-2.20668f, -1.9184199999999998f, 1.42f, 1.69f, true); break;
	case 16: atan2_f(-2.53754f, -2.20668f, 1.42f, 1.69f, true); break;
	case 17: atan2_f(-2.9181f, -2.53754f, 1.42f, 1.69f, true); break;
	case 18: atan2_f(-3.35546f, -2.9181f, 1.42f, 1.69f, true); break;
	case 19: atan2_f(-3.85814f, -3.35546f, 1.42f, 1.69f, true); break;
	case 20: atan2_f(-4.4375f, -3.85814f, 1.42f, 1.69f, true); break;
	case 21: atan2_f(-5.103479999999999f, -4.4375f, 1.42f, 1.69f, true); break;
	case 22: atan2_f(-5.86886f, -5.103479999999999f, 1.42f, 1.69f, true); break;
	case 23: atan2_f(-8.216119999999998f, -5.86886f, 1.42f, 1.69f, true); break;
	case 24: atan2_f(-11.501999999999999f, -8.216119999999998f, 1.42f, 1.69f, true); break;
	case 25: atan2_f(-16.1028f, -11.501999999999999f, 1.42f, 1.69f, true); break;
	case 26: atan2_f(-22.543919999999996f, -16.1028f, 1.42f, 1.69f, true); break;
	case 27: atan2_f(-31.560919999999996f, -22.543919999999996f, 1.42f, 1.69f, true); break;
	case 28: atan2_f(-1420.0f, -31.560919999999996f, 1.42f, 1.69f, true); break;
	case 29: atan2_f(-1420000.0f, -1420.0f, 1.42f, 1.69f, true); break;
	case 30: atan2_f(-1420000000000.0f, -1420000.0f, 1.42f, 1.69f, true); break;
	}
}
ENTRY(quick_atan2_f1_3_3)
{
	switch (vs_pick(31)) {
	case 0: atan2_f(-1.69e-06f, -1.6899999999999999e-12f, 1.69f, 2.0f, false); break;
	case 1: atan2_f(-0.169f, -1.69e-06f, 1.69f, 2.0f, false); break;
	case 2: atan2_f(-0.2366f, -0.169f, 1.69f, 2.0f, false); break;
	case 3: atan2_f(-0.33124f, -0.2366f, 1.69f, 2.0f, false); break;
	case 4: atan2_f(-0.46306f, -0.33124f, 1.69f, 2.0f, false); break;
	case 5: atan2_f(-0.64896f, -0.46306f, 1.69f, 2.0f, false); break;
	case 6: atan2_f(-0.74698f, -0.64896f, 1.69f, 2.0f, false); break;
	case 7: atan2_f(-0.85852f, -0.74698f, 1.69f, 2.0f, false); break;
	case 8: atan2_f(-0.98696f, -0.85852f, 1.69f, 2.0f, false); break;
	case 9: atan2_f(-1.13568f, -0.98696f, 1.69f, 2.0f, false); break;
	case 10: atan2_f(-1.30637f, -1.13568f, 1.69f, 2.0f, false); break;
	case 11: atan2_f(-1.50241f, -1.30637f, 1.69f, 2.0f, false); break;
	case 12: atan2_f(-1.72718f, -1.50241f, 1.69f, 2.0f, false); break;
	case 13: atan2_f(-1.98575f, -1.72718f, 1.69f, 2.0f, false); break;
	case 14: atan2_f(-2.28319f, -1.98575f, 1.69f, 2.0f, false); break;
	case 15: atan2_f(-2.62626f, -2.28319f, 1.69f, 2.0f, true); break;
	case 16: atan2_f(-3.0200299999999998f, -2.62626f, 1.69f, 2.0f, true); break;
	case 17: atan2_f(-3.47295f, -3.0200299999999998f, 1.69f, 2.0f, true); break;
	case 18: atan2_f(-3.99347f, -3.47295f, 1.69f, 2.0f, true); break;
	case 19: atan2_f(-4.59173f, -3.99347f, 1.69f, 2.0f, true); break;
	case 20: atan2_f(-5.28125f, -4.59173f, 1.69f, 2.0f, true); break;
	case 21: atan2_f(-6.07386f, -5.28125f, 1.69f, 2.0f, true); break;
	case 22: atan2_f(-6.98477f, -6.07386f, 1.69f, 2.0f, true); break;
	case 23: atan2_f(-9.778339999999998f, -6.98477f, 1.69f, 2.0f, true); break;
	case 24: atan2_f(-13.688999999999998f, -9.778339999999998f, 1.69f, 2.0f, true); break;
	case 25: atan2_f(-19.1646f, -13.688999999999998f, 1.69f, 2.0f, true); break;
	case 26: atan2_f(-26.83044f, -19.1646f, 1.69f, 2.0f, true); break;
	case 27: atan2_f(-37.56194f, -26.83044f, 1.69f, 2.0f, true); break;
	case 28: atan2_f(-1690.0f, -37.56194f, 1.69f, 2.0f, true); break;
	case 29: atan2_f(-1690000.0f, -1690.0f, 1.69f, 2.0f, true); break;
	case 30: atan2_f(-1690000000000.0f, -1690000.0f, 1.69f, 2.0f, true); break;
	}
}
ENTRY(quick_atan2_f2_0_0)
{
	switch (vs_pick(31)) {
	case 0: atan2_f(1.048576e-06f, 1.048576f, 1048576.0f, 1247805.44f, false); break;
	case 1: atan2_f(1.048576f, 104857.6f, 1048576.0f, 1247805.44f, false); break;
	case 2: atan2_f(104857.6f, 146800.64f, 1048576.0f, 1247805.44f, false); break;
	case 3: atan2_f(146800.64f, 205520.896f, 1048576.0f, 1247805.44f, false); break;
	case 4: atan2_f(205520.896f, 287309.824f, 1048576.0f, 1247805.44f, false); break;
	case 5: atan2_f(287309.824f, 402653.184f, 1048576.0f, 1247805.44f, false); break;
	case 6: atan2_f(402653.184f, 463470.592f, 1048576.0f, 1247805.44f, false); break;
	case 7: atan2_f(463470.592f, 532676.608f, 1048576.0f, 1247805.44f, false); break;
	case 8: atan2_f(532676.608f, 612368.384f, 1048576.0f, 1247805.44f, false); break;
	case 9: atan2_f(612368.384f, 704643.072f, 1048576.0f, 1247805.44f, false); break;
	case 10: atan2_f(704643.072f, 810549.248f, 1048576.0f, 1247805.44f, false); break;
	case 11: atan2_f(810549.248f, 932184.064f, 1048576.0f, 1247805.44f, false); break;
	case 12: atan2_f(932184.064f, 1071644.672f, 1048576.0f, 1247805.44f, false); break;
	case 13: atan2_f(1071644.672f, 1232076.8f, 1048576.0f, 1247805.44f, false); break;
	case 14: atan2_f(1232076.8f, 1416626.176f, 1048576.0f, 1247805.44f, false); break;
	case 15: atan2_f(1416626.176f, 1629487.104f, 1048576.0f, 1247805.44f, true); break;
	case 16: atan2_f(1629487.104f, 1873805.312f, 1048576.0f, 1247805.44f, true); break;
	case 17: atan2_f(1873805.312f, 2154823.68f, 1048576.0f, 1247805.44f, true); break;
	case 18: atan2_f(2154823.68f, 2477785.088f, 1048576.0f, 1247805.44f, true); break;
	case 19: atan2_f(2477785.088f, 2848980.992f, 1048576.0f, 1247805.44f, true); break;
	case 20: atan2_f(2848980.992f, 3276800.0f, 1048576.0f, 1247805.44f, true); break;
	case 21: atan2_f(3276800.0f, 3768582.144f, 1048576.0f, 1247805.44f, true); break;
	case 22: atan2_f(3768582.144f, 4333764.608f, 1048576.0f, 1247805.44f, true); break;
	case 23: atan2_f(4333764.608f, 6067060.736f, 1048576.0f, 1247805.44f, true); break;
	case 24: atan2_f(6067060.736f, 8493465.6f, 1048576.0f, 1247805.44f, true); break;
	case 25: atan2_f(8493465.6f, 11890851.84f, 1048576.0f, 1247805.44f, true); break;
	case 26: atan2_f(11890851.84f, 16647192.576f, 1048576.0f, 1247805.44f, true); break;
	case 27: atan2_f(16647192.576f, 23305650.176f, 1048576.0f, 1247805.44f, true); break;
	case 28: atan2_f(23305650.176f, 1048576000.0f, 1048576.0f, 1247805.44f, true); break;
	case 29: atan2_f(1048576000.0f, 1048576000000.0f, 1048576.0f, 1247805.44f, true); break;
	case 30: atan2_f(1048576000000.0f, 1.048576e+18f, 1048576.0f, 1247805.44f, true); break;
	}
}
ENTRY(quick_atan2_f2_1_1)
{
	switch (vs_pick(31)) {
	case 0: atan2_f(1.24780544e-06f, 1.2478054399999998f, -1488977.92f, -1247805.44f, false); break;
	case 1: atan2_f(1.2478054399999998f, 124780.544f, -1488977.92f, -1247805.44f, false); break;
	case 2: atan2_f(124780.544f, 174692.7616f, -1488977.92f, -1247805.44f, false); break;
	case 3: atan2_f(174692.7616f, 244569.86624f, -1488977.92f, -1247805.44f, false); break;
	case 4: atan2_f(244569.86624f, 341898.69056f, -1488977.92f, -1247805.44f, false); break;
	case 5: atan2_f(341898.69056f, 479157.28896f, -1488977.92f, -1247805.44f, false); break;
	case 6: atan2_f(479157.28896f, 551530.00448f, -1488977.92f, -1247805.44f, false); break;
	case 7: atan2_f(551530.00448f, 633885.16352f, -1488977.92f, -1247805.44f, false); break;
	case 8: atan2_f(633885.16352f, 728718.3769599999f, -1488977.92f, -1247805.44f, false); break;
	case 9: atan2_f(728718.3769599999f, 838525.2556800001f, -1488977.92f, -1247805.44f, false); break;
	case 10: atan2_f(838525.2556800001f, 964553.60512f, -1488977.92f, -1247805.44f, false); break;
	case 11: atan2_f(964553.60512f, 1109299.03616f, -1488977.92f, -1247805.44f, false); break;
	case 12: atan2_f(1109299.03616f, 1275257.15968f, -1488977.92f, -1247805.44f, false); break;
	case 13: atan2_f(1275257.15968f, 1466171.392f, -1488977.92f, -1247805.44f, false); break;
	case 14: atan2_f(1466171.392f, 1685785.1494399998f, -1488977.92f, -1247805.44f, false); break;
	case 15: atan2_f(1685785.1494399998f, 1939089.65376f, -1488977.92f, -1247805.44f, true); break;
	case 16: atan2_f(1939089.65376f, 2229828.32128f, -1488977.92f, -1247805.44f, true); break;
	case 17: atan2_f(2229828.32128f, 2564240.1792f, -1488977.92f, -1247805.44f, true); break;
	case 18: atan2_f(2564240.1792f, 2948564.25472f, -1488977.92f, -1247805.44f, true); break;
	case 19: atan2_f(2948564.25472f, 3390287.38048f, -1488977.92f, -1247805.44f, true); break;
	case 20: atan2_f(3390287.38048f, 3899392.0f, -1488977.92f, -1247805.44f, true); break;
	case 21: atan2_f(3899392.0f, 4484612.751359999f, -1488977.92f, -1247805.44f, true); break;
	case 22: atan2_f(4484612.751359999f, 5157179.88352f, -1488977.92f, -1247805.44f, true); break;
	case 23: atan2_f(5157179.88352f, 7219802.275839999f, -1488977.92f, -1247805.44f, true); break;
	case 24: atan2_f(7219802.275839999f, 10107224.064f, -1488977.92f, -1247805.44f, true); break;
	case 25: atan2_f(10107224.064f, 14150113.689599998f, -1488977.92f, -1247805.44f, true); break;
	case 26: atan2_f(14150113.689599998f, 19810159.165439997f, -1488977.92f, -1247805.44f, true); break;
	case 27: atan2_f(19810159.165439997f, 27733723.709439997f, -1488977.92f, -1247805.44f, true); break;
	case 28: atan2_f(27733723.709439997f, 1247805440.0f, -1488977.92f, -1247805.44f, true); break;
	case 29: atan2_f(1247805440.0f, 1247805440000.0f, -1488977.92f, -1247805.44f, true); break;
	case 30: atan2_f(1247805440000.0f, 1.24780544e+18f, -1488977.92f, -1247805.44f, true); break;
	}
}
ENTRY(quick_atan2_f2_2_2)
{
	switch (vs_pick(31)) {
	case 0: atan2_f(-1.48897792f, -1.4889779199999998e-06f, -1772093.44f, -1488977.92f, false); break;
	case 1: atan2_f(-148897.792f, -1.48897792f, -1772093.44f, -1488977.92f, false); break;
	case 2: atan2_f(-208456.9088f, -148897.792f, -1772093.44f, -1488977.92f, false); break;
	case 3: atan2_f(-291839.67232f, -208456.9088f, -1772093.44f, -1488977.92f, false); break;
	case 4: atan2_f(-407979.95008000004f, -291839.67232f, -1772093.44f, -1488977.92f, false); break;
	case 5: atan2_f(-571767.52128f, -407979.95008000004f, -1772093.44f, -1488977.92f, false); break;
	case 6: atan2_f(-658128.24064f, -571767.52128f, -1772093.44f, -1488977.92f, false); break;
	case 7: atan2_f(-756400.78336f, -658128.24064f, -1772093.44f, -1488977.92f, false); break;
	case 8: atan2_f(-869563.1052799999f, -756400.78336f, -1772093.44f, -1488977.92f, false); break;
	case 9: atan2_f(-1000593.16224f, -869563.1052799999f, -1772093.44f, -1488977.92f, false); break;
	case 10: atan2_f(-1150979.93216f, -1000593.16224f, -1772093.44f, -1488977.92f, false); break;
	case 11: atan2_f(-1323701.37088f, -1150979.93216f, -1772093.44f, -1488977.92f, false); break;
	case 12: atan2_f(-1521735.4342399999f, -1323701.37088f, -1772093.44f, -1488977.92f, false); break;
	case 13: atan2_f(-1749549.0559999999f, -1521735.4342399999f, -1772093.44f, -1488977.92f, false); break;
	case 14: atan2_f(-2011609.1699199998f, -1749549.0559999999f, -1772093.44f, -1488977.92f, false); break;
	case 15: atan2_f(-2313871.68768f, -2011609.1699199998f, -1772093.44f, -1488977.92f, true); break;
	case 16: atan2_f(-2660803.54304f, -2313871.68768f, -1772093.44f, -1488977.92f, true); break;
	case 17: atan2_f(-3059849.6256f, -2660803.54304f, -1772093.44f, -1488977.92f, true); break;
	case 18: atan2_f(-3518454.82496f, -3059849.6256f, -1772093.44f, -1488977.92f, true); break;
	case 19: atan2_f(-4045553.00864f, -3518454.82496f, -1772093.44f, -1488977.92f, true); break;
	case 20: atan2_f(-4653056.0f, -4045553.00864f, -1772093.44f, -1488977.92f, true); break;
	case 21: atan2_f(-5351386.644479999f, -4653056.0f, -1772093.44f, -1488977.92f, true); break;
	case 22: atan2_f(-6153945.74336f, -5351386.644479999f, -1772093.44f, -1488977.92f, true); break;
	case 23: atan2_f(-8615226.245119998f, -6153945.74336f, -1772093.44f, -1488977.92f, true); break;
	case 24: atan2_f(-12060721.151999999f, -8615226.245119998f, -1772093.44f, -1488977.92f, true); break;
	case 25: atan2_f(-16885009.6128f, -12060721.151999999f, -1772093.44f, -1488977.92f, true); break;
	case 26: atan2_f(-23639013.457919996f, -16885009.6128f, -1772093.44f, -1488977.92f, true); break;
	case 27: atan2_f(-33094023.249919996f, -23639013.457919996f, -1772093.44f, -1488977.92f, true); break;
	case 28: atan2_f(-1488977920.0f, -33094023.249919996f, -1772093.44f, -1488977.92f, true); break;
	case 29: atan2_f(-1488977920000.0f, -1488977920.0f, -1772093.44f, -1488977.92f, true); break;
	case 30: atan2_f(-1.48897792e+18f, -1488977920000.0f, -1772093.44f, -1488977.92f, true); break;
	}
}
ENTRY(quick_atan2_f2_3_3)
{
	switch (vs_pick(31)) {
	case 0: atan2_f(-1.77209344f, -1.7720934399999999e-06f, 1772093.44f, 2097152.0f, false); break;
	case 1: atan2_f(-177209.344f, -1.77209344f, 1772093.44f, 2097152.0f, false); break;
	case 2: atan2_f(-248093.0816f, -177209.344f, 1772093.44f, 2097152.0f, false); break;
	case 3: atan2_f(-347330.31424f, -248093.0816f, 1772093.44f, 2097152.0f, false); break;
	case 4: atan2_f(-485553.60256f, -347330.31424f, 1772093.44f, 2097152.0f, false); break;
	case 5: atan2_f(-680483.88096f, -485553.60256f, 1772093.44f, 2097152.0f, false); break;
	case 6: atan2_f(-783265.30048f, -680483.88096f, 1772093.44f, 2097152.0f, false); break;
	case 7: atan2_f(-900223.46752f, -783265.30048f, 1772093.44f, 2097152.0f, false); break;
	case 8: atan2_f(-1034902.56896f, -900223.46752f, 1772093.44f, 2097152.0f, false); break;
	case 9: atan2_f(-1190846.79168f, -1034902.56896f, 1772093.44f, 2097152.0f, false); break;
	case 10: atan2_f(-1369828.22912f, -1190846.79168f, 1772093.44f, 2097152.0f, false); break;
	case 11: atan2_f(-1575391.06816f, -1369828.22912f, 1772093.44f, 2097152.0f, false); break;
	case 12: atan2_f(-1811079.49568f, -1575391.06816f, 1772093.44f, 2097152.0f, false); break;
	case 13: atan2_f(-2082209.792f, -1811079.49568f, 1772093.44f, 2097152.0f, false); break;
	case 14: atan2_f(-2394098.23744f, -2082209.792f, 1772093.44f, 2097152.0f, false); break;
	case 15: atan2_f(-2753833.20576f, -2394098.23744f, 1772093.44f, 2097152.0f, true); break;
	case 16: atan2_f(-3166730.9772799998f, -2753833.20576f, 1772093.44f, 2097152.0f, true); break;
	case 17: atan2_f(-3641652.0192f, -3166730.9772799998f, 1772093.44f, 2097152.0f, true); break;
	case 18: atan2_f(-4187456.79872f, -3641652.0192f, 1772093.44f, 2097152.0f, true); break;
	case 19: atan2_f(-4814777.87648f, -4187456.79872f, 1772093.44f, 2097152.0f, true); break;
	case 20: atan2_f(-5537792.0f, -4814777.87648f, 1772093.44f, 2097152.0f, true); break;
	case 21: atan2_f(-6368903.82336f, -5537792.0f, 1772093.44f, 2097152.0f, true); break;
	case 22: atan2_f(-7324062.18752f, -6368903.82336f, 1772093.44f, 2097152.0f, true); break;
	case 23: atan2_f(-10253332.643839998f, -7324062.18752f, 1772093.44f, 2097152.0f, true); break;
	case 24: atan2_f(-14353956.863999998f, -10253332.643839998f, 1772093.44f, 2097152.0f, true); break;
	case 25: atan2_f(-20095539.6096f, -14353956.863999998f, 1772093.44f, 2097152.0f, true); break;
	case 26: atan2_f(-28133755.45344f, -20095539.6096f, 1772093.44f, 2097152.0f, true); break;
	case 27: atan2_f(-39386548.79744f, -28133755.45344f, 1772093.44f, 2097152.0f, true); break;
	case 28: atan2_f(-1772093440.0f, -39386548.79744f, 1772093.44f, 2097152.0f, true); break;
	case 29: atan2_f(-1772093440000.0f, -1772093440.0f, 1772093.44f, 2097152.0f, true); break;
	case 30: atan2_f(-1.77209344e+18f, -1772093440000.0f, 1772093.44f, 2097152.0f, true); break;
	}
}
ENTRY(quick_atan2_small)
{
	// y / x underflows
	switch (vs_pick(4)) {
	case 0: atan2_f(1e-44f, 1e-38f, -1e10f, -1e8f, false); break;
	case 1: atan2_f(-1e-38f, -1e-44f, -1e10f, -1e8f, false); break;
	case 2: atan2_f(1e-44f, 1e-38f, 1e8f, 1e10f, false); break;
	case 3: atan2_f(-1e-38f, -1e-44f, 1e8f, 1e10f, false); break;
	}
}
template <typename TYPE>
static void axes(TYPE v, bool negzero)
{
	vassume(v == v);
	TYPE zero = negzero ? -TYPE(0) : TYPE(0);
	TYPE a = DSP::atan2(zero, v);
	TYPE b = v < 0 ? DSP::Const<TYPE>::Pi() : TYPE(0);
	vassert(a == (negzero ? -b : b), "angle on the real axis");
	vassert(std::signbit(a) == negzero, "sign of the angle on the real axis");
	if (v != 0)
		vassert(DSP::atan2(v, zero) == (v < 0 ? -DSP::Const<TYPE>::HalfPi() : DSP::Const<TYPE>::HalfPi()), "angle on the imaginary axis");
}
ENTRY(quick_axes_f) // vopt: mode=fp tm=0
{
	axes<float>(vs_f32_any("v"), false);
	axes<float>(vs_f32_any("w"), true);
}
ENTRY(quick_axes_d) // vopt: mode=fp tm=0
{
	axes<double>(vs_f64_any("v"), false);
	axes<double>(vs_f64_any("w"), true);
}
ENTRY(quick_const)
{
	vclose(DSP::Const<double>::Pi(), VPI, 5e-16L, "pi");
	vclose(DSP::Const<double>::TwoPi(), 2 * VPI, 1e-15L, "two pi");
	vclose(DSP::Const<double>::FourPi(), 4 * VPI, 2e-15L, "four pi");
	vclose(DSP::Const<double>::HalfPi(), VPI / 2, 3e-16L, "half pi");
	vclose(DSP::Const<double>::FourthPi(), VPI / 4, 2e-16L, "fourth of pi");
	vclose(DSP::Const<double>::EighthPi(), VPI / 8, 1e-16L, "eighth of pi");
	vclose(DSP::Const<double>::SqrtPi(), sqrtl(VPI), 3e-16L, "root of pi");
	vclose(DSP::Const<double>::SqrtTwoPi(), sqrtl(2 * VPI), 5e-16L, "root of two pi");
	vclose(DSP::Const<double>::InvSqrtTwo(), sqrtl(0.5L), 2e-16L, "root of one half");
	vclose(DSP::Const<float>::Pi(), VPI, 3e-7L, "pi");
	vclose(DSP::Const<float>::TwoPi(), 2 * VPI, 6e-7L, "two pi");
	vclose(DSP::Const<float>::HalfPi(), VPI / 2, 2e-7L, "half pi");
	vclose(DSP::Const<float>::FourthPi(), VPI / 4, 1e-7L, "fourth of pi");
}

// pairs at the ends of the number range
static void extreme_d(double scale)
{
	int sx = vs_pick(2) ? -1 : 1, sy = vs_pick(2) ? -1 : 1;
	static const double ratios[5] = { 0.3, 0.8, 1.3, 2, 3 };
	int k = vs_pick(5);
	double r = ratios[k];
	double y0 = sy * r * scale, x0 = sx * scale, y1 = 1.125 * y0, x1 = 1.125 * x0;
	atan2_d(y0 < y1 ? y0 : y1, y0 < y1 ? y1 : y0, x0 < x1 ? x0 : x1, x0 < x1 ? x1 : x0, k > 2);
}
static void extreme_f(float scale)
{
	int sx = vs_pick(2) ? -1 : 1, sy = vs_pick(2) ? -1 : 1;
	static const float ratios[5] = { 0.3, 0.8, 1.3, 2, 3 };
	int k = vs_pick(5);
	float r = ratios[k];
	float y0 = sy * r * scale, x0 = sx * scale, y1 = 1.125f * y0, x1 = 1.125f * x0;
	atan2_f(y0 < y1 ? y0 : y1, y0 < y1 ? y1 : y0, x0 < x1 ? x0 : x1, x0 < x1 ? x1 : x0, k > 2);
}
ENTRY(quick_tiny_d)
{ extreme_d(1e-200); }
ENTRY(quick_huge_d)
{ extreme_d(1e+200); }
ENTRY(quick_tiny_f)
{ extreme_f(1e-30f); }
ENTRY(quick_huge_f)
{ extreme_f(1e+30f); }
