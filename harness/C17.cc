// vfile: mode=real tm=1 nfork=4
// bound: power of ten: every argument in [-300,300] (double, relative error bound 2e-14); every float in [-2,2] and around 30 and -30 (relative error bound 1e-5)
// bound: decibels: every ratio from 1e-6 to 1e6 and around 1e-12 and 1e12 (double, absolute error bound 1e-9 dB); back from every value in [-40,40] dB and around 800 and -800 dB (relative error bound 1e-13)
#include "vs.h"
namespace DSP { using std::sqrt; using std::nearbyint; }
#include "exp.hh"
#include "decibel.hh"

static void ten(double lo, double hi)
{
	double x = vs_f64("x", lo, hi);
	long double c = (lo + hi) / 2, want = powl(10, x - c);
	vclose(DSP::exp10(x) * powl(10, -c), want, 2e-14L, "power of ten");
}
static void tenf(float lo, float hi)
{
	float x = vs_f32("x", lo, hi);
	long double want = powl(10, x), tol = 1e-5L * powl(10, lo);
	vclose(DSP::exp10(x), want, tol, "power of ten (float)");
}
static void level(double lo, double hi)
{
	double x = vs_f64("x", lo, hi);
	vclose(DSP::decibel(x), 10 * log10l(x), 1e-9L, "decibels");
}
static void back(double lo, double hi)
{
	double x = vs_f64("x", lo, hi);
	long double c = (lo + hi) / 2, want = powl(10, (x - c) / 10);
	vclose(DSP::idecibel(x) * powl(10, -c / 10), want, 1e-13L, "back from decibels");
}
// 64 pieces of 0.1 from the start
static void tens(int start)
{
	double lo = start + 0.1 * vs_pick(64);
	ten(lo, lo + 0.1001);
}
ENTRY(quick_ten0)
{ tens(-300); }
ENTRY(quick_ten1)
{ tens(-294); }
ENTRY(quick_ten2)
{ tens(-288); }
ENTRY(quick_ten3)
{ tens(-282); }
ENTRY(quick_ten4)
{ tens(-276); }
ENTRY(quick_ten5)
{ tens(-270); }
ENTRY(quick_ten6)
{ tens(-264); }
ENTRY(quick_ten7)
{ tens(-258); }
ENTRY(quick_ten8)
{ tens(-252); }
ENTRY(quick_ten9)
{ tens(-246); }
ENTRY(quick_ten10)
{ tens(-240); }
ENTRY(quick_ten11)
{ tens(-234); }
ENTRY(quick_ten12)
{ tens(-228); }
ENTRY(quick_ten13)
{ tens(-222); }
ENTRY(quick_ten14)
{ tens(-216); }
ENTRY(quick_ten15)
{ tens(-210); }
ENTRY(quick_ten16)
{ tens(-204); }
ENTRY(quick_ten17)
{ tens(-198); }
ENTRY(quick_ten18)
{ tens(-192); }
ENTRY(quick_ten19)
{ tens(-186); }
ENTRY(quick_ten20)
{ tens(-180); }
ENTRY(quick_ten21)
{ tens(-174); }
ENTRY(quick_ten22)
{ tens(-168); }
ENTRY(quick_ten23)
{ tens(-162); }
ENTRY(quick_ten24)
{ tens(-156); }
ENTRY(quick_ten25)
{ tens(-150); }
ENTRY(quick_ten26)
{ tens(-144); }
ENTRY(quick_ten27)
{ tens(-138); }
ENTRY(quick_ten28)
{ tens(-132); }
ENTRY(quick_ten29)
{ tens(-126); }
ENTRY(quick_ten30)
{ tens(-120); }
ENTRY(quick_ten31)
{ tens(-114); }
ENTRY(quick_ten32)
{ tens(-108); }
ENTRY(quick_ten33)
{ tens(-102); }
ENTRY(quick_ten34)
{ tens(-96); }
ENTRY(quick_ten35)
{ tens(-90); }
ENTRY(quick_ten36)
{ tens(-84); }
ENTRY(quick_ten37)
{ tens(-78); }
ENTRY(quick_ten38)
{ tens(-72); }
ENTRY(quick_ten39)
{ tens(-66); }
ENTRY(quick_ten40)
{ tens(-60); }
ENTRY(quick_ten41)
{ tens(-54); }
ENTRY(quick_ten42)
{ tens(-48); }
ENTRY(quick_ten43)
{ tens(-42); }
ENTRY(quick_ten44)
{ tens(-36); }
ENTRY(quick_ten45)
{ tens(-30); }
ENTRY(quick_ten46)
{ tens(-24); }
ENTRY(quick_ten47)
{ tens(-18); }
ENTRY(quick_ten48)
{ tens(-12); }
ENTRY(quick_ten49)
{ tens(-6); }
ENTRY(quick_ten50)
{ tens(0); }
ENTRY(quick_ten51)
{ tens(6); }
ENTRY(quick_ten52)
{ tens(12); }
ENTRY(quick_ten53)
{ tens(18); }
ENTRY(quick_ten54)
{ tens(24); }
ENTRY(quick_ten55)
{ tens(30); }
ENTRY(quick_ten56)
{ tens(36); }
ENTRY(quick_ten57)
{ tens(42); }
ENTRY(quick_ten58)
{ tens(48); }
ENTRY(quick_ten59)
{ tens(54); }
ENTRY(quick_ten60)
{ tens(60); }
ENTRY(quick_ten61)
{ tens(66); }
ENTRY(quick_ten62)
{ tens(72); }
ENTRY(quick_ten63)
{ tens(78); }
ENTRY(quick_ten64)
{ tens(84); }
ENTRY(quick_ten65)
{ tens(90); }
ENTRY(quick_ten66)
{ tens(96); }
ENTRY(quick_ten67)
{ tens(102); }
ENTRY(quick_ten68)
{ tens(108); }
ENTRY(quick_ten69)
{ tens(114); }
ENTRY(quick_ten70)
{ tens(120); }
ENTRY(quick_ten71)
{ tens(126); }
ENTRY(quick_ten72)
{ tens(132); }
ENTRY(quick_ten73)
{ tens(138); }
ENTRY(quick_ten74)
{ tens(144); }
ENTRY(quick_ten75)
{ tens(150); }
ENTRY(quick_ten76)
{ tens(156); }
ENTRY(quick_ten77)
{ tens(162); }
ENTRY(quick_ten78)
{ tens(168); }
ENTRY(quick_ten79)
{ tens(174); }
ENTRY(quick_ten80)
{ tens(180); }
ENTRY(quick_ten81)
{ tens(186); }
ENTRY(quick_ten82)
{ tens(192); }
ENTRY(quick_ten83)
{ tens(198); }
ENTRY(quick_ten84)
{ tens(204); }
ENTRY(quick_ten85)
{ tens(210); }
ENTRY(quick_ten86)
{ tens(216); }
ENTRY(quick_ten87)
{ tens(222); }
ENTRY(quick_ten88)
{ tens(228); }
ENTRY(quick_ten89)
{ tens(234); }
ENTRY(quick_ten90)
{ tens(240); }
ENTRY(quick_ten91)
{ tens(246); }
ENTRY(quick_ten92)
{ tens(252); }
ENTRY(quick_ten93)
{ tens(258); }
ENTRY(quick_ten94)
{ tens(264); }
ENTRY(quick_ten95)
{ tens(270); }
ENTRY(quick_ten96)
{ tens(276); }
ENTRY(quick_ten97)
{ tens(282); }
ENTRY(quick_ten98)
{ tens(288); }
ENTRY(quick_ten99)
{ tens(294); }
ENTRY(quick_float0)
{
	switch (vs_pick(16)) {
	case 0: tenf(-2, -1.95); break;
	case 1: tenf(-1.95, -1.9); break;
	case 2: tenf(-1.9, -1.85); break;
	case 3: tenf(-1.85, -1.8); break;
	case 4: tenf(-1.8, -1.75); break;
	case 5: tenf(-1.75, -1.7); break;
	case 6: tenf(-1.7, -1.65); break;
	case 7: tenf(-1.65, -1.6); break;
	case 8: tenf(-1.6, -1.55); break;
	case 9: tenf(-1.55, -1.5); break;
	case 10: tenf(-1.5, -1.45); break;
	case 11: tenf(-1.45, -1.4); break;
	case 12: tenf(-1.4, -1.35); break;
	case 13: tenf(-1.35, -1.3); break;
	case 14: tenf(-1.3, -1.25); break;
	case 15: tenf(-1.25, -1.2); break;
	}
}
ENTRY(quick_float1)
{
	switch (vs_pick(16)) {
	case 0: tenf(-1.2, -1.15); break;
	case 1: tenf(-1.15, -1.1); break;
	case 2: tenf(-1.1, -1.05); break;
	case 3: tenf(-1.05, -1); break;
	case 4: tenf(-1, -0.95); break;
	case 5: tenf(-0.95, -0.9); break;
	case 6: tenf(-0.9, -0.85); break;
	case 7: tenf(-0.85, -0.8); break;
	case 8: tenf(-0.8, -0.75); break;
	case 9: tenf(-0.75, -0.7); break;
	case 10: tenf(-0.7, -0.65); break;
	case 11: tenf(-0.65, -0.6); break;
	case 12: tenf(-0.6, -0.55); break;
	case 13: tenf(-0.55, -0.5); break;
	case 14: tenf(-0.5, -0.45); break;
	case 15: tenf(-0.45, -0.4); break;
	}
}
ENTRY(quick_float2)
{
	switch (vs_pick(16)) {
	case 0: tenf(-0.4, -0.35); break;
	case 1: tenf(-0.35, -0.3); break;
	case 2: tenf(-0.3, -0.25); break;
	case 3: tenf(-0.25, -0.2); break;
	case 4: tenf(-0.2, -0.15); break;
	case 5: tenf(-0.15, -0.1); break;
	case 6: tenf(-0.1, -0.05); break;
	case 7: tenf(-0.05, 0); break;
	case 8: tenf(0, 0.05); break;
	case 9: tenf(0.05, 0.1); break;
	case 10: tenf(0.1, 0.15); break;
	case 11: tenf(0.15, 0.2); break;
	case 12: tenf(0.2, 0.25); break;
	case 13: tenf(0.25, 0.3); break;
	case 14: tenf(0.3, 0.35); break;
	case 15: tenf(0.35, 0.4); break;
	}
}
ENTRY(quick_float3)
{
	switch (vs_pick(16)) {
	case 0: tenf(0.4, 0.45); break;
	case 1: tenf(0.45, 0.5); break;
	case 2: tenf(0.5, 0.55); break;
	case 3: tenf(0.55, 0.6); break;
	case 4: tenf(0.6, 0.65); break;
	case 5: tenf(0.65, 0.7); break;
	case 6: tenf(0.7, 0.75); break;
	case 7: tenf(0.75, 0.8); break;
	case 8: tenf(0.8, 0.85); break;
	case 9: tenf(0.85, 0.9); break;
	case 10: tenf(0.9, 0.95); break;
	case 11: tenf(0.95, 1); break;
	case 12: tenf(1, 1.05); break;
	case 13: tenf(1.05, 1.1); break;
	case 14: tenf(1.1, 1.15); break;
	case 15: tenf(1.15, 1.2); break;
	}
}
ENTRY(quick_float4)
{
	switch (vs_pick(16)) {
	case 0: tenf(1.2, 1.25); break;
	case 1: tenf(1.25, 1.3); break;
	case 2: tenf(1.3, 1.35); break;
	case 3: tenf(1.35, 1.4); break;
	case 4: tenf(1.4, 1.45); break;
	case 5: tenf(1.45, 1.5); break;
	case 6: tenf(1.5, 1.55); break;
	case 7: tenf(1.55, 1.6); break;
	case 8: tenf(1.6, 1.65); break;
	case 9: tenf(1.65, 1.7); break;
	case 10: tenf(1.7, 1.75); break;
	case 11: tenf(1.75, 1.8); break;
	case 12: tenf(1.8, 1.85); break;
	case 13: tenf(1.85, 1.9); break;
	case 14: tenf(1.9, 1.95); break;
	case 15: tenf(1.95, 2); break;
	}
}
ENTRY(quick_float5)
{
	switch (vs_pick(16)) {
	case 0: tenf(29.8, 29.85); break;
	case 1: tenf(29.85, 29.9); break;
	case 2: tenf(29.9, 29.95); break;
	case 3: tenf(29.95, 30); break;
	case 4: tenf(30, 30.05); break;
	case 5: tenf(30.05, 30.1); break;
	case 6: tenf(30.1, 30.15); break;
	case 7: tenf(30.15, 30.2); break;
	case 8: tenf(-30.2, -30.15); break;
	case 9: tenf(-30.15, -30.1); break;
	case 10: tenf(-30.1, -30.05); break;
	case 11: tenf(-30.05, -30); break;
	case 12: tenf(-30, -29.95); break;
	case 13: tenf(-29.95, -29.9); break;
	case 14: tenf(-29.9, -29.85); break;
	case 15: tenf(-29.85, -29.8); break;
	}
}
ENTRY(quick_level0)
{
	switch (vs_pick(10)) {
	case 0: level(1e-06, 1.77828e-06); break;
	case 1: level(1.77828e-06, 3.16228e-06); break;
	case 2: level(3.16228e-06, 5.62341e-06); break;
	case 3: level(5.62341e-06, 1e-05); break;
	case 4: level(1e-05, 1.77828e-05); break;
	case 5: level(1.77828e-05, 3.16228e-05); break;
	case 6: level(3.16228e-05, 5.62341e-05); break;
	case 7: level(5.62341e-05, 0.0001); break;
	case 8: level(0.0001, 0.000177828); break;
	case 9: level(0.000177828, 0.000316228); break;
	}
}
ENTRY(quick_level1)
{
	switch (vs_pick(10)) {
	case 0: level(0.000316228, 0.000562341); break;
	case 1: level(0.000562341, 0.001); break;
	case 2: level(0.001, 0.00177828); break;
	case 3: level(0.00177828, 0.00316228); break;
	case 4: level(0.00316228, 0.00562341); break;
	case 5: level(0.00562341, 0.01); break;
	case 6: level(0.01, 0.0177828); break;
	case 7: level(0.0177828, 0.0316228); break;
	case 8: level(0.0316228, 0.0562341); break;
	case 9: level(0.0562341, 0.1); break;
	}
}
ENTRY(quick_level2)
{
	switch (vs_pick(10)) {
	case 0: level(0.1, 0.177828); break;
	case 1: level(0.177828, 0.316228); break;
	case 2: level(0.316228, 0.562341); break;
	case 3: level(0.562341, 1); break;
	case 4: level(1, 1.77828); break;
	case 5: level(1.77828, 3.16228); break;
	case 6: level(3.16228, 5.62341); break;
	case 7: level(5.62341, 10); break;
	case 8: level(10, 17.7828); break;
	case 9: level(17.7828, 31.6228); break;
	}
}
ENTRY(quick_level3)
{
	switch (vs_pick(10)) {
	case 0: level(31.6228, 56.2341); break;
	case 1: level(56.2341, 100); break;
	case 2: level(100, 177.828); break;
	case 3: level(177.828, 316.228); break;
	case 4: level(316.228, 562.341); break;
	case 5: level(562.341, 1000); break;
	case 6: level(1000, 1778.28); break;
	case 7: level(1778.28, 3162.28); break;
	case 8: level(3162.28, 5623.41); break;
	case 9: level(5623.41, 10000); break;
	}
}
ENTRY(quick_level4)
{
	switch (vs_pick(10)) {
	case 0: level(10000, 17782.8); break;
	case 1: level(17782.8, 31622.8); break;
	case 2: level(31622.8, 56234.1); break;
	case 3: level(56234.1, 100000); break;
	case 4: level(100000, 177828); break;
	case 5: level(177828, 316228); break;
	case 6: level(316228, 562341); break;
	case 7: level(562341, 1e+06); break;
	case 8: level(1e-12, 1.5e-12); break;
	case 9: level(1e12, 1.5e12); break;
	}
}
ENTRY(quick_back0)
{
	switch (vs_pick(16)) {
	case 0: back(-40, -39.5); break;
	case 1: back(-39.5, -39); break;
	case 2: back(-39, -38.5); break;
	case 3: back(-38.5, -38); break;
	case 4: back(-38, -37.5); break;
	case 5: back(-37.5, -37); break;
	case 6: back(-37, -36.5); break;
	case 7: back(-36.5, -36); break;
	case 8: back(-36, -35.5); break;
	case 9: back(-35.5, -35); break;
	case 10: back(-35, -34.5); break;
	case 11: back(-34.5, -34); break;
	case 12: back(-34, -33.5); break;
	case 13: back(-33.5, -33); break;
	case 14: back(-33, -32.5); break;
	case 15: back(-32.5, -32); break;
	}
}
ENTRY(quick_back1)
{
	switch (vs_pick(16)) {
	case 0: back(-32, -31.5); break;
	case 1: back(-31.5, -31); break;
	case 2: back(-31, -30.5); break;
	case 3: back(-30.5, -30); break;
	case 4: back(-30, -29.5); break;
	case 5: back(-29.5, -29); break;
	case 6: back(-29, -28.5); break;
	case 7: back(-28.5, -28); break;
	case 8: back(-28, -27.5); break;
	case 9: back(-27.5, -27); break;
	case 10: back(-27, -26.5); break;
	case 11: back(-26.5, -26); break;
	case 12: back(-26, -25.5); break;
	case 13: back(-25.5, -25); break;
	case 14: back(-25, -24.5); break;
	case 15: back(-24.5, -24); break;
	}
}
ENTRY(quick_back2)
{
	switch (vs_pick(16)) {
	case 0: back(-24, -23.5); break;
	case 1: back(-23.5, -23); break;
	case 2: back(-23, -22.5); break;
	case 3: back(-22.5, -22); break;
	case 4: back(-22, -21.5); break;
	case 5: back(-21.5, -21); break;
	case 6: back(-21, -20.5); break;
	case 7: back(-20.5, -20); break;
	case 8: back(-20, -19.5); break;
	case 9: back(-19.5, -19); break;
	case 10: back(-19, -18.5); break;
	case 11: back(-18.5, -18); break;
	case 12: back(-18, -17.5); break;
	case 13: back(-17.5, -17); break;
	case 14: back(-17, -16.5); break;
	case 15: back(-16.5, -16); break;
	}
}
ENTRY(quick_back3)
{
	switch (vs_pick(16)) {
	case 0: back(-16, -15.5); break;
	case 1: back(-15.5, -15); break;
	case 2: back(-15, -14.5); break;
	case 3: back(-14.5, -14); break;
	case 4: back(-14, -13.5); break;
	case 5: back(-13.5, -13); break;
	case 6: back(-13, -12.5); break;
	case 7: back(-12.5, -12); break;
	case 8: back(-12, -11.5); break;
	case 9: back(-11.5, -11); break;
	case 10: back(-11, -10.5); break;
	case 11: back(-10.5, -10); break;
	case 12: back(-10, -9.5); break;
	case 13: back(-9.5, -9); break;
	case 14: back(-9, -8.5); break;
	case 15: back(-8.5, -8); break;
	}
}
ENTRY(quick_back4)
{
	switch (vs_pick(16)) {
	case 0: back(-8, -7.5); break;
	case 1: back(-7.5, -7); break;
	case 2: back(-7, -6.5); break;
	case 3: back(-6.5, -6); break;
	case 4: back(-6, -5.5); break;
	case 5: back(-5.5, -5); break;
	case 6: back(-5, -4.5); break;
	case 7: back(-4.5, -4); break;
	case 8: back(-4, -3.5); break;
	case 9: back(-3.5, -3); break;
	case 10: back(-3, -2.5); break;
	case 11: back(-2.5, -2); break;
	case 12: back(-2, -1.5); break;
	case 13: back(-1.5, -1); break;
	case 14: back(-1, -0.5); break;
	case 15: back(-0.5, 0); break;
	}
}
ENTRY(quick_back5)
{
	switch (vs_pick(16)) {
	case 0: back(0, 0.5); break;
	case 1: back(0.5, 1); break;
	case 2: back(1, 1.5); break;
	case 3: back(1.5, 2); break;
	case 4: back(2, 2.5); break;
	case 5: back(2.5, 3); break;
	case 6: back(3, 3.5); break;
	case 7: back(3.5, 4); break;
	case 8: back(4, 4.5); break;
	case 9: back(4.5, 5); break;
	case 10: back(5, 5.5); break;
	case 11: back(5.5, 6); break;
	case 12: back(6, 6.5); break;
	case 13: back(6.5, 7); break;
	case 14: back(7, 7.5); break;
	case 15: back(7.5, 8); break;
	}
}
ENTRY(quick_back6)
{
	switch (vs_pick(16)) {
	case 0: back(8, 8.5); break;
	case 1: back(8.5, 9); break;
	case 2: back(9, 9.5); break;
	case 3: back(9.5, 10); break;
	case 4: back(10, 10.5); break;
	case 5: back(10.5, 11); break;
	case 6: back(11, 11.5); break;
	case 7: back(11.5, 12); break;
	case 8: back(12, 12.5); break;
	case 9: back(12.5, 13); break;
	case 10: back(13, 13.5); break;
	case 11: back(13.5, 14); break;
	case 12: back(14, 14.5); break;
	case 13: back(14.5, 15); break;
	case 14: back(15, 15.5); break;
	case 15: back(15.5, 16); break;
	}
}
ENTRY(quick_back7)
{
	switch (vs_pick(16)) {
	case 0: back(16, 16.5); break;
	case 1: back(16.5, 17); break;
	case 2: back(17, 17.5); break;
	case 3: back(17.5, 18); break;
	case 4: back(18, 18.5); break;
	case 5: back(18.5, 19); break;
	case 6: back(19, 19.5); break;
	case 7: back(19.5, 20); break;
	case 8: back(20, 20.5); break;
	case 9: back(20.5, 21); break;
	case 10: back(21, 21.5); break;
	case 11: back(21.5, 22); break;
	case 12: back(22, 22.5); break;
	case 13: back(22.5, 23); break;
	case 14: back(23, 23.5); break;
	case 15: back(23.5, 24); break;
	}
}
ENTRY(quick_back8)
{
	switch (vs_pick(16)) {
	case 0: back(24, 24.5); break;
	case 1: back(24.5, 25); break;
	case 2: back(25, 25.5); break;
	case 3: back(25.5, 26); break;
	case 4: back(26, 26.5); break;
	case 5: back(26.5, 27); break;
	case 6: back(27, 27.5); break;
	case 7: back(27.5, 28); break;
	case 8: back(28, 28.5); break;
	case 9: back(28.5, 29); break;
	case 10: back(29, 29.5); break;
	case 11: back(29.5, 30); break;
	case 12: back(30, 30.5); break;
	case 13: back(30.5, 31); break;
	case 14: back(31, 31.5); break;
	case 15: back(31.5, 32); break;
	}
}
ENTRY(quick_back9)
{
	switch (vs_pick(16)) {
	case 0: back(32, 32.5); break;
	case 1: back(32.5, 33); break;
	case 2: back(33, 33.5); break;
	case 3: back(33.5, 34); break;
	case 4: back(34, 34.5); break;
	case 5: back(34.5, 35); break;
	case 6: back(35, 35.5); break;
	case 7: back(35.5, 36); break;
	case 8: back(36, 36.5); break;
	case 9: back(36.5, 37); break;
	case 10: back(37, 37.5); break;
	case 11: back(37.5, 38); break;
	case 12: back(38, 38.5); break;
	case 13: back(38.5, 39); break;
	case 14: back(39, 39.5); break;
	case 15: back(39.5, 40); break;
	}
}
ENTRY(quick_back10)
{
	switch (vs_pick(16)) {
	case 0: back(798, 798.5); break;
	case 1: back(798.5, 799); break;
	case 2: back(799, 799.5); break;
	case 3: back(799.5, 800); break;
	case 4: back(800, 800.5); break;
	case 5: back(800.5, 801); break;
	case 6: back(801, 801.5); break;
	case 7: back(801.5, 802); break;
	case 8: back(-802, -801.5); break;
	case 9: back(-801.5, -801); break;
	case 10: back(-801, -800.5); break;
	case 11: back(-800.5, -800); break;
	case 12: back(-800, -799.5); break;
	case 13: back(-799.5, -799); break;
	case 14: back(-799, -798.5); break;
	case 15: back(-798.5, -798); break;
	}
}
