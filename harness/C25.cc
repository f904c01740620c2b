// vfile: mode=real tm=1 tmbits=30
// bound: sequences of complex samples around 12 directions and amplitudes 1 and 0.7, one of them symbolic within boxes of 0.3 by 0.3, bandwidth 0.25 (double, error bound 1e-6); phase steps of both signs up to half a turn less 0.2
// bound: start state: phase zero; second output depends on the sample before
// assume: samples are not zero
#include "vs.h"
namespace DSP { using std::sqrt; using std::cos; using std::sin; using std::atan2; }
#include "const.hh"
#include "complex.hh"
#include "fmd.hh"

typedef DSP::Complex<double> cmplx;

static long double cross(cmplx a, cmplx b) { return (long double)a.real() * b.imag() - (long double)a.imag() * b.real(); }
static long double dot(cmplx a, cmplx b) { return (long double)a.real() * b.real() + (long double)a.imag() * b.imag(); }
static cmplx box(double re, double im)
{
	double w = 0.15;
	return cmplx(vs_f64("re", re - w, re + w), vs_f64("im", im - w, im + w));
}
// phase step in parts of the bandwidth
template <typename FMD>
static void check(cmplx a, cmplx b, cmplx c)
{
	double bw = 0.25;
	FMD fmd;
	fmd.bandwidth(bw);
	double y0 = fmd(a), y1 = fmd(b), y2 = fmd(c);
	vclose(y0, atan2l(a.imag(), a.real()) / (VPI * bw), 1e-6L, "phase step from zero");
	vclose(y1, atan2l(cross(a, b), dot(a, b)) / (VPI * bw), 1e-6L, "phase step");
	vclose(y2, atan2l(cross(b, c), dot(b, c)) / (VPI * bw), 1e-6L, "next phase step");
}
// sine of the step, amplitude of the sample before in parts of the current one
static void check4(cmplx a, cmplx b, cmplx c)
{
	double bw = 0.5;
	DSP::FMD4<cmplx> fmd;
	fmd.bandwidth(bw);
	double y0 = fmd(a), y1 = fmd(b), y2 = fmd(c);
	vclose(y0, cross(cmplx(1, 0), a) / dot(a, a) / (VPI * bw), 1e-6L, "step from zero");
	vclose(y1, cross(a, b) / dot(b, b) / (VPI * bw), 1e-6L, "step");
	vclose(y2, cross(b, c) / dot(c, c) / (VPI * bw), 1e-6L, "next step");
}
// central difference
static void check5(cmplx a, cmplx b, cmplx c)
{
	double bw = 0.5;
	DSP::FMD5<cmplx> fmd;
	fmd.bandwidth(bw);
	cmplx o(1, 0);
	double y0 = fmd(a), y1 = fmd(b), y2 = fmd(c), y3 = fmd(a);
	vclose(y0, (cross(o, a) - cross(o, o)) / (2 * VPI * bw), 1e-6L, "step from zero");
	vclose(y1, (cross(a, b) - cross(a, o)) / dot(a, a) / (2 * VPI * bw), 1e-6L, "first step");
	vclose(y2, (cross(b, c) - cross(b, a)) / dot(b, b) / (2 * VPI * bw), 1e-6L, "step");
	vclose(y3, (cross(c, a) - cross(c, b)) / dot(c, c) / (2 * VPI * bw), 1e-6L, "next step");
}
ENTRY(quick_phase1_0)
{
	switch (vs_pick(6)) {
	case 0: check<DSP::FMD1<cmplx>>(cmplx(0.8863, -0.1563), box(0.9848, 0.1736), cmplx(-0.7713, -0.9193)); break;
	case 1: check<DSP::FMD1<cmplx>>(cmplx(0.2329, 0.8693), box(0.7660, 0.6428), cmplx(-1.1276, 0.4104)); break;
	case 2: check<DSP::FMD1<cmplx>>(cmplx(0.8863, -0.1563), box(0.3420, 0.9397), cmplx(1.1276, -0.4104)); break;
	case 3: check<DSP::FMD1<cmplx>>(cmplx(-0.8457, -0.3078), box(-0.1736, 0.9848), cmplx(-1.1276, 0.4104)); break;
	case 4: check<DSP::FMD1<cmplx>>(cmplx(0.9000, 0.1000), box(-0.6428, 0.7660), cmplx(-0.3106, 1.1591)); break;
	case 5: check<DSP::FMD1<cmplx>>(cmplx(0.5785, -0.6894), box(-0.9397, 0.3420), cmplx(-1.1276, -0.4104)); break;
	}
}
ENTRY(quick_phase1_1)
{
	switch (vs_pick(6)) {
	case 0: check<DSP::FMD1<cmplx>>(cmplx(-0.2329, -0.8693), box(-0.7660, -0.6428), cmplx(1.1276, -0.4104)); break;
	case 1: check<DSP::FMD1<cmplx>>(cmplx(-0.8863, 0.1563), box(-0.3420, -0.9397), cmplx(-1.1276, 0.4104)); break;
	case 2: check<DSP::FMD1<cmplx>>(cmplx(0.8457, 0.3078), box(0.1736, -0.9848), cmplx(1.1276, -0.4104)); break;
	case 3: check<DSP::FMD1<cmplx>>(cmplx(-0.9000, -0.1000), box(0.6428, -0.7660), cmplx(0.3106, -1.1591)); break;
	case 4: check<DSP::FMD1<cmplx>>(cmplx(-0.5785, 0.6894), box(0.9397, -0.3420), cmplx(1.1276, 0.4104)); break;
	case 5: check<DSP::FMD1<cmplx>>(cmplx(0.8966, 0.0784), box(0.6344, 0.2958), cmplx(-0.5071, -1.0876)); break;
	}
}
ENTRY(quick_phase1_2)
{
	switch (vs_pick(6)) {
	case 0: check<DSP::FMD1<cmplx>>(cmplx(0.0000, 0.9000), box(0.4015, 0.5734), cmplx(-1.1954, 0.1046)); break;
	case 1: check<DSP::FMD1<cmplx>>(cmplx(0.8966, 0.0784), box(0.0610, 0.6973), cmplx(1.1954, -0.1046)); break;
	case 2: check<DSP::FMD1<cmplx>>(cmplx(-0.7372, -0.5162), box(-0.2958, 0.6344), cmplx(-1.1954, 0.1046)); break;
	case 3: check<DSP::FMD1<cmplx>>(cmplx(0.8693, 0.2329), box(-0.5734, 0.4015), cmplx(-0.6000, 1.0392)); break;
	case 4: check<DSP::FMD1<cmplx>>(cmplx(-0.8966, -0.0784), box(-0.6344, -0.2958), cmplx(0.5071, 1.0876)); break;
	case 5: check<DSP::FMD1<cmplx>>(cmplx(0.0000, -0.9000), box(-0.4015, -0.5734), cmplx(1.1954, -0.1046)); break;
	}
}
ENTRY(quick_phase1_3)
{
	switch (vs_pick(4)) {
	case 0: check<DSP::FMD1<cmplx>>(cmplx(-0.8966, -0.0784), box(-0.0610, -0.6973), cmplx(-1.1954, 0.1046)); break;
	case 1: check<DSP::FMD1<cmplx>>(cmplx(0.7372, 0.5162), box(0.2958, -0.6344), cmplx(1.1954, -0.1046)); break;
	case 2: check<DSP::FMD1<cmplx>>(cmplx(-0.8693, -0.2329), box(0.5734, -0.4015), cmplx(0.6000, -1.0392)); break;
	case 3: check<DSP::FMD1<cmplx>>(cmplx(-0.7372, 0.5162), box(0.6973, -0.0610), cmplx(0.9830, 0.6883)); break;
	}
}
ENTRY(quick_phase2_0)
{
	switch (vs_pick(6)) {
	case 0: check<DSP::FMD2<cmplx>>(cmplx(0.8863, -0.1563), box(0.9848, 0.1736), cmplx(-0.7713, -0.9193)); break;
	case 1: check<DSP::FMD2<cmplx>>(cmplx(0.2329, 0.8693), box(0.7660, 0.6428), cmplx(-1.1276, 0.4104)); break;
	case 2: check<DSP::FMD2<cmplx>>(cmplx(0.8863, -0.1563), box(0.3420, 0.9397), cmplx(1.1276, -0.4104)); break;
	case 3: check<DSP::FMD2<cmplx>>(cmplx(-0.8457, -0.3078), box(-0.1736, 0.9848), cmplx(-1.1276, 0.4104)); break;
	case 4: check<DSP::FMD2<cmplx>>(cmplx(0.9000, 0.1000), box(-0.6428, 0.7660), cmplx(-0.3106, 1.1591)); break;
	case 5: check<DSP::FMD2<cmplx>>(cmplx(0.5785, -0.6894), box(-0.9397, 0.3420), cmplx(-1.1276, -0.4104)); break;
	}
}
ENTRY(quick_phase2_1)
{
	switch (vs_pick(6)) {
	case 0: check<DSP::FMD2<cmplx>>(cmplx(-0.2329, -0.8693), box(-0.7660, -0.6428), cmplx(1.1276, -0.4104)); break;
	case 1: check<DSP::FMD2<cmplx>>(cmplx(-0.8863, 0.1563), box(-0.3420, -0.9397), cmplx(-1.1276, 0.4104)); break;
	case 2: check<DSP::FMD2<cmplx>>(cmplx(0.8457, 0.3078), box(0.1736, -0.9848), cmplx(1.1276, -0.4104)); break;
	case 3: check<DSP::FMD2<cmplx>>(cmplx(-0.9000, -0.1000), box(0.6428, -0.7660), cmplx(0.3106, -1.1591)); break;
	case 4: check<DSP::FMD2<cmplx>>(cmplx(-0.5785, 0.6894), box(0.9397, -0.3420), cmplx(1.1276, 0.4104)); break;
	case 5: check<DSP::FMD2<cmplx>>(cmplx(0.8966, 0.0784), box(0.6344, 0.2958), cmplx(-0.5071, -1.0876)); break;
	}
}
ENTRY(quick_phase2_2)
{
	switch (vs_pick(6)) {
	case 0: check<DSP::FMD2<cmplx>>(cmplx(0.0000, 0.9000), box(0.4015, 0.5734), cmplx(-1.1954, 0.1046)); break;
	case 1: check<DSP::FMD2<cmplx>>(cmplx(0.8966, 0.0784), box(0.0610, 0.6973), cmplx(1.1954, -0.1046)); break;
	case 2: check<DSP::FMD2<cmplx>>(cmplx(-0.7372, -0.5162), box(-0.2958, 0.6344), cmplx(-1.1954, 0.1046)); break;
	case 3: check<DSP::FMD2<cmplx>>(cmplx(0.8693, 0.2329), box(-0.5734, 0.4015), cmplx(-0.6000, 1.0392)); break;
	case 4: check<DSP::FMD2<cmplx>>(cmplx(-0.8966, -0.0784), box(-0.6344, -0.2958), cmplx(0.5071, 1.0876)); break;
	case 5: check<DSP::FMD2<cmplx>>(cmplx(0.0000, -0.9000), box(-0.4015, -0.5734), cmplx(1.1954, -0.1046)); break;
	}
}
ENTRY(quick_phase2_3)
{
	switch (vs_pick(4)) {
	case 0: check<DSP::FMD2<cmplx>>(cmplx(-0.8966, -0.0784), box(-0.0610, -0.6973), cmplx(-1.1954, 0.1046)); break;
	case 1: check<DSP::FMD2<cmplx>>(cmplx(0.7372, 0.5162), box(0.2958, -0.6344), cmplx(1.1954, -0.1046)); break;
	case 2: check<DSP::FMD2<cmplx>>(cmplx(-0.8693, -0.2329), box(0.5734, -0.4015), cmplx(0.6000, -1.0392)); break;
	case 3: check<DSP::FMD2<cmplx>>(cmplx(-0.7372, 0.5162), box(0.6973, -0.0610), cmplx(0.9830, 0.6883)); break;
	}
}
ENTRY(quick_phase3_0)
{
	switch (vs_pick(6)) {
	case 0: check<DSP::FMD3<cmplx>>(cmplx(0.8863, -0.1563), box(0.9848, 0.1736), cmplx(-0.7713, -0.9193)); break;
	case 1: check<DSP::FMD3<cmplx>>(cmplx(0.2329, 0.8693), box(0.7660, 0.6428), cmplx(-1.1276, 0.4104)); break;
	case 2: check<DSP::FMD3<cmplx>>(cmplx(0.8863, -0.1563), box(0.3420, 0.9397), cmplx(1.1276, -0.4104)); break;
	case 3: check<DSP::FMD3<cmplx>>(cmplx(-0.8457, -0.3078), box(-0.1736, 0.9848), cmplx(-1.1276, 0.4104)); break;
	case 4: check<DSP::FMD3<cmplx>>(cmplx(0.9000, 0.1000), box(-0.6428, 0.7660), cmplx(-0.3106, 1.1591)); break;
	case 5: check<DSP::FMD3<cmplx>>(cmplx(0.5785, -0.6894), box(-0.9397, 0.3420), cmplx(-1.1276, -0.4104)); break;
	}
}
ENTRY(quick_phase3_1)
{
	switch (vs_pick(6)) {
	case 0: check<DSP::FMD3<cmplx>>(cmplx(-0.2329, -0.8693), box(-0.7660, -0.6428), cmplx(1.1276, -0.4104)); break;
	case 1: check<DSP::FMD3<cmplx>>(cmplx(-0.8863, 0.1563), box(-0.3420, -0.9397), cmplx(-1.1276, 0.4104)); break;
	case 2: check<DSP::FMD3<cmplx>>(cmplx(0.8457, 0.3078), box(0.1736, -0.9848), cmplx(1.1276, -0.4104)); break;
	case 3: check<DSP::FMD3<cmplx>>(cmplx(-0.9000, -0.1000), box(0.6428, -0.7660), cmplx(0.3106, -1.1591)); break;
	case 4: check<DSP::FMD3<cmplx>>(cmplx(-0.5785, 0.6894), box(0.9397, -0.3420), cmplx(1.1276, 0.4104)); break;
	case 5: check<DSP::FMD3<cmplx>>(cmplx(0.8966, 0.0784), box(0.6344, 0.2958), cmplx(-0.5071, -1.0876)); break;
	}
}
ENTRY(quick_phase3_2)
{
	switch (vs_pick(6)) {
	case 0: check<DSP::FMD3<cmplx>>(cmplx(0.0000, 0.9000), box(0.4015, 0.5734), cmplx(-1.1954, 0.1046)); break;
	case 1: check<DSP::FMD3<cmplx>>(cmplx(0.8966, 0.0784), box(0.0610, 0.6973), cmplx(1.1954, -0.1046)); break;
	case 2: check<DSP::FMD3<cmplx>>(cmplx(-0.7372, -0.5162), box(-0.2958, 0.6344), cmplx(-1.1954, 0.1046)); break;
	case 3: check<DSP::FMD3<cmplx>>(cmplx(0.8693, 0.2329), box(-0.5734, 0.4015), cmplx(-0.6000, 1.0392)); break;
	case 4: check<DSP::FMD3<cmplx>>(cmplx(-0.8966, -0.0784), box(-0.6344, -0.2958), cmplx(0.5071, 1.0876)); break;
	case 5: check<DSP::FMD3<cmplx>>(cmplx(0.0000, -0.9000), box(-0.4015, -0.5734), cmplx(1.1954, -0.1046)); break;
	}
}
ENTRY(quick_phase3_3)
{
	switch (vs_pick(4)) {
	case 0: check<DSP::FMD3<cmplx>>(cmplx(-0.8966, -0.0784), box(-0.0610, -0.6973), cmplx(-1.1954, 0.1046)); break;
	case 1: check<DSP::FMD3<cmplx>>(cmplx(0.7372, 0.5162), box(0.2958, -0.6344), cmplx(1.1954, -0.1046)); break;
	case 2: check<DSP::FMD3<cmplx>>(cmplx(-0.8693, -0.2329), box(0.5734, -0.4015), cmplx(0.6000, -1.0392)); break;
	case 3: check<DSP::FMD3<cmplx>>(cmplx(-0.7372, 0.5162), box(0.6973, -0.0610), cmplx(0.9830, 0.6883)); break;
	}
}
ENTRY(quick_sine_0)
{
	switch (vs_pick(6)) {
	case 0: check4(cmplx(0.8863, -0.1563), box(0.9848, 0.1736), cmplx(-0.7713, -0.9193)); break;
	case 1: check4(cmplx(0.2329, 0.8693), box(0.7660, 0.6428), cmplx(-1.1276, 0.4104)); break;
	case 2: check4(cmplx(0.8863, -0.1563), box(0.3420, 0.9397), cmplx(1.1276, -0.4104)); break;
	case 3: check4(cmplx(-0.8457, -0.3078), box(-0.1736, 0.9848), cmplx(-1.1276, 0.4104)); break;
	case 4: check4(cmplx(0.9000, 0.1000), box(-0.6428, 0.7660), cmplx(-0.3106, 1.1591)); break;
	case 5: check4(cmplx(0.5785, -0.6894), box(-0.9397, 0.3420), cmplx(-1.1276, -0.4104)); break;
	}
}
ENTRY(quick_sine_1)
{
	switch (vs_pick(6)) {
	case 0: check4(cmplx(-0.2329, -0.8693), box(-0.7660, -0.6428), cmplx(1.1276, -0.4104)); break;
	case 1: check4(cmplx(-0.8863, 0.1563), box(-0.3420, -0.9397), cmplx(-1.1276, 0.4104)); break;
	case 2: check4(cmplx(0.8457, 0.3078), box(0.1736, -0.9848), cmplx(1.1276, -0.4104)); break;
	case 3: check4(cmplx(-0.9000, -0.1000), box(0.6428, -0.7660), cmplx(0.3106, -1.1591)); break;
	case 4: check4(cmplx(-0.5785, 0.6894), box(0.9397, -0.3420), cmplx(1.1276, 0.4104)); break;
	case 5: check4(cmplx(0.8966, 0.0784), box(0.6344, 0.2958), cmplx(-0.5071, -1.0876)); break;
	}
}
ENTRY(quick_sine_2)
{
	switch (vs_pick(6)) {
	case 0: check4(cmplx(0.0000, 0.9000), box(0.4015, 0.5734), cmplx(-1.1954, 0.1046)); break;
	case 1: check4(cmplx(0.8966, 0.0784), box(0.0610, 0.6973), cmplx(1.1954, -0.1046)); break;
	case 2: check4(cmplx(-0.7372, -0.5162), box(-0.2958, 0.6344), cmplx(-1.1954, 0.1046)); break;
	case 3: check4(cmplx(0.8693, 0.2329), box(-0.5734, 0.4015), cmplx(-0.6000, 1.0392)); break;
	case 4: check4(cmplx(-0.8966, -0.0784), box(-0.6344, -0.2958), cmplx(0.5071, 1.0876)); break;
	case 5: check4(cmplx(0.0000, -0.9000), box(-0.4015, -0.5734), cmplx(1.1954, -0.1046)); break;
	}
}
ENTRY(quick_sine_3)
{
	switch (vs_pick(4)) {
	case 0: check4(cmplx(-0.8966, -0.0784), box(-0.0610, -0.6973), cmplx(-1.1954, 0.1046)); break;
	case 1: check4(cmplx(0.7372, 0.5162), box(0.2958, -0.6344), cmplx(1.1954, -0.1046)); break;
	case 2: check4(cmplx(-0.8693, -0.2329), box(0.5734, -0.4015), cmplx(0.6000, -1.0392)); break;
	case 3: check4(cmplx(-0.7372, 0.5162), box(0.6973, -0.0610), cmplx(0.9830, 0.6883)); break;
	}
}
ENTRY(quick_central_0)
{
	switch (vs_pick(6)) {
	case 0: check5(cmplx(0.8863, -0.1563), box(0.9848, 0.1736), cmplx(-0.7713, -0.9193)); break;
	case 1: check5(cmplx(0.2329, 0.8693), box(0.7660, 0.6428), cmplx(-1.1276, 0.4104)); break;
	case 2: check5(cmplx(0.8863, -0.1563), box(0.3420, 0.9397), cmplx(1.1276, -0.4104)); break;
	case 3: check5(cmplx(-0.8457, -0.3078), box(-0.1736, 0.9848), cmplx(-1.1276, 0.4104)); break;
	case 4: check5(cmplx(0.9000, 0.1000), box(-0.6428, 0.7660), cmplx(-0.3106, 1.1591)); break;
	case 5: check5(cmplx(0.5785, -0.6894), box(-0.9397, 0.3420), cmplx(-1.1276, -0.4104)); break;
	}
}
ENTRY(quick_central_1)
{
	switch (vs_pick(6)) {
	case 0: check5(cmplx(-0.2329, -0.8693), box(-0.7660, -0.6428), cmplx(1.1276, -0.4104)); break;
	case 1: check5(cmplx(-0.8863, 0.1563), box(-0.3420, -0.9397), cmplx(-1.1276, 0.4104)); break;
	case 2: check5(cmplx(0.8457, 0.3078), box(0.1736, -0.9848), cmplx(1.1276, -0.4104)); break;
	case 3: check5(cmplx(-0.9000, -0.1000), box(0.6428, -0.7660), cmplx(0.3106, -1.1591)); break;
	case 4: check5(cmplx(-0.5785, 0.6894), box(0.9397, -0.3420), cmplx(1.1276, 0.4104)); break;
	case 5: check5(cmplx(0.8966, 0.0784), box(0.6344, 0.2958), cmplx(-0.5071, -1.0876)); break;
	}
}
ENTRY(quick_central_2)
{
	switch (vs_pick(6)) {
	case 0: check5(cmplx(0.0000, 0.9000), box(0.4015, 0.5734), cmplx(-1.1954, 0.1046)); break;
	case 1: check5(cmplx(0.8966, 0.0784), box(0.0610, 0.6973), cmplx(1.1954, -0.1046)); break;
	case 2: check5(cmplx(-0.7372, -0.5162), box(-0.2958, 0.6344), cmplx(-1.1954, 0.1046)); break;
	case 3: check5(cmplx(0.8693, 0.2329), box(-0.5734, 0.4015), cmplx(-0.6000, 1.0392)); break;
	case 4: check5(cmplx(-0.8966, -0.0784), box(-0.6344, -0.2958), cmplx(0.5071, 1.0876)); break;
	case 5: check5(cmplx(0.0000, -0.9000), box(-0.4015, -0.5734), cmplx(1.1954, -0.1046)); break;
	}
}
ENTRY(quick_central_3)
{
	switch (vs_pick(4)) {
	case 0: check5(cmplx(-0.8966, -0.0784), box(-0.0610, -0.6973), cmplx(-1.1954, 0.1046)); break;
	case 1: check5(cmplx(0.7372, 0.5162), box(0.2958, -0.6344), cmplx(1.1954, -0.1046)); break;
	case 2: check5(cmplx(-0.8693, -0.2329), box(0.5734, -0.4015), cmplx(0.6000, -1.0392)); break;
	case 3: check5(cmplx(-0.7372, 0.5162), box(0.6973, -0.0610), cmplx(0.9830, 0.6883)); break;
	}
}
