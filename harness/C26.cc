// vfile: mode=real tm=1 tmbits=34
// bound: 5 complex samples of which one is symbolic within a box of 0.04 by 0.04, modulation index 0.5, 1 and 2, attack and decay rates and limits in several settings so that the tracked level rises, falls and is held by either limit (double, error bound 1e-6)
// bound: the second sample of any amplitude in 0.1 to 1.5 (8 pieces) at three directions, so that rising, falling and both limits are passed within one piece
// assume: the amplitude is not zero
#include "vs.h"
using std::min; using std::max; using std::abs;
namespace DSP { using std::sqrt; using std::cos; using std::sin; using std::atan2; }
#include "const.hh"
#include "complex.hh"
#include "utils.hh"
#include "amd.hh"

typedef DSP::Complex<double> cmplx;

struct Ref
{
	long double avg, a, d, l, h;
	Ref() : avg(0), a(0), d(0), l(0.001L), h(1) {}
	long double operator () (cmplx in, long double idx)
	{
		long double amp = sqrtl((long double)in.real() * in.real() + (long double)in.imag() * in.imag());
		avg += (amp < avg ? d : a) * (amp - avg);
		avg = avg < l ? l : avg > h ? h : avg;
		return (amp / avg * (1 + idx) - 1) / idx;
	}
};
static const double re[5] = { 0.5, -0.3, 0.9, 0.3, -1.1 }, im[5] = { 0.4, 0.4, -0.8, -0.5, 0.01 };
static void run(int which, double att, double dec, double lo, double hi, double idx)
{
	DSP::AMD1<cmplx> amd;
	Ref ref;
	amd.agc(att, dec, lo, hi);
	ref.a = att; ref.d = dec; ref.l = lo; ref.h = hi;
	amd.index(idx);
	for (int i = 0; i < 5; ++i) {
		cmplx in(re[i], im[i]);
		if (i == which)
			in = cmplx(vs_f64("re", re[i] - 0.02, re[i] + 0.02), vs_f64("im", im[i] - 0.02, im[i] + 0.02));
		double y = amd(in);
		vclose(y, ref(in, idx), 1e-6L, "amplitude relative to the tracked level");
	}
}
static void settings(int which)
{
	switch (vs_pick(7)) {
	case 0: run(which, 0.5, 0.25, 0.001, 2, 1); break;
	case 1: run(which, 0.125, 0.75, 0.001, 2, 1); break;
	case 2: run(which, 1, 1, 0.001, 2, 0.5); break;
	case 3: run(which, 0.5, 0.25, 0.7, 0.75, 1); break;
	case 4: run(which, 1, 0, 0.001, 2, 2); break;
	case 5: run(which, 0, 1, 0.25, 2, 1); break;
	case 6: run(which, 0.9, 0.01, 0.001, 1, 0.25); break;
	}
}
ENTRY(quick_0)
{ settings(0); }
ENTRY(quick_1)
{ settings(1); }
ENTRY(quick_2)
{ settings(2); }
ENTRY(quick_3)
{ settings(3); }
ENTRY(quick_4)
{ settings(4); }
static void along(double s, double lo, double hi)
{
	DSP::AMD1<cmplx> amd;
	Ref ref;
	amd.agc(0.5, 0.75, 0.4, 0.8);
	ref.a = 0.5; ref.d = 0.75; ref.l = 0.4; ref.h = 0.8;
	double t = vs_f64("t", lo, hi);
	cmplx in[3] = { cmplx(0, -1), cmplx(t, s * t), cmplx(0.5, 0.25) };
	for (int i = 0; i < 3; ++i) {
		double y = amd(in[i]);
		vclose(y, ref(in[i], 1), 1e-6L, "amplitude relative to the tracked level");
	}
}
static void pieces(double s)
{
	switch (vs_pick(8)) {
	case 0: along(s, 0.1, 0.15); break;
	case 1: along(s, 0.15, 0.2); break;
	case 2: along(s, 0.2, 0.3); break;
	case 3: along(s, 0.3, 0.4); break;
	case 4: along(s, 0.4, 0.6); break;
	case 5: along(s, 0.6, 0.8); break;
	case 6: along(s, 0.8, 1.1); break;
	case 7: along(s, 1.1, 1.5); break;
	}
}
ENTRY(quick_along0)
{ pieces(0); }
ENTRY(quick_along1)
{ pieces(0.5); }
ENTRY(quick_along2)
{ pieces(-2); }
ENTRY(quick_default)
{
	// the level starts and stays at the lower limit
	DSP::AMD1<cmplx> amd;
	Ref ref;
	for (int i = 0; i < 3; ++i) {
		cmplx in(re[i], im[i]);
		if (i == 1)
			in = cmplx(vs_f64("re", re[i] - 0.02, re[i] + 0.02), vs_f64("im", im[i] - 0.02, im[i] + 0.02));
		double y = amd(in);
		vclose(y, ref(in, 1), 1e-4L, "amplitude relative to the lower limit");
	}
}
ENTRY(quick_limits)
{
	// limits not given
	DSP::AMD1<cmplx> amd;
	Ref ref;
	amd.agc(0.5, 0.75);
	ref.a = 0.5; ref.d = 0.75; ref.l = 0.001; ref.h = 1;
	for (int i = 0; i < 6; ++i) {
		double s = i < 4 ? 1.5 : 1e-4;
		cmplx in(s * re[2], s * im[2]);
		if (i == 1)
			in = cmplx(vs_f64("re", 1.2, 1.3), vs_f64("im", -0.9, -0.8));
		double y = amd(in);
		vclose(y, ref(in, 1), 1e-6L, "amplitude relative to the level within the default limits");
	}
}
