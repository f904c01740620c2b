// vfile: mode=real tm=1 tmbits=40 stub=1
// bound: every linear value from -1 to 2 written with maximum 255, 127 and 15 (nearest value to within 0.501), double
// assume: file streams are replaced by a file in memory when executed symbolically; counterexamples are replayed with real files
#include "vs.h"
#include "vio.h"
#include "netpbm.hh"

static long double companded(long double v)
{
	return v <= 0.04045L / 12.92L ? 12.92L * v : 1.055L * powl(v, 1 / 2.4L) - 0.055L;
}
// last byte of the file
static int last()
{
	unsigned char d[64];
	return d[vio_load(d, 64)-1];
}
static void out(double lo, double hi, int max)
{
	double x = vs_f64("x", lo, hi);
	{
		DSP::WritePNM<double> w(VIO_NAME, 1, 1, true, max);
		w.write(&x, 1);
	}
	int v = last();
	long double t = max * (hi <= 0 ? 0 : lo >= 1 ? 1 : companded(x));
	vassert(v - 0.501L <= t && t <= v + 0.501L, "nearest companded value");
}
static void outs(int max)
{
	switch (vs_pick(15)) {
	case 0: out(-1, 0, max); break;
	case 1: out(0, 0.0031, max); break;
	case 2: out(0.0031, 0.0032, max); break;
	case 3: out(0.0032, 0.006, max); break;
	case 4: out(0.006, 0.012, max); break;
	case 5: out(0.012, 0.025, max); break;
	case 6: out(0.025, 0.05, max); break;
	case 7: out(0.05, 0.1, max); break;
	case 8: out(0.1, 0.22, max); break;
	case 9: out(0.22, 0.47, max); break;
	case 10: out(0.47, 0.7, max); break;
	case 12: out(0.7, 0.85, max); break;
	case 13: out(0.85, 0.94, max); break;
	case 14: out(0.94, 1, max); break;
	case 11: out(1, 2, max); break;
	}
}
ENTRY(quick_out255)
{ outs(255); }
ENTRY(quick_out127)
{ outs(127); }
ENTRY(quick_out15)
{ outs(15); }
