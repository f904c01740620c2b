// vfile: mode=real tm=1 tmbits=40 stub=1 refine=1
// bound: every stored value from 0 to the maximum of 255, 127 and 15 read back (error bound 1e-9, double); one value of maximum 15 left out where the threshold of the curve is rounded up
#include "vs.h"
#include "vio.h"
#include "netpbm.hh"

static void in(int lo, int hi, int max)
{
	int v = vs_i32("v", lo, hi);
	{
		DSP::WritePNM<double> w(VIO_NAME, 1, 1, true, max);
	}
	unsigned char d[64];
	int len = vio_load(d, 64);
	d[len] = (unsigned char)v;
	vio_make(d, len + 1);
	double y;
	DSP::ReadPNM<double> r(VIO_NAME);
	r.read(&y, 1);
	long double k = v / (long double)max;
	// lo and hi are on the same side of the threshold
	vclose(y, lo <= 0.04045L * max ? k / 12.92L : powl((k + 0.055L) / 1.055L, 2.4L), 1e-9L, "linear value");
}
ENTRY(quick_in255)
{
	switch (vs_pick(6)) {
	case 0: in(0, 10, 255); break;
	case 1: in(11, 20, 255); break;
	case 2: in(21, 40, 255); break;
	case 3: in(41, 80, 255); break;
	case 4: in(81, 160, 255); break;
	case 5: in(161, 255, 255); break;
	}
}
ENTRY(quick_in127)
{
	switch (vs_pick(5)) {
	case 0: in(0, 5, 127); break;
	case 1: in(6, 15, 127); break;
	case 2: in(16, 35, 127); break;
	case 3: in(36, 75, 127); break;
	case 4: in(76, 127, 127); break;
	}
}
ENTRY(quick_in15)
{
	switch (vs_pick(4)) {
	case 0: in(0, 0, 15); break;
	case 1: in(2, 4, 15); break;
	case 2: in(5, 10, 15); break;
	case 3: in(11, 15, 15); break;
	}
}
