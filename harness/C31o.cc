// vfile: mode=real stub=1
#include "vs.h"
#include "vio.h"
#include "netpbm.hh"

// values on the straight part of the curve
static void order(bool mono, int stride)
{
	double x[12], y[12];
	int n = mono ? 1 : 3, step = stride < 0 ? n : stride;
	for (int i = 0; i < 12; ++i) {
		x[i] = vs_f64("x", 0, 0.003);
		y[i] = 7;
	}
	{
		DSP::WritePNM<double> w(VIO_NAME, 1, 2, mono);
		if (stride < 0)
			w.write(x, 2);
		else
			w.write(x, 2, stride);
		vassert(w.good(), "writer is good");
	}
	unsigned char d[64];
	int len = vio_load(d, 64), head = 11;
	vassert(len == head + 2 * n, "length of the file");
	for (int i = 0; i < 2; ++i) {
		for (int c = 0; c < n; ++c) {
			long double t = 255 * 12.92L * x[step*i+c];
			int v = d[head+n*i+c];
			vassert(v - 0.501L <= t && t <= v + 0.501L, "order of the samples");
		}
	}
	DSP::ReadPNM<double> r(VIO_NAME);
	if (stride < 0)
		r.read(y, 2);
	else
		r.read(y, 2, stride);
	for (int i = 0; i < 2; ++i)
		for (int c = 0; c < step; ++c)
			vclose(y[step*i+c], c < n ? d[head+n*i+c] / (255 * 12.92L) : 7, 1e-9L, "order of the samples read");
	vassert(r.good(), "all samples were there");
}
ENTRY(quick_order)
{
	switch (vs_pick(5)) {
	case 0: order(true, -1); break;
	case 1: order(false, -1); break;
	case 2: order(true, 3); break;
	case 3: order(false, 4); break;
	case 4: order(true, 1); break;
	}
}
