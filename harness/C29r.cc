// vfile: mode=real stub=1
// bound: 8 and 16 bit: every sample in [-4,4], written and read back, alone and in frames of 2 and 3 channels with and without stride (double)
#include "vs.h"
#include "vio.h"
#include "wav.hh"

static int le(const unsigned char *d, int n)
{
	int v = 0;
	for (int i = 0; i < n; ++i)
		v += d[i] * (1 << (8 * i));
	return v;
}
// value of the sample in the file
static int stored(const unsigned char *d, int bits, int i)
{
	if (bits == 8)
		return d[44+i] - 128;
	int v = le(d + 44 + 2 * i, 2);
	return v > 32767 ? v - 65536 : v;
}
static void nearest(int v, double x, int bits)
{
	int top = bits == 8 ? 127 : 32767;
	long double t = top * (long double)x;
	if (x >= 1)
		vassert(v == top, "clipped at the top");
	else if (t <= -top - 1)
		vassert(v == -top - 1, "clipped at the bottom");
	else
		vassert(v - 0.501L <= t && t <= v + 0.501L, "nearest value");
}
static void one(int bits)
{
	double x = vs_f64("x", -4, 4), y = 7;
	{
		DSP::WriteWAV<double> w(VIO_NAME, 8000, bits, 1);
		w.write(&x, 1);
	}
	unsigned char d[64];
	vio_load(d, 64);
	nearest(stored(d, bits, 0), x, bits);
	DSP::ReadWAV<double> r(VIO_NAME);
	r.read(&y, 1);
	vclose(y, stored(d, bits, 0) / (bits == 8 ? 127.0L : 32767.0L), 1e-12L, "value read back");
}
ENTRY(quick_one8)
{ one(8); }
ENTRY(quick_one16)
{ one(16); }
static void inner(int v, double x, int bits)
{
	long double t = (bits == 8 ? 127 : 32767) * (long double)x;
	vassert(v - 0.501L <= t && t <= v + 0.501L, "nearest value in frames");
}
// two frames, silence, one frame; then read one frame, skip one and read the rest
static void many(int bits, int channels, int stride)
{
	double x[16], y[16];
	int step = stride < 0 ? channels : stride, top = bits == 8 ? 127 : 32767;
	for (int i = 0; i < 16; ++i)
		x[i] = 0.5;
	for (int n = 0; n < 3; ++n)
		for (int c = 0; c < channels; ++c)
			x[step*n+c] = (n + c) & 1 ? vs_f64("x", -0.9, -0.01) : vs_f64("x", 0.01, 0.9);
	{
		DSP::WriteWAV<double> w(VIO_NAME, 8000, bits, channels);
		if (stride < 0)
			w.write(x, 2);
		else
			w.write(x, 2, stride);
		w.silence(1);
		if (stride < 0)
			w.write(x + 2 * step, 1);
		else
			w.write(x + 2 * step, 1, stride);
		vassert(w.good(), "writer is good");
	}
	unsigned char d[128];
	int len = vio_load(d, 128);
	vassert(len == 44 + 4 * channels * bits / 8, "length of the file");
	for (int c = 0; c < channels; ++c) {
		inner(stored(d, bits, c), x[c], bits);
		inner(stored(d, bits, channels + c), x[step + c], bits);
		vassert(stored(d, bits, 2 * channels + c) == 0, "silence");
		inner(stored(d, bits, 3 * channels + c), x[2 * step + c], bits);
	}
	DSP::ReadWAV<double> r(VIO_NAME);
	vassert(r.frames() == 4, "number of frames");
	for (int i = 0; i < 16; ++i)
		y[i] = 7;
	if (stride < 0) {
		r.read(y, 1);
		r.skip(1);
		r.read(y + step, 2);
	} else {
		r.read(y, 1, stride);
		r.skip(1);
		r.read(y + step, 2, stride);
	}
	for (int c = 0; c < step; ++c) {
		vclose(y[c], c < channels ? stored(d, bits, c) / (long double)top : 7, 1e-12L, "first frame");
		vclose(y[step + c], c < channels ? 0 : 7, 1e-12L, "frame after the skipped one");
		vclose(y[2 * step + c], c < channels ? stored(d, bits, 3 * channels + c) / (long double)top : 7, 1e-12L, "last frame");
	}
	vassert(r.good(), "all samples were there");
}
ENTRY(quick_many8)
{
	switch (vs_pick(4)) {
	case 0: many(8, 1, -1); break;
	case 1: many(8, 2, -1); break;
	case 2: many(8, 3, 5); break;
	case 3: many(8, 2, 3); break;
	}
}
ENTRY(quick_many16)
{
	switch (vs_pick(4)) {
	case 0: many(16, 1, -1); break;
	case 1: many(16, 2, -1); break;
	case 2: many(16, 3, 5); break;
	case 3: many(16, 2, 3); break;
	}
}
