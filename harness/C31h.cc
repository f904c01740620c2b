// vfile: mode=real stub=1
// bound: header: widths and heights of one to four digits (symbolic within a number of digits), maximum 255, colour and grey, parameters read back
// bound: order of the samples: 2 pixels of colour and grey with and without stride (extreme values)
#include "vs.h"
#include "vio.h"
#include "netpbm.hh"

static int text(unsigned char *d, int v)
{
	int n = v > 999 ? 4 : v > 99 ? 3 : v > 9 ? 2 : 1;
	for (int i = n - 1; i >= 0; --i, v /= 10)
		d[i] = '0' + v % 10;
	return n;
}
static void header(int wl, int wh, int hl, int hh, bool mono)
{
	int w = vs_i32("w", wl, wh), h = vs_i32("h", hl, hh);
	{
		DSP::WritePNM<float> o(VIO_NAME, w, h, mono);
		vassert(o.width() == w && o.height() == h && o.mono() == mono && o.good(), "parameters of the writer");
	}
	unsigned char d[64], e[64];
	int len = vio_load(d, 64), n = 0;
	e[n++] = 'P';
	e[n++] = mono ? '5' : '6';
	e[n++] = ' ';
	n += text(e + n, w);
	e[n++] = ' ';
	n += text(e + n, h);
	e[n++] = ' ';
	n += text(e + n, 255);
	e[n++] = '\n';
	vassert(len == n, "length of the header");
	for (int i = 0; i < len; ++i)
		vassert(d[i] == e[i], "text of the header");
	DSP::ReadPNM<float> r(VIO_NAME);
	vassert(r.width() == w && r.height() == h && r.mono() == mono && r.good(), "parameters of the reader");
}
static void sizes(bool mono)
{
	switch (vs_pick(5)) {
	case 0: header(1, 9, 1, 9, mono); break;
	case 1: header(10, 99, 1, 9, mono); break;
	case 2: header(1, 9, 100, 999, mono); break;
	case 3: header(100, 999, 10, 99, mono); break;
	case 4: header(1000, 9999, 1, 9, mono); break;
	}
}
ENTRY(quick_grey)
{ sizes(true); }
ENTRY(quick_colour)
{ sizes(false); }
