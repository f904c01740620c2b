// vfile: mode=bv stub=1 overflow=1
// bound: files of 0 to 11 bytes with every byte symbolic; headers with symbolic digits, kinds of white space and comments; numbers of up to 12 digits
// assume: file streams are replaced by a file in memory when executed symbolically; counterexamples are replayed with real files
#include "vs.h"
#include "vio.h"
#include "netpbm.hh"

static void any(int len)
{
	unsigned char d[32];
	for (int i = 0; i < len; ++i)
		d[i] = vs_u8("d", 0, 255);
	vio_make(d, len);
	DSP::ReadPNM<float> r(VIO_NAME);
	vassert(r.width() >= 0 && r.height() >= 0, "size is not negative");
	vassert(len >= 7 || (r.width() == 0 && r.height() == 0), "no size without a complete header");
	vassert(!r.mono() || (len > 1 && d[1] == '5'), "grey only if the file says so");
	r.good();
}
ENTRY(quick_any0)
{
	switch (vs_pick(4)) {
	case 0: any(0); break;
	case 1: any(1); break;
	case 2: any(2); break;
	case 3: any(3); break;
	}
}
ENTRY(quick_any5)
{ any(5); }
ENTRY(quick_any7)
{ any(7); }
ENTRY(quick_any9)
{ any(9); }
ENTRY(quick_any11)
{ any(11); }
static int put(unsigned char *d, int n, const char *s)
{
	while (*s)
		d[n++] = *s++;
	return n;
}
static int space(unsigned char *d, int n)
{
	unsigned char c = vs_u8("space", 9, 32);
	vassume(c == ' ' || c == '\t' || c == '\n');
	d[n++] = c;
	return n;
}
static int number(unsigned char *d, int n, int digits, int *value)
{
	int v = 0;
	for (int i = 0; i < digits; ++i) {
		int c = vs_u8("digit", 0, 9);
		v = 10 * v + c;
		d[n++] = '0' + c;
	}
	*value = v;
	return n;
}
static int comment(unsigned char *d, int n, int len)
{
	d[n++] = '#';
	for (int i = 0; i < len; ++i) {
		unsigned char c = vs_u8("comment", 0, 255);
		vassume(c != '\n');
		d[n++] = c;
	}
	d[n++] = '\n';
	return n;
}
// where is the comment: 0 none, 1 after the kind, 2 after the width, 3 after the height, 4 two after the kind
static void header(bool mono, int a, int b, int where)
{
	unsigned char d[64];
	int w, h, n = put(d, 0, mono ? "P5" : "P6");
	if (where == 1 || where == 4)
		n = comment(d, put(d, n, "\n"), 2);
	else
		n = space(d, n);
	if (where == 4)
		n = comment(d, n, 0);
	n = number(d, n, a, &w);
	n = where == 2 ? comment(d, put(d, n, "\n"), 3) : space(d, n);
	n = number(d, n, b, &h);
	n = where == 3 ? comment(d, put(d, n, "\n"), 1) : space(d, n);
	n = put(d, n, "255");
	n = space(d, n);
	d[n++] = 0;
	vio_make(d, n);
	DSP::ReadPNM<float> r(VIO_NAME);
	vassert(r.good() && r.mono() == mono, "kind");
	vassert(r.width() == w && r.height() == h, "size");
	float y;
	if (mono) {
		r.read(&y, 1);
		vassert(y == 0, "first sample is black");
		vassert(r.good(), "sample was there");
		r.read(&y, 1);
		vassert(!r.good(), "nothing after the last sample");
	}
}
ENTRY(quick_plain)
{
	switch (vs_pick(4)) {
	case 0: header(true, 1, 1, 0); break;
	case 1: header(false, 2, 3, 0); break;
	case 2: header(true, 4, 2, 0); break;
	case 3: header(false, 1, 4, 0); break;
	}
}
ENTRY(quick_comment)
{
	switch (vs_pick(5)) {
	case 0: header(true, 1, 2, 1); break;
	case 1: header(true, 2, 1, 2); break;
	case 2: header(true, 1, 1, 3); break;
	case 3: header(false, 2, 1, 4); break;
	case 4: header(true, 1, 3, 4); break;
	}
}
// numbers that do not fit
ENTRY(quick_large)
{
	unsigned char d[64];
	int n = put(d, 0, "P5 ");
	for (int i = 0; i < 12; ++i)
		d[n++] = '0' + vs_u8("digit", 0, 9);
	n = put(d, n, " 2 255\n");
	vio_make(d, n);
	DSP::ReadPNM<float> r(VIO_NAME);
	vassert(r.width() >= 0 && r.height() >= 0, "size is not negative");
}
