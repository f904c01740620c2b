// vfile: mode=bv stub=1 overflow=1
// bound: files of 0 to 62 bytes (lengths at and around the borders of the chunks), every byte symbolic except the rate (48000) or the number of channels (-1, 0, 1, 2, 3, 32767)
// bound: one frame is read and one skipped where the number of channels is at most two
// assume: file streams are replaced by a file in memory when executed symbolically; counterexamples are replayed with real files
#include "vs.h"
#include "vio.h"
#include "wav.hh"

static int le(const unsigned char *d, int n)
{
	unsigned v = 0;
	for (int i = 0; i < n; ++i)
		v |= (unsigned)d[i] << (8 * i);
	return n == 2 ? (int16_t)v : (int)v;
}
enum { ANY = -2 };
static void set(unsigned char *d, int v, int n)
{
	for (int i = 0; i < n; ++i)
		d[i] = 255 & (v >> (8 * i));
}
static void file(int len, int channels, int bits, int rate)
{
	unsigned char d[64];
	for (int i = 0; i < len; ++i)
		d[i] = vs_u8("d", 0, 255);
	if (channels != ANY && len >= 24)
		set(d + 22, channels, 2);
	if (rate != ANY && len >= 28)
		set(d + 24, rate, 4);
	if (bits != ANY && len >= 36)
		set(d + 34, bits, 2);
	vio_make(d, len);
	DSP::ReadWAV<float> a(VIO_NAME);
	vassert(a.channels() == 0 || (len >= 24 && a.channels() == le(d + 22, 2)), "number of channels is that in the file or zero");
	vassert(a.rate() == 0 || (len >= 28 && a.rate() == le(d + 24, 4)), "rate is that in the file or zero");
	vassert(a.bits() == 0 || (len >= 36 && a.bits() == le(d + 34, 2)), "number of bits is that in the file or zero");
	vassert(len >= 44 || a.frames() <= 0, "no frames without a complete header");
	float x[4] = { 7, 7, 7, 7 };
	if (a.channels() <= 2) {
		a.read(x, 1);
		a.skip(1);
	}
	a.good();
}
static void counts(int len)
{
	switch (vs_pick(12)) {
	case 0: file(len, ANY, 8, 48000); break;
	case 1: file(len, ANY, 16, 48000); break;
	case 2: file(len, ANY, 32, 48000); break;
	case 3: file(len, -1, 16, ANY); break;
	case 4: file(len, 0, 8, ANY); break;
	case 5: file(len, 1, 8, ANY); break;
	case 6: file(len, 2, 16, ANY); break;
	case 7: file(len, 2, 32, ANY); break;
	case 8: file(len, 3, 16, ANY); break;
	case 9: file(len, 32767, 32, ANY); break;
	case 10: file(len, 1, ANY, 8000); break;
	case 11: file(len, 2, ANY, 48000); break;
	}
}
ENTRY(quick_begin)
{
	switch (vs_pick(5)) {
	case 0: file(0, ANY, ANY, ANY); break;
	case 1: file(3, ANY, ANY, ANY); break;
	case 2: file(12, ANY, ANY, ANY); break;
	case 3: file(21, ANY, ANY, ANY); break;
	case 4: file(23, ANY, ANY, ANY); break;
	}
}
ENTRY(quick_36)
{ counts(36); }
ENTRY(quick_43)
{ counts(43); }
ENTRY(quick_44)
{ counts(44); }
ENTRY(quick_48)
{ counts(48); }
ENTRY(quick_57)
{ counts(57); }
ENTRY(quick_58)
{ counts(58); }
ENTRY(quick_62)
{ counts(62); }
