// vfile: mode=fp stub=1 assert_ms=200000
// bound: 8, 16 and 32 bit files with 1, 2 and 3 channels, 0 to 3 frames and any rate from 1 to 10^7; every sample value of float (finite for 8 and 16 bit), written with and without stride
// bound: reading back: every byte pattern of the samples
// assume: file streams are replaced by a file in memory when executed symbolically; counterexamples are replayed with real files
#include "vs.h"
#include "vio.h"
#include "wav.hh"

static int le(const unsigned char *d, int n)
{
	unsigned v = 0;
	for (int i = 0; i < n; ++i)
		v |= (unsigned)d[i] << (8 * i);
	return (int)v;
}
static bool is(const unsigned char *d, const char *s)
{
	return d[0] == s[0] && d[1] == s[1] && d[2] == s[2] && d[3] == s[3];
}
// header of a file with this many bytes of samples
static void header(const unsigned char *d, int len, int rate, int bits, int channels, int frames)
{
	int over = bits == 32 ? 58 : 44, bytes = bits / 8, size = frames * channels * bytes;
	vassert(len == over + size, "length of the file");
	vassert(is(d, "RIFF") && is(d + 8, "WAVE") && is(d + 12, "fmt "), "names of the chunks");
	vassert(le(d + 4, 4) == len - 8, "size of the file");
	vassert(le(d + 16, 4) == (bits == 32 ? 18 : 16), "size of the format chunk");
	vassert(le(d + 20, 2) == (bits == 32 ? 3 : 1), "format");
	vassert(le(d + 22, 2) == channels, "number of channels");
	vassert(le(d + 24, 4) == rate, "rate");
	vassert(le(d + 28, 4) == rate * channels * bytes, "byte rate");
	vassert(le(d + 32, 2) == channels * bytes, "block size");
	vassert(le(d + 34, 2) == bits, "bits per sample");
	vassert(bits != 32 || le(d + 36, 2) == 0, "no extension");
	vassert(bits != 32 || (is(d + 38, "fact") && le(d + 42, 4) == 4), "fact chunk");
	vassert(bits != 32 || le(d + 46, 4) == frames, "number of frames");
	vassert(is(d + over - 8, "data"), "name of the data chunk");
	vassert(le(d + over - 4, 4) == size, "size of the data chunk");
}
static void layout(int bits, int channels, int frames)
{
	int rate = vs_i32("rate", 1, 10000000);
	unsigned char d[256];
	{
		DSP::WriteWAV<float> w(VIO_NAME, rate, bits, channels);
		vassert(w.rate() == rate && w.channels() == channels, "parameters of the writer");
		w.silence(frames);
		vassert(w.good(), "writer is good");
	}
	int len = vio_load(d, 256);
	header(d, len, rate, bits, channels, frames);
	for (int i = bits == 32 ? 58 : 44; i < len; ++i)
		vassert(d[i] == (bits == 8 ? 128 : 0), "silence");
	DSP::ReadWAV<float> r(VIO_NAME);
	vassert(r.good(), "reader is good");
	vassert(r.rate() == rate && r.channels() == channels && r.bits() == bits, "parameters of the reader");
	if (frames)
		vassert(r.frames() == frames, "number of frames read");
	float buf[16];
	for (int i = 0; i < 16; ++i)
		buf[i] = 7;
	r.read(buf, frames);
	for (int i = 0; i < frames * channels; ++i)
		vassert(buf[i] == 0, "silence read");
	for (int i = frames * channels; i < 16; ++i)
		vassert(buf[i] == 7, "nothing else is touched");
	vassert(r.good(), "all samples were there");
}
static void layouts(int bits)
{
	switch (vs_pick(5)) {
	case 0: layout(bits, 1, 0); break;
	case 1: layout(bits, 1, 3); break;
	case 2: layout(bits, 2, 1); break;
	case 3: layout(bits, 2, 3); break;
	case 4: layout(bits, 3, 2); break;
	}
}
ENTRY(quick_layout8) // vopt: merge=no
{ layouts(8); }
ENTRY(quick_layout16) // vopt: merge=no
{ layouts(16); }
ENTRY(quick_layout32) // vopt: merge=no
{ layouts(32); }

ENTRY(quick_write32)
{
	float x = vs_f32_any("x");
	vassume(x == x);
	{
		DSP::WriteWAV<float> w(VIO_NAME, 8000, 32, 1);
		w.write(&x, 1);
	}
	unsigned char d[64];
	vio_load(d, 64);
	int v;
	memcpy(&v, &x, 4);
	vassert(le(d + 58, 4) == v, "bits of the float");
	DSP::ReadWAV<float> r(VIO_NAME);
	float y;
	r.read(&y, 1);
	vassert(x == y, "float read back");
}
