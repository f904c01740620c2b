// bound: BipBuffer lengths 1, 2, 3, 4, 7, 16 with 3*length+3 symbolic insertions; views compared in full after every insertion; length 300 with 903 insertions, views compared in full after every 30th insertion and at the borders of the buffer
#include "vs.h"
using std::min;
#include "bip_buffer.hh"

template <int NUM>
static void run()
{
	const int STEPS = 3 * NUM + 3;
	DSP::BipBuffer<int, NUM> bip;
	int in[STEPS];
	for (int i = 0; i < STEPS; ++i) {
		in[i] = vs_i32("in", INT32_MIN, INT32_MAX);
		const int *view = bip(in[i]);
		for (int j = 0; j < NUM; ++j) {
			int k = i - (NUM - 1) + j;
			vassert(view[j] == (k < 0 ? 0 : in[k]), "view holds the last NUM samples, oldest first");
		}
		const int *again = bip();
		for (int j = 0; j < NUM; ++j)
			vassert(again[j] == view[j], "inspecting without inserting shows the same window");
	}
}

ENTRY(quick_len1)
{ run<1>(); }
ENTRY(quick_len2)
{ run<2>(); }
ENTRY(quick_len3)
{ run<3>(); }
ENTRY(quick_len4)
{ run<4>(); }
ENTRY(quick_len7)
{ run<7>(); }
ENTRY(quick_len16)
{ run<16>(); }

ENTRY(quick_fresh)
{
	DSP::BipBuffer<int, 3> bip;
	const int *view = bip();
	vassert(view[0] == 0 && view[1] == 0 && view[2] == 0, "fresh buffer reads as zeros");
	int x = vs_i32("x", INT32_MIN, INT32_MAX);
	view = bip(x);
	vassert(view[0] == 0 && view[1] == 0 && view[2] == x, "first sample is the newest entry");
}

ENTRY(quick_len300)
{
	const int NUM = 300, STEPS = 3 * NUM + 3;
	DSP::BipBuffer<int, NUM> bip;
	int in[STEPS];
	for (int i = 0; i < STEPS; ++i) {
		in[i] = vs_i32("in", INT32_MIN, INT32_MAX);
		const int *view = bip(in[i]);
		bool all = i % 30 == 0 || (i + 2) % NUM < 4;
		for (int j = 0; j < NUM; j += all ? 1 : NUM - 1) {
			int k = i - (NUM - 1) + j;
			vassert(view[j] == (k < 0 ? 0 : in[k]), "view holds the last NUM samples, oldest first");
		}
	}
}
