// vfile: mode=real tm=1 refine=1
#include "vs.h"
namespace DSP { using std::sqrt; }
#include "const.hh"
#include "ema.hh"

// impulse response begins with the coefficient
static void run(int N, int lo, int hi)
{
	int n = vs_i32("n", lo, hi);
	DSP::EMA<double, double> ema;
	ema.cutoff(n, N);
	double a = ema(1);
	long double x = cosl(2 * VPI * n / N), w = 2 * VPI * lo / N;
	// power gain a^2/(1-2(1-a)x+(1-a)^2) is one half
	vclose(2.0L * a * a, 1 - 2 * (1 - (long double)a) * x + (1 - (long double)a) * (1 - (long double)a), 1e-5L * w * w, "half power at the cut-off");
	vassert(a > 0, "coefficient is positive");
}
ENTRY(quick_half8_0)
{
	switch (vs_pick(4)) {
	case 0: run(8, 1, 1); break;
	case 1: run(8, 2, 2); break;
	case 2: run(8, 3, 3); break;
	case 3: run(8, 4, 4); break;
	}
}
ENTRY(quick_half12_0)
{
	switch (vs_pick(6)) {
	case 0: run(12, 1, 1); break;
	case 1: run(12, 2, 2); break;
	case 2: run(12, 3, 3); break;
	case 3: run(12, 4, 4); break;
	case 4: run(12, 5, 5); break;
	case 5: run(12, 6, 6); break;
	}
}
ENTRY(quick_half100_0)
{
	switch (vs_pick(8)) {
	case 0: run(100, 1, 1); break;
	case 1: run(100, 2, 2); break;
	case 2: run(100, 3, 3); break;
	case 3: run(100, 4, 4); break;
	case 4: run(100, 5, 5); break;
	case 5: run(100, 6, 6); break;
	case 6: run(100, 7, 7); break;
	case 7: run(100, 8, 9); break;
	}
}
ENTRY(quick_half100_1)
{
	switch (vs_pick(8)) {
	case 0: run(100, 10, 11); break;
	case 1: run(100, 12, 14); break;
	case 2: run(100, 15, 18); break;
	case 3: run(100, 19, 23); break;
	case 4: run(100, 24, 29); break;
	case 5: run(100, 30, 37); break;
	case 6: run(100, 38, 48); break;
	case 7: run(100, 49, 50); break;
	}
}
ENTRY(quick_half1000_0)
{
	switch (vs_pick(8)) {
	case 0: run(1000, 1, 1); break;
	case 1: run(1000, 2, 2); break;
	case 2: run(1000, 3, 3); break;
	case 3: run(1000, 4, 4); break;
	case 4: run(1000, 5, 5); break;
	case 5: run(1000, 6, 6); break;
	case 6: run(1000, 7, 7); break;
	case 7: run(1000, 8, 9); break;
	}
}
ENTRY(quick_half1000_1)
{
	switch (vs_pick(8)) {
	case 0: run(1000, 10, 11); break;
	case 1: run(1000, 12, 14); break;
	case 2: run(1000, 15, 18); break;
	case 3: run(1000, 19, 23); break;
	case 4: run(1000, 24, 29); break;
	case 5: run(1000, 30, 37); break;
	case 6: run(1000, 38, 48); break;
	case 7: run(1000, 49, 62); break;
	}
}
ENTRY(quick_half1000_2)
{
	switch (vs_pick(8)) {
	case 0: run(1000, 63, 80); break;
	case 1: run(1000, 81, 104); break;
	case 2: run(1000, 105, 135); break;
	case 3: run(1000, 136, 175); break;
	case 4: run(1000, 176, 227); break;
	case 5: run(1000, 228, 295); break;
	case 6: run(1000, 296, 383); break;
	case 7: run(1000, 384, 497); break;
	}
}
ENTRY(quick_half1000_3)
{
	switch (vs_pick(1)) {
	case 0: run(1000, 498, 500); break;
	}
}
ENTRY(quick_half48000_0)
{
	switch (vs_pick(8)) {
	case 0: run(48000, 1, 1); break;
	case 1: run(48000, 2, 2); break;
	case 2: run(48000, 3, 3); break;
	case 3: run(48000, 4, 4); break;
	case 4: run(48000, 5, 5); break;
	case 5: run(48000, 6, 6); break;
	case 6: run(48000, 7, 7); break;
	case 7: run(48000, 8, 9); break;
	}
}
ENTRY(quick_half48000_1)
{
	switch (vs_pick(8)) {
	case 0: run(48000, 10, 11); break;
	case 1: run(48000, 12, 14); break;
	case 2: run(48000, 15, 18); break;
	case 3: run(48000, 19, 23); break;
	case 4: run(48000, 24, 29); break;
	case 5: run(48000, 30, 37); break;
	case 6: run(48000, 38, 48); break;
	case 7: run(48000, 49, 62); break;
	}
}
ENTRY(quick_half48000_2)
{
	switch (vs_pick(8)) {
	case 0: run(48000, 63, 80); break;
	case 1: run(48000, 81, 104); break;
	case 2: run(48000, 105, 135); break;
	case 3: run(48000, 136, 175); break;
	case 4: run(48000, 176, 227); break;
	case 5: run(48000, 228, 295); break;
	case 6: run(48000, 296, 383); break;
	case 7: run(48000, 384, 497); break;
	}
}
ENTRY(quick_half48000_3)
{
	switch (vs_pick(8)) {
	case 0: run(48000, 498, 646); break;
	case 1: run(48000, 647, 839); break;
	case 2: run(48000, 840, 1090); break;
	case 3: run(48000, 1091, 1417); break;
	case 4: run(48000, 1418, 1842); break;
	case 5: run(48000, 1843, 2394); break;
	case 6: run(48000, 2395, 3112); break;
	case 7: run(48000, 3113, 4045); break;
	}
}
ENTRY(quick_half48000_4)
{
	switch (vs_pick(7)) {
	case 0: run(48000, 4046, 5258); break;
	case 1: run(48000, 5259, 6835); break;
	case 2: run(48000, 6836, 8885); break;
	case 3: run(48000, 8886, 11550); break;
	case 4: run(48000, 11551, 15015); break;
	case 5: run(48000, 15016, 19519); break;
	case 6: run(48000, 19520, 24000); break;
	}
}
