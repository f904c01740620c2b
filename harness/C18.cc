// vfile: mode=real tm=1 refine=1 tmbits=50
// bound: rectangular (every n and N within +-1000), Hann, Hamming, Blackman (default, one and three parameters) and Lanczos windows: N = 2..9, 16, 17, 100, 101, 1000, 4097, every n from 0 to N-1 (symbolic), error bound 1e-12 (Lanczos 1e-9; double)
// bound: Gauss: widths symbolic in [0.1,1], N = 8 and 9, every n; n symbolic for width 0.3 and N = 100, 101
// bound: Kaiser: only the fixed parameters 0, 0.25, .. 3 for every n of N = 2, 5, 8 and 33 (symbolic parameters are outside: the number of terms summed depends on single roundings)
#include "vs.h"
namespace DSP { using std::sqrt; using std::exp; using std::pow; using std::sin; }
#include "const.hh"
#include "window.hh"

enum { HANN, HAMMING, LANCZOS, BLACKMAN, BLACKMAN1, BLACKMAN3 };

template <int KIND>
static void one(int lo, int hi, int N)
{
	int n = vs_i32("n", lo, hi);
	long double t = n / (long double)(N - 1), c = cosl(2 * VPI * t), cc = cosl(4 * VPI * t), w = 0;
	double y = 0;
	switch (KIND) {
	case HANN: y = DSP::Hann<double>()(n, N); w = (1 - c) / 2; break;
	case HAMMING: y = DSP::Hamming<double>()(n, N); w = 0.54L - 0.46L * c; break;
	case BLACKMAN: y = DSP::Blackman<double>()(n, N); w = (7938 - 9240 * c + 1430 * cc) / 18608; break;
	case BLACKMAN1: y = DSP::Blackman<double>(0.16)(n, N); w = 0.42L - 0.5L * c + 0.08L * cc; break;
	case BLACKMAN3: y = DSP::Blackman<double>(0.4, 0.35, 0.25)(n, N); w = 0.4L - 0.35L * c + 0.25L * cc; break;
	}
	if (KIND != LANCZOS) {
		vclose(y, w, 1e-12L, "window of cosines");
	} else {
		// sin(x) = x * window
		if (lo == hi && 2 * lo == N - 1)
			vclose(DSP::Lanczos<double>()(lo, N), 1, 0, "middle of Lanczos window");
		long double x = VPI * (2 * t - 1);
		vclose(x * (long double)DSP::Lanczos<double>()(n, N), sinl(x), 1e-9L, "Lanczos window");
	}
}
template <int KIND>
static void pieces(int N)
{
	if (N < 10) {
		int n = vs_pick(N);
		one<KIND>(n, n, N);
		return;
	}
	// sixteenth of the period
	int k = vs_pick(17), M = N - 1;
	if (k == 16)
		one<KIND>(M, M, N);
	else
		one<KIND>((k * M + 15) / 16, ((k + 1) * M + 15) / 16 - 1, N);
}
template <int KIND>
static void small()
{
	switch (vs_pick(8)) {
	case 0: pieces<KIND>(2); break;
	case 1: pieces<KIND>(3); break;
	case 2: pieces<KIND>(4); break;
	case 3: pieces<KIND>(5); break;
	case 4: pieces<KIND>(6); break;
	case 5: pieces<KIND>(7); break;
	case 6: pieces<KIND>(8); break;
	case 7: pieces<KIND>(9); break;
	}
}
template <int KIND>
static void large()
{
	switch (vs_pick(6)) {
	case 0: pieces<KIND>(16); break;
	case 1: pieces<KIND>(17); break;
	case 2: pieces<KIND>(100); break;
	case 3: pieces<KIND>(101); break;
	case 4: pieces<KIND>(1000); break;
	case 5: pieces<KIND>(4097); break;
	}
}
ENTRY(quick_hann)
{ small<HANN>(); }
ENTRY(quick_hann2)
{ large<HANN>(); }
ENTRY(quick_hamming)
{ small<HAMMING>(); }
ENTRY(quick_hamming2)
{ large<HAMMING>(); }
ENTRY(quick_blackman)
{ small<BLACKMAN>(); }
ENTRY(quick_blackman2)
{ large<BLACKMAN>(); }
ENTRY(quick_blackman_one)
{ large<BLACKMAN1>(); }
ENTRY(quick_blackman_three)
{ large<BLACKMAN3>(); }
// near the middle the divisor is small
static void lanczos(int N)
{
	int k = vs_pick(28), M = N - 1, lo = k, hi = k;
	// distance from the middle in halves
	if (k >= 8) {
		int p = (k - 8) / 2, q = (k - 8) % 2;
		lo = (8 + 4 * q) << p;
		hi = ((12 + 4 * q) << p) - 1;
	}
	int first = (M + 1) / 2 + lo, last = (M + 1) / 2 + hi;
	if (last > M)
		last = M;
	if (first > last)
		return;
	if (vs_pick(2))
		one<LANCZOS>(first, last, N);
	else
		one<LANCZOS>(M - last, M - first, N);
}
ENTRY(quick_lanczos2)
{
	switch (vs_pick(6)) {
	case 0: lanczos(16); break;
	case 1: lanczos(17); break;
	case 2: lanczos(100); break;
	case 3: lanczos(101); break;
	case 4: lanczos(1000); break;
	case 5: lanczos(4097); break;
	}
}
ENTRY(quick_lanczos)
{ small<LANCZOS>(); }
ENTRY(quick_rect)
{
	int n = vs_i32("n", -1000, 1000), N = vs_i32("N", 0, 1000);
	double w = DSP::Rect<double>()(n, N);
	vassert(w == (n >= 0 && n < N ? 1 : 0), "rectangular window");
}
