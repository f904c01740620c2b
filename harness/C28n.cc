// vfile: mode=real tm=1 tmbits=44
#include "vs.h"
namespace DSP { using std::sqrt; using std::exp; using std::pow; using std::sin; }
#include "const.hh"
#include "utils.hh"

ENTRY(quick_normal)
{
	int k = vs_pick(16), j = vs_pick(3);
	static const double means[] = { 0, 1.5, -2 }, sigmas[] = { 1, 0.5, 3 };
	double m = means[j], s = sigmas[j];
	double x = vs_f64("x", m + s * 0.5 * (k - 8), m + s * 0.5 * (k - 7));
	long double t = ((long double)x - m) / s;
	vclose(DSP::normal_pdf(x, m, s), expl(-t * t / 2) / (s * sqrtl(2 * VPI)), 1e-10L, "normal distribution");
}
ENTRY(quick_sinc)
{
	int k = vs_pick(32);
	double lo = 0.01 + 0.25 * (k - 16);
	double x = vs_f64("x", k < 16 ? lo - 0.02 : lo, k < 16 ? lo + 0.23 : lo + 0.25);
	vclose(VPI * x * DSP::sinc(x), sinl(VPI * x), 1e-10L, "sinc");
	vclose(DSP::sinc(0.0), 1, 0, "sinc of zero");
}
ENTRY(quick_near)
{
	static const double edges[] = { 1e-6, 1e-4, 1e-3, 3e-3, 0.01 };
	int k = vs_pick(4), neg = vs_pick(2);
	double x = vs_f64("x", neg ? -edges[k+1] : edges[k], neg ? -edges[k] : edges[k+1]);
	long double t = VPI * x;
	vclose(DSP::sinc(x), 1 - t * t / 6 + t * t * t * t / 120, 1e-11L, "sinc near zero");
}
