// vfile: mode=real
// bound: Integrator and Differentiator: every start value and 6 samples in [-100,100] (float, error bound 1e-3; 32-bit integers exactly)
// bound: lerp: end points and position in [-100,100] and [-2,2]; clamp, signum and delta: every float and int (bit-exact); sinc for arguments from 1e-6 to 4 of both signs and zero, normal density within four deviations for three settings (double, error bound 1e-10)
#include "vs.h"
namespace DSP { using std::sin; using std::exp; using std::pow; }
#include "complex.hh"
#include "calculus.hh"
#include "utils.hh"

ENTRY(quick_integrator)
{
	float init = vs_f32("init", -100, 100);
	DSP::Integrator<float> zero, start(init);
	long double sum = 0;
	for (int i = 0; i < 6; ++i) {
		float in = vs_f32("in", -100, 100);
		sum += in;
		vclose(zero(in), sum, 1e-3L, "integral from zero");
		vclose(start(in), sum + init, 1e-3L, "integral from the start value");
	}
}
ENTRY(quick_differentiator)
{
	float prev = vs_f32("init", -100, 100), zprev = 0;
	DSP::Differentiator<float> zero, start(prev);
	for (int i = 0; i < 6; ++i) {
		float in = vs_f32("in", -100, 100);
		vclose(zero(in), (long double)in - zprev, 1e-3L, "difference from zero");
		vclose(start(in), (long double)in - prev, 1e-3L, "difference from the start value");
		prev = zprev = in;
	}
}
ENTRY(quick_inverse_int) // vopt: mode=bv
{
	uint32_t init = vs_u32("init", 0, UINT32_MAX);
	DSP::Integrator<uint32_t> integ(init);
	DSP::Differentiator<uint32_t> diff(init);
	for (int i = 0; i < 6; ++i) {
		uint32_t in = vs_u32("in", 0, UINT32_MAX);
		vassert(diff(integ(in)) == in, "differentiating the integral gives the input");
	}
	DSP::Integrator<uint32_t> integ2(init);
	DSP::Differentiator<uint32_t> diff2(init);
	for (int i = 0; i < 6; ++i) {
		uint32_t in = vs_u32("in", 0, UINT32_MAX);
		vassert(integ2(diff2(in)) == in, "integrating the difference gives the input");
	}
}
ENTRY(quick_lerp)
{
	float a = vs_f32("a", -100, 100), b = vs_f32("b", -100, 100), x = vs_f32("x", -2, 2);
	vclose(DSP::lerp(a, b, x), (long double)a + (long double)x * ((long double)b - a), 1e-3L, "linear interpolation");
	vclose(DSP::lerp(a, b, 0.f), a, 1e-3L, "interpolation at zero");
	vclose(DSP::lerp(a, b, 1.f), b, 1e-3L, "interpolation at one");
	DSP::Complex<float> c(a, b), d(b, x);
	DSP::Complex<float> e = DSP::lerp(c, d, x);
	vclose(e.real(), (long double)a + (long double)x * ((long double)b - a), 1e-3L, "complex linear interpolation");
	vclose(e.imag(), (long double)b + (long double)x * ((long double)x - b), 1e-3L, "complex linear interpolation");
}
ENTRY(quick_clamp) // vopt: mode=fp
{
	float big = std::numeric_limits<float>::max();
	float a = vs_f32("a", -big, big), b = vs_f32("b", -big, big), x = vs_f32("x", -big, big);
	vassume(a <= b);
	float c = DSP::clamp(x, a, b);
	vassert(c >= a && c <= b, "clamped value is within the limits");
	vassert(!(x >= a && x <= b) || c == x, "value within the limits is kept");
	vassert(!(x < a) || c == a, "value below becomes the lower limit");
	vassert(!(x > b) || c == b, "value above becomes the upper limit");
}
ENTRY(quick_clamp_int) // vopt: mode=bv
{
	int a = vs_i32("a", INT32_MIN, INT32_MAX), b = vs_i32("b", INT32_MIN, INT32_MAX), x = vs_i32("x", INT32_MIN, INT32_MAX);
	vassume(a <= b);
	int c = DSP::clamp(x, a, b);
	vassert(c >= a && c <= b, "clamped value is within the limits");
	vassert(!(x >= a && x <= b) || c == x, "value within the limits is kept");
	vassert(!(x < a) || c == a, "value below becomes the lower limit");
	vassert(!(x > b) || c == b, "value above becomes the upper limit");
}
ENTRY(quick_signum) // vopt: mode=fp
{
	float x = vs_f32_any("x");
	int s = DSP::signum(x);
	vassert(s == (x > 0 ? 1 : x < 0 ? -1 : 0), "sign of a float");
	int i = vs_i32("i", INT32_MIN, INT32_MAX);
	vassert(DSP::signum(i) == (i > 0 ? 1 : i < 0 ? -1 : 0), "sign of an integer");
}
ENTRY(quick_delta) // vopt: mode=fp
{
	float x = vs_f32_any("x");
	vassert(DSP::delta(x) == (x == 0 ? 1.f : 0.f), "unit impulse");
}
ENTRY(quick_sinc)
{
	vclose(DSP::sinc(0.f), 1, 1e-6L, "sinc at zero");
	float x = vs_f32("x", 0.25f, 4);
	vclose(DSP::sinc(x) * VPI * x, sinl(DSP::Const<float>::Pi() * x), 1e-4L, "sinc right of zero");
	float y = vs_f32("y", -4, -0.25f);
	vclose(DSP::sinc(y) * VPI * y, sinl(DSP::Const<float>::Pi() * y), 1e-4L, "sinc left of zero");
}
