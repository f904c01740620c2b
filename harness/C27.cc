// vfile: mode=fp
// bound: Schmitt trigger: every threshold pair, every start state and 5 inputs, all floats including infinities and NaN (bit-exact), also int and double
// bound: edge triggers: every start state and every sequence of 8 inputs
#include "vs.h"
#include "trigger.hh"

static bool any(const char *name)
{
	return vs_u8(name, 0, 1);
}
ENTRY(quick_schmitt_f)
{
	float low = vs_f32_any("low"), high = vs_f32_any("high");
	bool state = any("state");
	DSP::SchmittTrigger<float> t(low, high, state);
	for (int i = 0; i < 5; ++i) {
		float in = vs_f32_any("in");
		bool out = t(in);
		bool want = state ? !(in < low) : in > high;
		vassert(out == want, "set above the upper and cleared below the lower threshold");
		state = want;
	}
}
ENTRY(quick_schmitt_d)
{
	double low = vs_f64_any("low"), high = vs_f64_any("high");
	DSP::SchmittTrigger<double> t(low, high);
	bool state = false;
	for (int i = 0; i < 4; ++i) {
		double in = vs_f64_any("in");
		bool out = t(in);
		state = state ? !(in < low) : in > high;
		vassert(out == state, "set above the upper and cleared below the lower threshold");
	}
}
ENTRY(quick_schmitt_one)
{
	float thr = vs_f32_any("thr");
	bool state = any("state");
	DSP::SchmittTrigger<float> t(thr, state);
	for (int i = 0; i < 4; ++i) {
		float in = vs_f32_any("in");
		bool out = t(in);
		state = state ? !(in < -thr) : in > thr;
		vassert(out == state, "symmetric thresholds");
	}
}
ENTRY(quick_schmitt_default)
{
	DSP::SchmittTrigger<float> t;
	bool state = false;
	for (int i = 0; i < 4; ++i) {
		float in = vs_f32_any("in");
		bool out = t(in);
		if (in > 0.33334f)
			vassert(out, "set above one third");
		if (in < -0.33334f)
			vassert(!out, "cleared below minus one third");
		if (in > -0.33333f && in < 0.33333f)
			vassert(out == state, "kept in between");
		state = out;
	}
}
ENTRY(quick_schmitt_i)
{
	int low = vs_i32("low", INT32_MIN, INT32_MAX), high = vs_i32("high", INT32_MIN, INT32_MAX);
	bool state = any("state");
	DSP::SchmittTrigger<int> t(low, high, state);
	for (int i = 0; i < 5; ++i) {
		int in = vs_i32("in", INT32_MIN, INT32_MAX);
		bool out = t(in);
		state = state ? in >= low : in > high;
		vassert(out == state, "set above the upper and cleared below the lower threshold");
	}
}
ENTRY(quick_edges)
{
	bool state = any("state"), prev = state, fprev = false;
	DSP::RisingEdgeTrigger rise(state), rise0;
	DSP::FallingEdgeTrigger fall(state), fall0;
	for (int i = 0; i < 8; ++i) {
		bool in = any("in");
		vassert(rise(in) == (!prev && in), "rising edge");
		vassert(fall(in) == (prev && !in), "falling edge");
		vassert(rise0(in) == (!fprev && in), "rising edge from low");
		vassert(fall0(in) == (fprev && !in), "falling edge from low");
		prev = fprev = in;
	}
}
