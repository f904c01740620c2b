/* Native implementation of the harness API for counterexample replay. */
#include <cstdio>
#include <map>
#include <string>
#include <fstream>

static std::map<std::string, std::string> vs_values_;
static std::map<std::string, int> vs_count_;

static const char *vs_lookup_(const char *name)
{
	std::string key = std::string(name) + "#" + std::to_string(vs_count_[name]++);
	auto it = vs_values_.find(key);
	return it == vs_values_.end() ? nullptr : it->second.c_str();
}
template <typename T> static T vs_int_(const char *name, T lo, T hi)
{
	const char *s = vs_lookup_(name);
	T v = 0;
	if (s)
		v = T(strtoll(s, nullptr, 0));
	else
		v = lo > 0 ? lo : hi < 0 ? hi : T(0);
	if (v < lo || v > hi) { fprintf(stderr, "replay: %s outside its range\n", name); _Exit(78); }
	return v;
}
template <typename T> static T vs_fp_(const char *name, T lo, T hi, bool any = false)
{
	const char *s = vs_lookup_(name);
	T v = 0;
	if (s)
		v = T(strtod(s, nullptr));
	else if (!any)
		v = lo > 0 ? lo : hi < 0 ? hi : T(0);
	if (!any) {
		if (v < lo) v = lo;
		if (v > hi) v = hi;
	}
	return v;
}
extern "C" {
int8_t vs_i8(const char *n, int8_t l, int8_t h) { return vs_int_(n, l, h); }
int16_t vs_i16(const char *n, int16_t l, int16_t h) { return vs_int_(n, l, h); }
int32_t vs_i32(const char *n, int32_t l, int32_t h) { return vs_int_(n, l, h); }
int64_t vs_i64(const char *n, int64_t l, int64_t h) { return vs_int_(n, l, h); }
uint8_t vs_u8(const char *n, uint8_t l, uint8_t h) { return vs_int_(n, l, h); }
uint16_t vs_u16(const char *n, uint16_t l, uint16_t h) { return vs_int_(n, l, h); }
uint32_t vs_u32(const char *n, uint32_t l, uint32_t h) { return vs_int_(n, l, h); }
uint64_t vs_u64(const char *n, uint64_t l, uint64_t h) { return vs_int_(n, l, h); }
_Float16 vs_f16(const char *n, _Float16 l, _Float16 h) { return vs_fp_(n, l, h); }
float vs_f32(const char *n, float l, float h) { return vs_fp_(n, l, h); }
double vs_f64(const char *n, double l, double h) { return vs_fp_(n, l, h); }
_Float16 vs_f16_any(const char *n) { return vs_fp_<_Float16>(n, 0, 0, true); }
float vs_f32_any(const char *n) { return vs_fp_<float>(n, 0, 0, true); }
double vs_f64_any(const char *n) { return vs_fp_<double>(n, 0, 0, true); }
void vassume(bool c) { if (!c) { fprintf(stderr, "replay: assumption not met\n"); fflush(stderr); _Exit(78); } }
void vassert_(bool c, const char *msg) { if (!c) { printf("VIOLATED: %s\n", msg); fflush(stdout); _Exit(77); } }
void vclose_(long double a, long double b, long double t, const char *msg)
{
	if (!(a - b <= t && b - a <= t)) {
		printf("VIOLATED: %s: got %.12Lg, expected %.12Lg, tolerance %.3Lg\n", msg, a, b, t);
		fflush(stdout);
		_Exit(77);
	}
}
void vreach(const char *) {}
}
static void vs_load_(const char *path)
{
	std::ifstream f(path);
	std::string k, v;
	while (f >> k >> v)
		vs_values_[k] = v;
}
