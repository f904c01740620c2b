/* Harness API.  In the symbolic run these functions are interpreted by the engine; in a replay
 * build (-DVS_REPLAY) they are implemented natively and read the solver's counterexample. */
#pragma once
#include <algorithm>
#include <cassert>
#include <cmath>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <limits>

extern "C" {
int8_t vs_i8(const char *name, int8_t lo, int8_t hi);
int16_t vs_i16(const char *name, int16_t lo, int16_t hi);
int32_t vs_i32(const char *name, int32_t lo, int32_t hi);
int64_t vs_i64(const char *name, int64_t lo, int64_t hi);
uint8_t vs_u8(const char *name, uint8_t lo, uint8_t hi);
uint16_t vs_u16(const char *name, uint16_t lo, uint16_t hi);
uint32_t vs_u32(const char *name, uint32_t lo, uint32_t hi);
uint64_t vs_u64(const char *name, uint64_t lo, uint64_t hi);
_Float16 vs_f16(const char *name, _Float16 lo, _Float16 hi);
float vs_f32(const char *name, float lo, float hi);
double vs_f64(const char *name, double lo, double hi);
_Float16 vs_f16_any(const char *name);
float vs_f32_any(const char *name);
double vs_f64_any(const char *name);
void vassume(bool);
void vassert_(bool, const char *msg);
void vclose_(long double a, long double b, long double tol, const char *msg);
void vreach(const char *msg);
}
#define vassert(c, msg) vassert_(c, msg)
#define vclose(a, b, tol, msg) vclose_(a, b, tol, msg)
#define ENTRY(name) extern "C" void name()

static const long double VPI = 3.14159265358979323846264338327950288L;

/* one of n cases, each on a path of its own */
static inline int vs_pick(int n)
{
	int k = vs_i32("case", 0, n - 1);
	int i = 0;
	while (i < n - 1 && k != i)
		++i;
	return i;
}
