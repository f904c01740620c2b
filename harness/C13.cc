// vfile: mode=real
// bound: (INPUT, OUTPUT) = (1,2), (2,3), (2,4), (3,4), (3,8), (4,5), (4,8), (4,6), (5,6), (5,10), (6,7), (6,8), (6,9), (7,8), (7,12), (8,10), (8,12), (8,16), (8,32), (9,12), (10,16), (12,13), (15,16), (16,20); thorough also (13,32), (16,64), (24,48), (31,32); every complex input with parts in [-1,1], two consecutive calls on the same object; double with error bound 1e-9
#include "vs.h"
#include "complex.hh"
#include "fdzp.hh"

typedef DSP::Complex<double> cmplx;

// interpolation kernel at distance x from a sample, in units of the input sample spacing
static long double kernel(int num, int den, int N)
{
	long double phi = 2 * VPI * (num % den) / den;
	long double sum = 1;
	for (int k = 1; 2 * k < N; ++k)
		sum += 2 * cosl(k * phi);
	if (N % 2 == 0)
		sum += cosl(N / 2 * phi);
	return sum / N;
}
template <int INPUT, int OUTPUT>
static void check(DSP::FDZP<OUTPUT, INPUT, cmplx> &fdzp)
{
	cmplx in[INPUT], out[OUTPUT];
	for (int i = 0; i < INPUT; ++i)
		in[i] = cmplx(vs_f64("re", -1, 1), vs_f64("im", -1, 1));
	fdzp(out, in);
	for (int m = 0; m < OUTPUT; ++m) {
		long double re = 0, im = 0;
		for (int n = 0; n < INPUT; ++n) {
			long double w = kernel(m * INPUT - n * OUTPUT, INPUT * OUTPUT, INPUT);
			re += w * in[n].real();
			im += w * in[n].imag();
		}
		vclose(out[m].real(), re, 1e-9L, "real part of the interpolated signal");
		vclose(out[m].imag(), im, 1e-9L, "imaginary part of the interpolated signal");
	}
}
template <int INPUT, int OUTPUT>
static void run()
{
	static DSP::FDZP<OUTPUT, INPUT, cmplx> fdzp;
	check<INPUT, OUTPUT>(fdzp);
	check<INPUT, OUTPUT>(fdzp);
}
ENTRY(quick_1_2)
{ run<1, 2>(); }
ENTRY(quick_2_3)
{ run<2, 3>(); }
ENTRY(quick_2_4)
{ run<2, 4>(); }
ENTRY(quick_3_4)
{ run<3, 4>(); }
ENTRY(quick_3_8)
{ run<3, 8>(); }
ENTRY(quick_4_5)
{ run<4, 5>(); }
ENTRY(quick_4_8)
{ run<4, 8>(); }
ENTRY(quick_4_6)
{ run<4, 6>(); }
ENTRY(quick_5_6)
{ run<5, 6>(); }
ENTRY(quick_5_10)
{ run<5, 10>(); }
ENTRY(quick_6_7)
{ run<6, 7>(); }
ENTRY(quick_6_8)
{ run<6, 8>(); }
ENTRY(quick_6_9)
{ run<6, 9>(); }
ENTRY(quick_7_8)
{ run<7, 8>(); }
ENTRY(quick_7_12)
{ run<7, 12>(); }
ENTRY(quick_8_10)
{ run<8, 10>(); }
ENTRY(quick_8_12)
{ run<8, 12>(); }
ENTRY(quick_8_16)
{ run<8, 16>(); }
ENTRY(quick_8_32)
{ run<8, 32>(); }
ENTRY(quick_9_12)
{ run<9, 12>(); }
ENTRY(quick_10_16)
{ run<10, 16>(); }
ENTRY(quick_12_13)
{ run<12, 13>(); }
ENTRY(quick_15_16)
{ run<15, 16>(); }
ENTRY(quick_16_20)
{ run<16, 20>(); }
ENTRY(deep_13_32)
{ run<13, 32>(); }
ENTRY(deep_16_64)
{ run<16, 64>(); }
ENTRY(deep_24_48)
{ run<24, 48>(); }
ENTRY(deep_31_32)
{ run<31, 32>(); }
