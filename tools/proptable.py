def fill(prop, BV, REAL, BOTH):
    prop('C01', 'Delay line returns the sample from exactly its length ago',
         'A delay line of length N returns, for every sample put in, the sample put in exactly N calls earlier. '
         'Until N samples have been put in it returns the initial value, which is zero unless another one was given.',
         ['inputs', 'histories', 'configurations'], 'Every sequence of samples and every initial value, for every length N >= 1 (checked: N = 1..64 as listed in the evidence, several wraparounds each).',
         'No test instantiates the delay line on its own; the tests that use it indirectly feed a few fixed sequences and one length.',
         ['delay.hh'], [('ring index wrap', 'delay.hh: Delay::operator()'), ('initial fill', 'delay.hh: Delay::Delay')])
    prop('C02', 'Bip buffer always exposes the last N samples contiguously, oldest first',
         'After every insertion the bip buffer gives a pointer to N consecutive elements which are the last N samples put in, oldest first and newest last, with zeros standing in for samples not yet put in. '
         'Asking for the window without inserting returns the same window.',
         ['inputs', 'histories', 'configurations'], 'Every sequence of samples, for every length N >= 1 (checked: N up to 16, at least three wraparounds).',
         'There is no test of the bip buffer; the wraparound of its two write positions only shows after specific numbers of insertions.',
         ['bip_buffer.hh'], [('two write positions', 'bip_buffer.hh: BipBuffer::operator()'), ('window start', 'bip_buffer.hh: BipBuffer::operator()()')])
    prop('C03', 'Double-ended queue behaves as an ideal bounded deque',
         'For every sequence of pushes and pops at either end that respects capacity and emptiness, front, back, size, empty and full agree with an ideal deque holding the same elements. '
         'Clearing leaves it empty and fully usable, and no operation touches memory outside of the object.',
         ['inputs', 'histories', 'configurations'], 'Every interleaving of push_front, push_back, pop_front, pop_back and clear, every element value, every capacity >= 1 (checked: capacities 1..5, histories as listed in the evidence).',
         'The existing test runs one fixed script of operations; wraparound combined with clear and mixed ends depends on the history.',
         ['deque.hh'], [('head and tail wrap', 'deque.hh: Deque::push_*/pop_*'), ('element count', 'deque.hh: Deque::count')])
    prop('C04', 'Fixed-size stack behaves as an ideal bounded stack',
         'For every sequence of pushes, pops and clears that respects capacity and emptiness, top, first (the bottom element), size, empty and full agree with an ideal stack. '
         'No operation touches memory outside of the object.',
         ['inputs', 'histories', 'configurations'], 'Every interleaving of push, pop and clear, every element value, every capacity >= 1 (checked: capacities and histories as listed in the evidence).',
         'The stack is only exercised indirectly through the moving extrema test with one data set.',
         ['stack.hh'], [('position', 'stack.hh: Stack::push/pop'), ('bottom element', 'stack.hh: Stack::first')])
    prop('C05', 'Sliding window aggregates and moving averages cover exactly the last N samples',
         'A sliding window accelerator returns the aggregate of the last N samples under its commutative associative operation, with the identity standing in for missing samples. '
         'Every variant of the simple moving average returns the mean (or, without normalisation, the sum) of the last N samples with zeros for missing ones, up to rounding. '
         'The mean absolute deviation is taken about the current average over the same window.',
         ['inputs', 'histories', 'configurations'], 'Every sequence of samples, every window length N >= 1 including lengths that are not powers of two (checked: N = 1..8).',
         'There is no test of either; off-by-one errors in the tree update only show for particular lengths and positions in the ring.',
         ['swa.hh', 'sma.hh'], [('tree update', 'swa.hh: SWA::operator()'), ('running sums', 'sma.hh: SMA1..SMA4')], tech=BOTH)
    prop('C06', 'Moving minimum and maximum equal the extremum of the last N samples',
         'The moving minimum (maximum) returns after every sample the smallest (largest) of the last N samples put in, or of all samples so far while fewer than N have been put in. '
         'This holds for integer and finite floating point samples alike, including repeated and extreme values.',
         ['inputs', 'histories', 'configurations'], 'Every sequence of samples of an integer or finite floating point type, every window length N >= 1 (checked: N = 1..4, thorough 5).',
         'The existing test uses one random integer sequence; whether an expiring extremum is dropped at the right step depends on ties and on the order of the values.',
         ['movext.hh', 'stack.hh', 'delay.hh'], [('two stacks', 'movext.hh: MovExt::operator()'), ('neutral start value', 'movext.hh: MovMin/MovMax')])
    prop('C07', 'Quick sort leaves a sorted permutation of its input',
         'Sorting an array leaves it in ascending order and holding exactly the same elements, for every content including duplicates and for every length including zero. '
         'Elements beyond the given length are not touched.',
         ['inputs', 'configurations'], 'Every array content and length (checked: all contents up to 6 elements; longer arrays up to 100 elements with symbolic elements placed into fixed patterns).',
         'The existing test sorts random permutations; ties at the pivot and adversarial pivot choices are not enumerated by it.',
         ['quick.hh'], [('three-way partition', 'quick.hh: QUICK::partition'), ('insertion stage', 'quick.hh: QUICK::insertion'), ('recursion', 'quick.hh: QUICK::sort')])
    prop('C08', 'Quick select returns the element of the requested rank',
         'Selecting rank k from n elements returns the value that would be at position k if the array were sorted in ascending order, for every content including duplicates and every k from 0 to n-1. '
         'The array is only rearranged and nothing beyond the given length is touched.',
         ['inputs', 'configurations'], 'Every array content, length and rank (checked: all contents and ranks up to 5 elements; longer arrays up to 100 elements with symbolic elements placed into fixed patterns).',
         'The existing test selects from random data; ranks that fall on ties with the pivot or on the border of a partition are hit by chance only.',
         ['quick.hh'], [('three-way partition', 'quick.hh: QUICK::partition'), ('narrowing', 'quick.hh: QUICK::select')])
    prop('C09', 'Compensated summation loses no low order part',
         'As long as the inputs are smaller in magnitude than the running sum and their compensated values are representable, the compensated sum equals the exact sum of everything added, rounded once. '
         'Summing a range gives the same result as adding its elements one by one, and the query for an unchanged sum adds the input and reports true exactly if neither the sum nor its compensation changed.',
         ['inputs', 'histories', 'configurations'], 'Every start value and sequence of such inputs for a round-to-nearest number type (checked: 4 and 6 bit number types with up to 6 inputs, float with two inputs).',
         'The existing test sums one fixed sequence; cancellation patterns and ties in rounding depend on the input values.',
         ['kahan.hh'], [('compensation', 'kahan.hh: Kahan::operator()'), ('change detection', 'kahan.hh: Kahan::same'), ('range sum', 'kahan.hh: kahan_sum')])
    prop('C10', 'Complex number type follows the algebra of complex numbers',
         'Sums, differences, products, quotients, conjugate, squared magnitude, magnitude, argument, polar construction and the compound assignments of the complex type equal the mathematical results up to rounding, also where an operand appears on both sides. '
         'Arithmetic between complex and real numbers treats the real number as having a zero imaginary part.',
         ['inputs', 'configurations'], 'Every pair of operands with non-zero divisors, for float and double (checked: parts within [-8,8], see the evidence).',
         'There is no test of the complex type; a sign error in one of the forms only shows for operands with particular parts.',
         ['complex.hh'], [('arithmetic operators', 'complex.hh: operator+ - * /'), ('polar form', 'complex.hh: polar, abs, arg')], tech=REAL)
    prop('C11', 'Fast Fourier transform equals the discrete Fourier transform',
         'For every supported length the forward transform of any complex input equals the sum over the input with the negative exponent kernel, and the backward transform the one with the positive exponent kernel, both without normalisation, up to rounding. '
         'The input array is not changed and the object can be used again with the same result.',
         ['inputs', 'configurations'], 'Every complex input of every length whose prime factors are supported, both directions (checked: lengths as listed in the evidence, covering every radix and products of radices).',
         'There is no unit test of the transform; an error in one butterfly only shows at lengths using that radix and for inputs exciting it.',
         ['fft.hh', 'unit_circle.hh', 'complex.hh'], [('butterflies', 'fft.hh: Dit, dft kernels'), ('twiddle factors', 'fft.hh: FastFourierTransform'), ('radix split', 'fft.hh: split')], tech=REAL)
    prop('C12', 'Real-input transform equals the non-negative half of the spectrum',
         'The real to half complex transform of any real input of even length N writes the discrete Fourier transform bins 0 to N/2, with the first and the last bin halved, up to rounding. '
         'Nothing beyond these bins is written and the input is not changed.',
         ['inputs', 'configurations'], 'Every real input of every supported even length (checked: lengths as listed in the evidence).',
         'There is no unit test; the recombination of even and odd parts differs per bin and length.',
         ['fft.hh', 'unit_circle.hh', 'complex.hh'], [('recombination', 'fft.hh: RealToHalfComplexTransform')], tech=REAL)
    prop('C13', 'Frequency-domain zero padding interpolates the input periodically',
         'Resampling a periodic complex sequence of length N to a longer length M by frequency-domain zero padding gives the values of the trigonometric interpolation polynomial of the input at the M new positions, with the frequency at one half split evenly between both signs when N is even. '
         'Consecutive uses of the same object do not influence each other.',
         ['inputs', 'configurations', 'histories'], 'Every complex input for every pair of supported lengths with N < M (checked: pairs as listed in the evidence).',
         'There is no unit test; the position of the negative frequencies depends on the parity and the ratio of the lengths.',
         ['fdzp.hh', 'fft.hh'], [('bin placement', 'fdzp.hh: FDZP::operator()')], tech=REAL)
    prop('C14', 'Unit circle evaluation is accurate and exact at the axes',
         'The cosine and sine of n/N turns are returned to within rounding of the number type for every n from -N to N. '
         'At multiples of a quarter turn the results are exactly 0, 1 or -1.',
         ['inputs', 'configurations'], 'Every n with |n| <= N and every N > 0 (checked: N and error bounds as listed in the evidence, n symbolic).',
         'The existing test compares a fixed set of lengths with the C library; the octant decision depends on n and N.',
         ['unit_circle.hh', 'const.hh'], [('octant selection', 'unit_circle.hh: UnitCircle::rotate'), ('polynomials', 'unit_circle.hh: UnitCircle::cos/sin')], tech=REAL)
    prop('C28', 'Integrator, differentiator and small helpers do what their names say',
         'The integrator returns the start value plus the sum of everything put in and the differentiator the difference to the previous input, so each undoes the other. '
         'Linear interpolation, clamping, sign, unit impulse and the normalised sinc function return their mathematical definition for every argument.',
         ['inputs', 'histories'], 'Every start value, sequence and argument (checked: value ranges as listed in the evidence; clamp, sign and impulse for every float and int).',
         'None of them has a test; boundary arguments such as equal limits, zero and negative values decide which branch is taken.',
         ['calculus.hh', 'utils.hh'], [('running sum', 'calculus.hh: Integrator'), ('previous value', 'calculus.hh: Differentiator'), ('helpers', 'utils.hh')], tech=BOTH)
    prop('C15', 'Arc tangent and angle functions are accurate everywhere',
         'The arc tangent of every finite number is returned to within a few units of rounding of the number type and is odd. '
         'The angle of a pair (y, x) lies in the right quadrant and is accurate likewise, on the axes it is exactly 0, half pi or pi with the sign of y, also for signed zeros and when the quotient of the pair underflows.',
         ['inputs', 'configurations'], 'Every float and double argument and pair (checked: ranges and error bounds as listed in the evidence).',
         'The existing test only uses points of the unit circle at rational angles; axes, signed zeros, extreme ratios and the borders between the approximation intervals are not visited.',
         ['atan2.hh', 'const.hh'], [('rational kernel', 'atan2.hh: atan_kernel'), ('interval selection', 'atan2.hh: atan_approx'), ('quadrants', 'atan2.hh: atan2')], tech=REAL)
    prop('C16', 'Integer angle function stays within a few steps of the true angle',
         'For every integer vector other than zero the integer angle function returns the angle as a signed fraction of the full circle, off by no more than a few steps for vectors using the upper bits of the number range. '
         'The error bound holds in all quadrants, on the axes and diagonals and for the most negative number.',
         ['inputs', 'configurations'], 'Every vector of 8 and 16 bit integers (checked: all 8 bit vectors, windows of 16 bit vectors, error bounds by magnitude as listed in the evidence).',
         'The existing test only follows points of one circle and only tests the mean; the worst case over the quadrants, diagonals and number range borders is not visited.',
         ['cordic.hh'], [('rotation steps', 'cordic.hh: CORDIC::atan2'), ('angle table', 'cordic.hh: CORDIC::LUT'), ('half plane fold', 'cordic.hh: CORDIC::atan2')], tech=REAL)
    prop('C20', 'Exponential moving averages follow their recursion and cut-off',
         'Each output of the exponential moving average is the previous output moved towards the input by the smoothing factor, which is one over the requested number of samples, or chosen so that a sine at the requested cut-off n/N comes out with half its power. '
         'The cascade acts as that many equal stages in a row, with the cut-off of each raised so that the whole has its half power at the requested cut-off (the raised cut-off being rounded to a multiple of 1/N). '
         'Without any setting the input passes unchanged.',
         ['inputs', 'histories', 'configurations'], 'Every input sequence, smoothing factor and cut-off up to half the rate (checked: ranges, orders and lengths as listed in the evidence).',
         'There is no test; a wrong smoothing factor still gives a smooth output, and the response depends on the cut-off and order.',
         ['ema.hh'], [('recursion', 'ema.hh: EMA::operator()'), ('cut-off', 'ema.hh: EMA::cutoff'), ('cascade', 'ema.hh: EMACascade')], tech=REAL)
    prop('C21', 'Biquad filters and Butterworth cascades realise their transfer function',
         'Lowpass, highpass, notch, bandpass and allpass sections give the output of the standard second order section for the requested frequency n/N and quality (a factor for lowpass and highpass, decibels for the others), up to rounding. '
         'A cascade of k sections is the Butterworth filter of order 2k, an unconfigured section passes its input, and changing the parameters keeps the past samples.',
         ['inputs', 'histories', 'configurations'], 'Every input sequence, frequency and quality (checked: parameters as listed in the evidence, samples symbolic).',
         'There is no test; a wrong coefficient only changes the output from the second or third sample on and differs per filter kind.',
         ['biquad.hh', 'const.hh'], [('direct form', 'biquad.hh: Biquad::operator()'), ('coefficients', 'biquad.hh: Biquad::lowpass, highpass, notch, bandpass, allpass'), ('pole pairs', 'biquad.hh: BiquadCascade')], tech=REAL)
    prop('C22', 'DC blocker and normalisers remove the mean and level the power',
         'The DC blocker is the first order high pass with its pole at one minus one over the number of samples and gain one at half the rate, so constants decay geometrically and alternating signals pass. '
         'The sine and IQ normalisers divide the blocked signal by the square root of twice its running mean power, for a complex signal separately in both parts.',
         ['inputs', 'histories', 'configurations'], 'Every input sequence and averaging length (checked: lengths and ranges as listed in the evidence).',
         'There is no test; the steady state hides errors in the state update and the gain.',
         ['blockdc.hh', 'normalize.hh', 'ema.hh'], [('high pass', 'blockdc.hh: BlockDC'), ('power tracking', 'normalize.hh: NormalizeSine'), ('both parts', 'normalize.hh: NormalizeIQ')], tech=REAL)
    prop('C23', 'Phasor advances by the requested angle and keeps unit magnitude',
         'Starting at one, every call of the phasor returns the point of the unit circle for the current phase and then advances by the requested angular step, given in radians, cycles or as a fraction n/N of a turn with either sign. '
         'Changing the step keeps the current phase and a reset restarts at one.',
         ['inputs', 'histories', 'configurations'], 'Every step (checked: all steps in [-3.2,3.2] and frequencies in [-0.5,0.5], numbers of outputs as listed in the evidence).',
         'There is no test; sign errors and drift only show over several outputs and depend on the step.',
         ['phasor.hh', 'complex.hh'], [('rotation', 'phasor.hh: Phasor::operator()'), ('step', 'phasor.hh: Phasor::omega, freq')], tech=REAL)
    prop('C24', 'Hilbert transformer and down converter equal windowed convolutions',
         'The analytic signal filter returns the input delayed by half its length plus one as real part and, as imaginary part, the convolution with the Kaiser windowed ideal Hilbert response for the same delay. '
         'The quarter rate down converter returns for every pair of samples the input mixed down by a quarter of the rate and convolved with the Kaiser windowed half band low pass.',
         ['inputs', 'histories', 'configurations'], 'Every input sequence, filter length and window parameter (checked: lengths and parameters as listed in the evidence, samples symbolic).',
         'There is no test; the polyphase indexing has to fit the filter length and a wrong tap is not audible.',
         ['hilbert.hh', 'cdc.hh', 'window.hh'], [('delay line', 'hilbert.hh: Hilbert::operator()'), ('taps', 'hilbert.hh: Hilbert'), ('mixing', 'cdc.hh: CDC')], tech=REAL)
    prop('C27', 'Triggers switch exactly at their thresholds and edges',
         'The Schmitt trigger turns on only when the input is above the upper threshold, turns off only when it is below the lower one and keeps its state otherwise, also for inputs equal to a threshold or not a number. '
         'The edge triggers report exactly the calls where their input changed to high or to low since the previous call, starting from the given state.',
         ['inputs', 'histories'], 'Every threshold, start state and input sequence (checked: 4 to 8 inputs, bit-exact for all floats, doubles and ints).',
         'There is no test; the comparisons matter only for inputs equal to a threshold.',
         ['trigger.hh'], [('hysteresis', 'trigger.hh: SchmittTrigger'), ('edges', 'trigger.hh: RisingEdgeTrigger, FallingEdgeTrigger')])
    prop('C33', 'Uniform natural cubic spline is the natural interpolating spline',
         'The spline over equally spaced knots goes through all knots, has continuous first and second derivatives and vanishing second derivative at both ends, and equals that unique curve at every position up to rounding. '
         'Outside of the knots the outermost cubic is continued, and start, spacing and stride of the knots are respected.',
         ['inputs', 'configurations'], 'Every set of ordinates and every position (checked: 2 to 8 knots, see the evidence).',
         'There is no test; a curve through the knots looks right even if the derivative conditions fail.',
         ['spline.hh'], [('tridiagonal solution', 'spline.hh: UniformNaturalCubicSpline constructor'), ('evaluation', 'spline.hh: UniformNaturalCubicSpline::operator()')], tech=REAL)
    prop('C34', 'Cubic Hermite spline interpolates with averaged slopes',
         'The cubic Hermite spline over three or more points goes through the points with the mean of the two adjacent difference quotients as slope at inner points and the only adjacent one at the ends, for equally and irregularly spaced abscissas. '
         'Outside of the points the outermost cubic is continued, and evaluating a segment by its index and relative position gives the same curve.',
         ['inputs', 'configurations'], 'Every set of ordinates and every position (checked: 3 to 6 points, see the evidence).',
         'There is no test; the search for the segment and the end slopes matter only at particular positions.',
         ['spline.hh'], [('segments', 'spline.hh: CubicHermiteSpline::eval'), ('slopes', 'spline.hh: CubicHermiteSpline')], tech=REAL)
    prop('C35', 'Linear regression is the least squares line',
         'The line fitted to two or more points minimises the sum of squared vertical distances, for equally and irregularly spaced abscissas in any order. '
         'Slope, crossings with both axes and the value at any position belong to that line, and an unfitted object is the zero line.',
         ['inputs', 'configurations'], 'Every set of points with at least two different abscissas (checked: 2 to 6 points, ranges as listed in the evidence).',
         'There is no test; errors cancel for centred or symmetric data.',
         ['regression.hh'], [('sums', 'regression.hh: SimpleLinearRegression constructors'), ('line', 'regression.hh: SimpleLinearRegression::operator()')], tech=REAL)
    prop('C36', 'Robust line estimators return medians of slopes and offsets',
         'The Theil-Sen slope is the upper median of the slopes of all pairs with different abscissas and its offset the upper median of the offsets left by that slope. '
         'The repeated median slope is the upper median over the points of the upper median of the slopes to all other points; its offset is the upper median of the offsets left by that slope or, in the first variant, again a repeated median over pairs. Value and crossings belong to that line, which is the zero line before the first fit, and points beyond the capacity never lead to accesses outside of the object.',
         ['inputs', 'configurations'], 'Every set of points with at least two different abscissas (checked: all ordinates for 2 to 4 points on fixed abscissas including repetitions).',
         'There is no test; which element is the median depends on the order of all slopes, ties and repeated abscissas.',
         ['theil_sen.hh', 'repeated_median.hh', 'quick.hh'], [('slopes of pairs', 'theil_sen.hh: TheilSenEstimator::compute'), ('nested medians', 'repeated_median.hh: RepeatedMedianEstimator::compute')], tech=REAL)
    prop('C38', 'Normalised LMS filter follows the update rule',
         'Each call shifts in the new input, returns the desired value minus the output of the filter before the update, and moves every coefficient by the step size times that error times its (conjugated) input divided by the sum of the squared magnitudes of the inputs; without any input the coefficients stay.',
         ['inputs', 'histories', 'configurations'], 'Every sequence of inputs, desired values and step sizes (checked: 1 to 3 coefficients, 3 steps, ranges as listed in the evidence).',
         'There is no test; a converging filter hides errors in single updates.',
         ['lms.hh'], [('update', 'lms.hh: NLMS::operator(), NCLMS::operator()')], tech=REAL)
    prop('C25', 'FM demodulators return the phase step between samples',
         'The first three FM demodulators return the phase difference between the current and the previous sample, wrapped to half a turn either way, in parts of the bandwidth, whatever the amplitudes. '
         'The fourth returns instead the cross product with the previous sample over the squared magnitude of the current one, and the fifth the central difference around the previous sample over its squared magnitude; all start from phase zero.',
         ['inputs', 'histories', 'configurations'], 'Every sequence of non-zero samples with steps of less than half a turn (checked: directions, ranges and error bounds as listed in the evidence).',
         'There is no test; wrapping matters only for particular pairs of directions and amplitude changes hide in the quotient.',
         ['fmd.hh', 'complex.hh'], [('wrapping', 'fmd.hh: FMD1'), ('quotient and product', 'fmd.hh: FMD2, FMD3'), ('approximations', 'fmd.hh: FMD4, FMD5')], tech=REAL)
    prop('C26', 'AM demodulator relates the amplitude to its tracked level',
         'The AM demodulator moves its level towards the amplitude of the sample by the attack rate when it is not below the level and by the decay rate otherwise, keeps it within the given limits (0.001 and 1 unless given) and returns the amplitude relative to the new level, scaled and shifted by the modulation index.',
         ['inputs', 'histories', 'configurations'], 'Every sequence of non-zero samples and settings (checked: settings, ranges and error bounds as listed in the evidence).',
         'There is no test; attack, decay and limits only differ on particular histories.',
         ['amd.hh', 'utils.hh'], [('level', 'amd.hh: AMD1::operator()'), ('settings', 'amd.hh: AMD1::agc, index')], tech=REAL)
    prop('C29', 'WAV files hold the samples and are read back unchanged',
         'A written WAV file has the standard header with consistent sizes for 8 and 16 bit integer and 32 bit float samples, any rate and number of channels, and holds each sample as the nearest value of its format, clipped at its limits. '
         'Reading gives the same rate, channels, bits and number of frames and the samples as stored, in the same order, with stride, skipped frames and silence in the right places.',
         ['inputs', 'configurations', 'histories'], 'Every sample value, rate, number of channels and stride (checked: 1 to 3 channels, up to 4 frames, all rates up to 10^7 and all sample values within the ranges listed in the evidence).',
         'There is no test; rounding, clipping and header fields matter only for particular values and formats.',
         ['wav.hh', 'pcm.hh'], [('header', 'wav.hh: WriteWAV constructor and destructor'), ('samples', 'wav.hh: WriteWAV::write, ReadWAV::read'), ('position', 'wav.hh: ReadWAV::skip, WriteWAV::silence')], tech=BOTH)
    prop('C30', 'WAV reader stays defined for every file content',
         'Opening any file as WAV, reading a frame and skipping never divides by zero, overflows or reads memory that was not set, whatever the header claims and wherever the file ends. '
         'The reported rate, channels and bits are those in the file or zero.',
         ['inputs', 'fault_sequences'], 'Every content and length of file (checked: lengths up to 62 bytes around the chunk borders, all bytes symbolic except rate or channels and bits, see the evidence).',
         'There is no test; headers with zero channels, huge sizes or cut in the middle are never tried.',
         ['wav.hh'], [('header checks', 'wav.hh: ReadWAV constructor')])
    prop('C31', 'Netpbm files hold the sRGB companded pixels and are read back',
         'A written Netpbm file has the standard text header for grey or colour, width, height and maximum, and holds each linear value, limited to zero to one, as the nearest value on the sRGB curve. '
         'Reading gives the same kind and size and the linear value of each stored one, in the same order also with stride.',
         ['inputs', 'configurations'], 'Every value, size and stride (checked: all values for maximum 255, 127 and 15, sizes of up to 4 digits, two pixels).',
         'There is no test; the curve has two parts and the order of colours depends on the stride.',
         ['netpbm.hh', 'pel.hh'], [('companding', 'netpbm.hh: WritePNM::srgb'), ('expanding', 'netpbm.hh: ReadPNM::linear'), ('header', 'netpbm.hh: WritePNM constructor')], tech=REAL)
    prop('C32', 'Netpbm reader understands comments and survives every header',
         'Opening any file as Netpbm never overflows or uses memory that was not set, and reports zero size unless the header is complete. '
         'Headers with any kind of white space between the numbers and comment lines after a line break are understood, and the samples start right after the single white space behind the last number.',
         ['inputs', 'fault_sequences'], 'Every content and length of file (checked: all contents up to 11 bytes, headers with symbolic digits, white space and comments, numbers of up to 12 digits).',
         'There is no test; truncated headers, long numbers and comments at every position are never tried.',
         ['netpbm.hh'], [('header parser', 'netpbm.hh: ReadPNM constructor')])
    prop('C17', 'Powers of ten and decibels are accurate over the number range',
         'The power of ten is within a few rounding errors of the exact value relative to its size, for double and float. '
         'A ratio of powers is turned into decibels with negligible absolute error, and decibels are turned back into the ratio with negligible relative error, also for very large and very small ratios.',
         ['inputs'], 'Every argument within the ranges listed in the evidence (powers: -300 to 300; ratios: 1e-6 to 1e6 and around 1e-12 and 1e12).',
         'There is no test; range reduction and scaling switch at particular arguments.',
         ['exp.hh', 'decibel.hh'], [('reduction and rational approximation', 'exp.hh: exp10'), ('scaling', 'exp.hh: ldexp'), ('logarithm by repeated roots', 'decibel.hh: decibel')], tech=REAL)
    prop('C18', 'Window functions have their defined shapes',
         'The rectangular window is one from the first to the last sample and zero elsewhere. '
         'The Hann, Hamming, Blackman, Lanczos, Gauss and Kaiser windows over N samples follow their textbook formulas for the given parameters at every sample, are symmetric and have their maximum in the middle.',
         ['inputs', 'configurations'], 'Every window of two or more samples, every sample and parameter (checked: lengths, ranges and error bounds as listed in the evidence).',
         'There is no test; the cosines are taken in eight parts of the circle and the middle sample is special.',
         ['window.hh', 'unit_circle.hh', 'kahan.hh'], [('sums of cosines', 'window.hh: Hann, Hamming, Blackman'), ('sine over angle', 'window.hh: Lanczos'), ('series', 'window.hh: Kaiser::i0')], tech=REAL)
    prop('C19', 'Filter prototypes follow the ideal impulse responses',
         'The low, high and band pass prototypes give at every tap the sampled impulse response of the ideal filter with the given cutoffs in parts of the sampling rate, as number or as ratio of integers, centred between first and last tap; the Hilbert transformer gives that of the ideal ninety degree shifter. '
         'A coefficient array holds the product of the given functions at every tap, is zero outside of the taps and, when normalised, its sum has the given inverse as magnitude.',
         ['inputs', 'configurations'], 'Every cutoff, number of taps and tap (checked: numbers of taps, ranges and error bounds as listed in the evidence).',
         'There is no test; the middle tap, odd and even numbers of taps and reduction of the angle behave differently.',
         ['filter.hh', 'coeffs.hh', 'utils.hh', 'unit_circle.hh'], [('impulse responses', 'filter.hh: LowPass, HighPass, BandPass'), ('ratios', 'filter.hh: LowPass2, HighPass2'), ('normalisation', 'coeffs.hh: Coeffs::normalize')], tech=REAL)
    prop('C37', 'Resamplers filter the input at the right positions',
         'Each output of the block resampler is the input filtered at that output number times rate over changed rate by the Kaiser windowed low pass of the given cutoff, interpolated by a natural cubic spline, and is placed behind half of the taps; places without enough input are left alone. '
         'The streaming resampler moves its phase by the relative difference with every output, leaves an input without output when ahead by more than half a sample, gives further outputs when behind by more than that, and returns the number of outputs.',
         ['inputs', 'histories', 'configurations'], 'Every sequence of samples and differences (checked: numbers of taps, differences, lengths and error bounds as listed in the evidence).',
         'There is no test; skipped and repeated samples occur only on particular histories.',
         ['resampler.hh', 'spline.hh', 'window.hh', 'utils.hh'], [('positions of a block', 'resampler.hh: Resampler::operator()'), ('phase', 'resampler.hh: Resampler2::operator()'), ('low pass', 'resampler.hh: Resampler constructors')], tech=REAL)
