#!/usr/bin/env python3
"""Generates properties.jsonl and MANIFEST.json from one table (kept in step)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ALLCFG = ("every input, buffer length, call form (plain loop, run-time vectorised, compile-time unrolled), "
          "sample type (float, double) and instruction-set build")
P = []
def prop(id, title, statement, over, text, why, files, mech, level_note, technique, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  level_note=level_note, technique=technique))

prop("C01", "Two-operand sample-wise operations return the exact IEEE result",
 "For addition, subtraction, multiplication, division, minimum, maximum, the six comparisons and symmetric clipping (limit >= 0), every output sample equals the IEEE-754 result of the operation on the corresponding input samples, for buffer and constant operands in any combination and in every call form. Comparisons yield exactly 1.0 or 0.0, and a comparison with NaN is false except for inequality, which is true. Infinities, denormals and signed zeros are handled like the scalar C++ operators do (the sign of a zero result of min/max/clip and the min/max/clip of NaN are unspecified).",
 ["inputs","configurations"], ALLCFG + "; operands include every special value",
 "tests compare a few fixed random blocks of one size per operation in three builds; special values, operand kinds, sizes and builds are sampled once or not at all",
 ["simd_binary_arithmetic.hpp","detail/define_macros.hpp","detail/unroll_helpers.hpp","vec/vec_sse.hpp","vec/vec_sse2.hpp","vec/vec_avx_float.hpp","vec/vec_avx_double.hpp","vec/vec_generic.hpp"],
 [("functors plus..clip2","simd_binary_arithmetic.hpp"),("vec arithmetic/relational operators","vec/*.hpp")],
 "generated operands (special-value biased) x all operations x operand kinds x forms x builds against scalar IEEE reference, guarded buffers",
 "differential property-based testing against a scalar IEEE model")
prop("C02", "Multi-operand mixing operations compute their formula to rounding accuracy",
 "Clipping between a lower and an upper bound (lower <= upper) returns exactly the nearest value of the interval; multiply-add, amplitude modulation signal*(1+modulator*amount), two-signal mixing a*f+b*g, and the sums of 2, 3 and 4 signals are within a few rounding errors of the formula, relative to the sum of the magnitudes of its terms. This holds for every combination of buffer and constant operands and every call form.",
 ["inputs","configurations"], ALLCFG, "tests use one random block and a handful of operand combinations; swapped operands or a lost term in a rarely used combination, unroll size or instruction set is not reached",
 ["simd_ternary_arithmetic.hpp","simd_mix.hpp","detail/define_macros.hpp"],
 [("clip/muladd/ampmod functors","simd_ternary_arithmetic.hpp"),("scaled_mix2/sum functors","simd_mix.hpp"),("madd","vec/*.hpp")],
 "generated operands over all operand-kind combinations, long-double oracle with derived rounding bound",
 "property-based testing against a long-double formula with derived error bounds")
prop("C03", "A ramp operand behaves like start + index*slope at every sample",
 "When an operand is given as a linear ramp (start value and per-sample slope), output sample k is the operation applied to start + k*slope, up to the rounding error of accumulating k steps in the sample type. This holds for every operation that accepts ramps, for ramps in any operand position (also several at once), for float and double, and does not depend on the call form or block length.",
 ["inputs","configurations"], ALLCFG + "; every operand position, start and slope", "tests use a few slopes in float with loose absolute tolerances and short blocks",
 ["detail/wrap_arguments.hpp","detail/wrap_argument_vector.hpp","detail/unroll_helpers.hpp","vec/vec_base.hpp"],
 [("scalar_ramp_argument","detail/wrap_arguments.hpp"),("vector_ramp_argument","detail/wrap_argument_vector.hpp"),("set_slope","vec/*.hpp")],
 "generated starts/slopes/positions/lengths, closed-form oracle with accumulated-rounding bound propagated through the operation",
 "property-based testing against a closed-form ramp model")
prop("C04", "Elementary one-operand functions are exact on all inputs",
 "Absolute value, sign (-1, 0, 1) and square are exact for every non-NaN input including infinities, denormals and signed zero; the cube is within two rounding errors of x*x*x. Denormal flushing maps every subnormal sample to zero and leaves every other sample unchanged bit for bit. The reciprocal has a relative error below 5e-7 (float) or a few units in the last place (double) whenever argument and result are normal numbers of moderate magnitude (float: 2^-124 <= |x| <= 2^124).",
 ["inputs","configurations"], ALLCFG, "tests run one random block in [-1,1]-like ranges and never feed special values or boundaries between normal and subnormal numbers",
 ["simd_unary_arithmetic.hpp","detail/math.hpp","detail/vec_math.hpp","vec/vec_sse.hpp","vec/vec_avx_float.hpp"],
 [("vec_sign, vec_undenormalize, vec_reciprocal_newton","detail/vec_math.hpp"),("fabs/sign/square/cube","detail/math.hpp")],
 "quick: stratified bit-pattern blocks and boundary values; thorough: all 2^32 floats; double via stratified exponents",
 "property-based testing / exhaustive float sweep against scalar model")
prop("C05", "Rounding functions return the right integer for every finite sample",
 "Floor, ceiling and truncation return exactly the mathematical result and rounding returns a nearest integer (either neighbour on a tie) for every finite input of any magnitude, including values beyond the integer range. The fractional part equals x - floor(x) rounded once and lies in [0, 1]. This holds in every call form, for float and double and on every instruction set.",
 ["inputs","configurations"], ALLCFG, "tests use random values of small magnitude; half-way cases, large odd integers, values around -0.5 and beyond 2^31/2^63 are not sampled",
 ["simd_unary_arithmetic.hpp","detail/math.hpp","detail/vec_math.hpp","vec/vec_sse.hpp","vec/vec_sse2.hpp"],
 [("vec_round_float/vec_floor_float/vec_ceil_float","detail/vec_math.hpp"),("round/frac/trunc","detail/math.hpp")],
 "quick: stratified bit-pattern blocks around integers, halves and powers of two; thorough: all 2^32 floats",
 "property-based testing / exhaustive float sweep against libm")
prop("C06", "Mathematical functions keep their documented accuracy over the whole domain",
 "In single precision exp, log, log2, log10, asin, acos, atan and tanh have a relative error below 5e-7 for every argument of their domain that is normal and has a normal result; sin and cos have an absolute error below 2e-7 for |x| <= 8192 and a relative error below 5e-7 for |x| <= 3.2; tan(x)=t deviates by less than 5e-7*|t| + 1e-8*(1+t*t) for |x| <= 8192. In double precision all of them have a relative error below 1e-14 for |x| <= 8192 (whole domain for the non-trigonometric ones). This holds for every sample position, call form and instruction set.",
 ["inputs","configurations"], ALLCFG, "tests evaluate a few hundred thousand random points of a narrow range on three builds; single exceptional arguments, branch boundaries, large or tiny arguments and other builds are not reached",
 ["simd_math.hpp","detail/vec_math.hpp","detail/math.hpp","vec/vec_int_sse2.hpp","vec/vec_int_avx.hpp"],
 [("vec_exp_float, vec_log_float, vec_sin_float, vec_cos_float, vec_tan_float, vec_asin_float, vec_acos_float, vec_atan_float, vec_tanh_float","detail/vec_math.hpp"),("integer vector helpers","vec/vec_int_*.hpp")],
 "quick: stratified bit-pattern blocks, every exponent and branch boundary; thorough: all 2^32 floats per function on the SIMD builds; doubles stratified",
 "property-based testing / exhaustive float sweep against higher-precision libm")
prop("C07", "Power and signed roots follow their mathematical definition",
 "For a normal base a > 0 and an exponent b with |b*ln a| <= 85, the power function is within 5e-7*(1+|b*ln a|) (float) or 1e-13*(1+|b*ln a|) (double) relative error of a^b, and 0^b is 0 for b > 0. The signed power of -a is the negated power of a, and the signed square root of x is sign(x)*sqrt(|x|), correctly rounded. Constant and buffer operands and all call forms give the same results.",
 ["inputs","configurations"], ALLCFG, "tests use one block of bases in a small range with one exponent range; extreme bases, zero, negative bases and boundary exponents are not sampled",
 ["simd_math.hpp","detail/vec_math.hpp","detail/math.hpp"],
 [("vec_pow, vec_signed_pow, vec_signed_sqrt","detail/vec_math.hpp"),("signed_pow, signed_sqrt","detail/math.hpp")],
 "generated (base, exponent) pairs stratified by exponent and magnitude of b*ln a; thorough: all 2^32 floats for the signed root",
 "property-based testing against long-double libm")
prop("C08", "Vectorised float functions saturate and stay in range for every argument",
 "On SSE2 and AVX builds the vectorised single-precision functions never produce NaN or infinity for exp of any non-NaN argument (results are >= 0, the largest finite float from 88.723 upwards, 0 below -88), return 0 for asin and acos of |x| > 1, and return +-1 for tanh of |x| > 22 including infinities and +-pi/2 for atan of infinities. On all builds and forms |tanh| <= 1, |sin|,|cos| <= 1+2e-7 for |x| <= 8192, |atan| <= pi/2+2e-7. sin, tan, asin, atan and tanh are odd and cos is even up to their error bound.",
 ["inputs","configurations"], "every float bit pattern, sample position and build", "tests never leave the regular domain of the functions",
 ["detail/vec_math.hpp","simd_math.hpp"],
 [("boundary selection in vec_exp_float, vec_asin_float, vec_acos_float, vec_tanh_float, vec_atan_float","detail/vec_math.hpp")],
 "quick: stratified bit patterns incl. infinities and out-of-domain values; thorough: all 2^32 floats",
 "property-based testing of range and symmetry invariants")
prop("C09", "Unit conversions follow their formulas and invert each other",
 "MIDI note, frequency, ratio, octave, amplitude and decibel conversions match f=440*2^((m-69)/12), r=2^(m/12), f=440*2^(o-4.75), db=20*log10|a| and their inverses: exponential conversions with a relative error below 5e-7*(1+|ln of the power|), logarithmic ones with an error below 5e-7 of the magnitude of the terms of the formula (double: 1e-9 instead of 5e-7). Converting there and back returns the original value within 1e-4 relative (float, MIDI -100..200, -140..140 dB) or 1e-8 (double). Negative frequencies and amplitudes are converted by their absolute value.",
 ["inputs","configurations"], ALLCFG, "tests compare scalar and vector forms with each other on one range, so a wrong constant or formula shared by both is not noticed",
 ["simd_unit_conversion.hpp","simd_math.hpp"],
 [("midi2freq..db2amp functors","simd_unit_conversion.hpp")],
 "generated notes/frequencies/levels over wide ranges; formula oracle in long double plus round trips",
 "property-based testing: formula oracle and round trip")
prop("C10", "Soft clipping is identity below one half and bounded above",
 "For every finite sample with |x| < 0.5 the soft-clipped sample is x itself, bit for bit; otherwise it is (|x|-0.25)/x within two rounding errors, so its magnitude stays in [0.5, 1] and it keeps the sign of x. The result is the same in all call forms and builds.",
 ["inputs","configurations"], ALLCFG, "tests use one block; the branch boundary, zero, denormals and huge samples are not sampled",
 ["softclip.hpp"], [("softclip functor, scalar and select based","softclip.hpp")],
 "quick: stratified bit patterns around the boundary; thorough: all 2^32 floats",
 "property-based testing / exhaustive float sweep against formula")
prop("C11", "Fill and copy write exactly the block, bit for bit",
 "Zeroing, filling with a constant and copying (all aligned/unaligned source and destination variants, run-time and compile-time lengths, any in-contract length) set every sample of the destination block to the requested bit pattern, including NaN payloads, denormals and signed zeros. No byte outside the destination block is modified and the source is unchanged.",
 ["inputs","configurations"], ALLCFG + "; every alignment allowed by the variant", "tests copy one 64-sample block per variant and do not look outside it",
 ["simd_memory.hpp"], [("zerovec/setvec/copyvec families","simd_memory.hpp")],
 "generated contents, lengths and byte offsets with guard pages and canaries; bit-exact oracle",
 "property-based testing with guarded buffers, bit-exact model")
prop("C12", "Slope and exponential generators follow their closed form",
 "The linear generator writes start + k*slope and the exponential generator writes start*factor^k to sample k, up to the rounding error of k accumulation steps in the sample type (as long as the samples and the powers of the factor stay within the normal range), for every block length, call form, sample type and build. No sample is skipped, duplicated or written outside the block.",
 ["inputs","configurations"], ALLCFG, "tests use one start/slope pair and 64 samples",
 ["simd_memory.hpp","vec/vec_base.hpp","vec/vec_sse.hpp","vec/vec_avx_float.hpp","vec/vec_avx_double.hpp","vec/vec_sse2.hpp"],
 [("set_slope_vec, set_exp_vec and simd versions","simd_memory.hpp"),("set_slope/set_exp","vec/*.hpp")],
 "generated start/slope/factor and lengths; closed-form oracle with accumulated-rounding bound",
 "property-based testing against closed-form model")
prop("C13", "In-place accumulation adds the operand exactly once per sample",
 "Adding a buffer or a constant to a destination block gives, for every sample, exactly the IEEE sum of the old destination sample and the operand; adding a ramp gives old + start + k*slope up to accumulated rounding. Every length, call form, sample type and build behaves the same, and the operand buffer and everything outside the destination stay unchanged.",
 ["inputs","configurations"], ALLCFG, "tests cover only the buffer operand for one size; the ramp overloads were never instantiated",
 ["simd_memory.hpp"], [("addvec/addvec_simd overloads","simd_memory.hpp")],
 "generated destination, operand, length; IEEE oracle", "differential property-based testing")
prop("C14", "Stereo panning scales the input by each channel's own gain",
 "Panning one signal to two outputs gives out0[k]=in[k]*gain0 and out1[k]=in[k]*gain1 exactly rounded for constant gains, and in[k]*(gain+k*slope) up to accumulated rounding for ramped gains, with the two channels independent of each other. This holds for every length, call form, sample type and build.",
 ["inputs","configurations"], ALLCFG, "tests compare the vector form with the scalar form for one gain pair and 64 samples",
 ["simd_pan.hpp"], [("pan2_vec, pan2_vec_simd","simd_pan.hpp")],
 "generated inputs, gains, slopes and lengths; formula oracle", "property-based testing against formula")
prop("C15", "Block reductions return the true extrema and sum",
 "The minimum and maximum of a block of non-NaN samples are exactly the smallest and largest sample, whatever their sign, magnitude or position; the sum is within n rounding errors of the exact sum relative to the sum of magnitudes. Combined min/max and max/sum reductions agree with these definitions, for every length, form, sample type and build.",
 ["inputs","configurations"], ALLCFG, "tests use one mixed-sign block",
 ["simd_horizontal_functions.hpp","vec/vec_sse.hpp","vec/vec_sse2.hpp","vec/vec_base.hpp"],
 [("horizontal_*_vec(_simd)","simd_horizontal_functions.hpp"),("horizontal_min/max/sum","vec/*.hpp")],
 "generated blocks with planted extrema at every position; exact oracle", "property-based testing against exact reduction model")
prop("C16", "Peak and RMS meters accumulate correctly over any sequence of blocks",
 "Starting from any non-negative peak and energy, feeding a history of blocks to the meters leaves the peak equal to the maximum of the initial peak and the largest magnitude seen, returns the magnitude of the last sample of the block, and increases the energy by the sum of squares up to rounding. The outcome does not depend on how the stream is split into blocks, on the call form or on the build.",
 ["histories","inputs","configurations"], "every history of blocks of in-contract lengths, initial state, form, type and build", "tests meter a single block from a zero initial state",
 ["simd_peakmeter.hpp"], [("peak_vec, peak_rms_vec and simd versions","simd_peakmeter.hpp"),("load_first","vec/*.hpp")],
 "stateful generation of block histories against a running model", "stateful model-based property testing")
prop("C17", "No function touches memory outside the buffers it is given",
 "Every buffer function reads only inside its input blocks and writes only inside its output block, for every in-contract length, alignment, call form, sample type and build, even when a block ends or starts exactly at an inaccessible page. Input buffers that are not also outputs are never modified.",
 ["inputs","configurations"], "every function, operand kind, length, placement, form, type and build", "tests use buffers in the middle of larger allocations, where over-reads and small over-writes go unnoticed",
 ["simd_memory.hpp","detail/unroll_helpers.hpp","detail/math.hpp","simd_horizontal_functions.hpp","simd_peakmeter.hpp","simd_pan.hpp"],
 [("loop bounds","detail/unroll_helpers.hpp"),("last iteration load guard","detail/unroll_helpers.hpp")],
 "whole API over generated lengths/placements with PROT_NONE pages and canaries on both sides", "property-based testing with guard pages and canaries")
prop("C18", "Output may alias any buffer input sample for sample",
 "Every sample-wise buffer function gives the same result when the output buffer is one of its input buffers (or several inputs and the output are the same buffer) as when all buffers are distinct. This includes ramp and constant operands mixed with the aliased buffer, and panning with one output equal to the input.",
 ["inputs","configurations"], ALLCFG + "; every aliasing pattern", "tests always use separate buffers",
 ["detail/unroll_helpers.hpp","detail/math.hpp","simd_memory.hpp","simd_pan.hpp"],
 [("load next vector before storing the current one","detail/unroll_helpers.hpp")],
 "generated aliasing patterns over the whole sample-wise API; metamorphic comparison with the non-aliased call", "metamorphic property-based testing")
prop("C19", "The vector register class behaves like an array of independent lanes",
 "Any sequence of operations on vector registers (construction, load, store, element access, broadcast, ramp and exponential initialisation, arithmetic, comparison, min/max, unary functions, copies) leaves every lane with the value the same operations give on a plain array of that many scalars. Setting or reading one lane never affects another, loading the first element clears the others, and initialisers return the documented continuation step.",
 ["histories","inputs","configurations"], "every operation sequence, lane, value, type and build", "tests check each operation once on fixed values",
 ["vec/vec_base.hpp","vec/vec_generic.hpp","vec/vec_sse.hpp","vec/vec_sse2.hpp","vec/vec_avx_float.hpp","vec/vec_avx_double.hpp"],
 [("vec specialisations","vec/*.hpp")],
 "stateful generated programs over a register file, lane-array model, all builds", "stateful model-based property testing")
prop("C20", "Lane masks, selection, bit operations and lane reductions are exact",
 "On builds with comparison masks every lane of a mask is all ones exactly where the scalar comparison holds (unordered operands only satisfy inequality) and all zeros elsewhere; selection takes the second operand exactly in the set lanes; and, or, xor and and-not act bitwise; the generated constants (zero, one, half, sign, magnitude and exponent masks) have their documented bit patterns. Lane minimum and maximum are exact and the lane sum is within rounding, whichever lane holds the value.",
 ["inputs","configurations"], "every bit pattern, lane, type and build", "tests check a few fixed values and mostly identical lanes",
 ["vec/vec_sse.hpp","vec/vec_sse2.hpp","vec/vec_avx_float.hpp","vec/vec_avx_double.hpp","vec/vec_base.hpp"],
 [("mask_*, select, bitwise operators, gen_*","vec/*.hpp"),("horizontal_*","vec/*.hpp")],
 "generated bit patterns per lane against scalar bit model", "property-based testing against a bit-level model")
prop("C21", "Each output sample depends only on its own input samples",
 "For every sample-wise function with buffer and constant operands, an output sample is determined by the corresponding input samples alone: permuting, shifting or replacing the other samples, changing the block length, or splitting the block into several calls leaves it unchanged (up to the accuracy of the function). A linear ramp continued in a second call from start + k*slope equals the ramp of one long call up to accumulated rounding.",
 ["inputs","histories","configurations"], ALLCFG + "; every split of the block", "tests never compare two calls with related inputs",
 ["detail/unroll_helpers.hpp","detail/math.hpp","detail/vec_math.hpp"],
 [("compile_time_unroller, generate_simd_loop","detail/unroll_helpers.hpp")],
 "metamorphic: permutation, neighbour replacement and re-blocking of generated blocks over the whole sample-wise API", "metamorphic property-based testing")
prop("C22", "Advertised block granularity and alignment predicates match reality",
 "The advertised number of samples per loop is one 64-byte cache line and a multiple of the register width, and every vectorised run-time function accepts every positive multiple of it. The alignment predicate holds exactly for addresses that are multiples of the register width (of the element size in scalar builds); aligned loads and stores work on every address it accepts and unaligned ones on every address.",
 ["inputs","configurations"], "every address offset, length, type and build", "tests only use cache-line aligned storage",
 ["simd_unroll_constraints.hpp","vec.hpp","vec/vec_generic.hpp","vec/vec_sse.hpp","vec/vec_sse2.hpp","vec/vec_avx_float.hpp","vec/vec_avx_double.hpp"],
 [("is_aligned, objects_per_cacheline","vec/*.hpp"),("samples_per_loop","simd_unroll_constraints.hpp")],
 "all byte offsets within cache lines x types x builds, guarded buffers, generated contents", "property-based testing over addresses and lengths")
prop("C23", "SSE register helpers agree with the lanes they read",
 "The register helper functions return the documented constant bit patterns, extract exactly the first or last lane, return the true minimum and maximum over all four lanes, and select per lane between two values by an all-ones/all-zeros mask. This holds with and without SSE2 and SSE4.1.",
 ["inputs","configurations"], "every register content and build", "tests do not call these helpers at all",
 ["simd_utils.hpp"], [("gen_*, extract_*, horizontal_*, select_vector","simd_utils.hpp")],
 "generated register contents with planted extrema per lane, bit-exact oracle", "property-based testing against a lane model")
prop("C24", "Plain, vectorised and unrolled forms agree on every instruction set",
 "For the same arguments the plain loop, the run-time vectorised and the compile-time unrolled form of a function give the same result on every supported build: bit-identical (up to the sign of zero, NaN payload and rounding ties) for exact operations, within the documented accuracy for approximated ones. A constant operand, a buffer filled with that constant and a ramp with zero slope are interchangeable.",
 ["inputs","configurations"], "every function, argument, operand kind, length and pair of forms and builds", "tests compare forms inside one build only, on one block size",
 ["detail/define_macros.hpp","detail/unroll_helpers.hpp","detail/wrap_arguments.hpp","detail/wrap_argument_vector.hpp","vec.hpp"],
 [("wrappers for the three forms","detail/define_macros.hpp")],
 "generated calls executed in every form and build, pairwise differential comparison", "cross-configuration differential property testing")
prop("C25", "Calls are pure: no hidden state, floating-point environment untouched",
 "Repeating a call with the same arguments gives bit-identical results whatever other calls ran before or run at the same time in other threads. No call changes the floating-point control state (rounding mode, flush-to-zero, denormals-are-zero, exception masks).",
 ["histories","schedules","configurations"], "every interleaving of generated calls in one or several threads", "tests run every call once, in one thread, and do not look at the control registers",
 ["detail/vec_math.hpp","simd_math.hpp","simd_memory.hpp","detail/define_macros.hpp"],
 [("no static mutable state in functions","detail/vec_math.hpp")],
 "generated call histories replayed in different order and in concurrent threads, bitwise comparison, control register snapshots", "stateful property-based testing of call histories")
prop("C26", "Header-only: any inclusion set, order and number of units works",
 "Every public header is self-contained and header-only: any sequence of public headers, included in any order, repeatedly, mixed with standard headers and in any number of translation units of one program, compiles, links and runs, with and without NDEBUG and on every x86 instruction set. Each function a header offers is usable with that header alone in its plain, run-time and compile-time vectorised form for float and double, and the forms then agree.",
 ["inputs","configurations"], "every sequence of public headers in every number of translation units and build mode", "each test program is one translation unit with one fixed set of headers",
 ["simd_binary_arithmetic.hpp","simd_math.hpp","simd_memory.hpp","simd_utils.hpp","detail/math.hpp","detail/define_macros.hpp","vec.hpp"],
 [("inline functions, include guards and includes of every header","detail/math.hpp")],
 "generated multi-unit programs that include header sequences and call their functions; compile, link and run, shrunk to a minimal program", "property-based testing with generated programs")
prop("C27", "NEON and Altivec builds compute the same buffers as the x86 build",
 "For finite samples every float buffer function of the ARM NEON and PowerPC Altivec builds stores what the SSE2 build of the same call stores; comparisons, sums, differences, products, minima, maxima, abs and sgn also do so for infinite samples. Exceptions: the sign of zero; fused or differently ordered additions, within rounding; and quotients, reciprocals and signed square roots of normal numbers, which these builds refine from hardware estimates (relative error at most 2^-13, for NEON roots 2^-7); signed_sqrt(0) is 0.",
 ["inputs","configurations"], "every float buffer function, length and finite sample values, for both back ends", "the test suite runs on x86 only, where these files are not even compiled",
 ["vec/vec_neon.hpp","vec/vec_int_neon.hpp","vec/vec_altivec.hpp","vec/vec_int_altivec.hpp","detail/vec_math.hpp"],
 [("NEON register class","vec/vec_neon.hpp"),("Altivec register class","vec/vec_altivec.hpp")],
 "the library compiled with its NEON / Altivec back end on lane-by-lane emulated intrinsics; differential comparison with the SSE2 build on generated calls", "differential property-based testing of back ends on emulated intrinsics")
prop("C28", "NEON and Altivec register operations act lane by lane",
 "On the NEON and Altivec back ends vec<float> behaves as an array of four lanes just as on x86: loads and stores at any address, element access, fills, arithmetic, comparisons (0/1 and all-bits masks), bitwise operators, andnot(a, b) = ~a & b, select(a, b, mask) = b where the mask is set, rounding, sign, undenormalize, min/max, horizontal reductions and the delegated mathematical functions give the scalar result in each lane. Exceptions: the sign of zero, and quotients, reciprocals and square roots, which carry the error of the refined hardware estimate for normal numbers and are exact for the roots of 0 and infinity.",
 ["inputs","histories","configurations"], "every sequence of register operations on arbitrary lane contents for both back ends", "the test suite runs on x86 only, where these files are not even compiled",
 ["vec/vec_neon.hpp","vec/vec_altivec.hpp","vec/vec_base.hpp","detail/vec_math.hpp"],
 [("NEON select, andnot, estimates","vec/vec_neon.hpp"),("Altivec load/store, conversions, estimates","vec/vec_altivec.hpp")],
 "generated register programs on the NEON / Altivec back end with emulated intrinsics against a model of lanes", "stateful property-based testing of back ends on emulated intrinsics")
prop("C29", "The integer companion vector is lane-wise 32-bit two's complement",
 "vec<float>::int_vec holds one 32-bit two's complement integer per float lane: +, - wrap around, &, andnot(a, b) = ~a & b, mask_lt, mask_gt and mask_eq compare as signed numbers and give all-ones or zero, slli and srli shift by 0 to 31 bits filling with zeros, and the int constructor fills every lane. Conversions from and to vec<float> keep the bits, convert_to_float rounds each integer to the nearest float and truncate_to_int drops the fraction of every lane below 2^31 in magnitude.",
 ["inputs","histories","configurations"], "every sequence of integer register operations on arbitrary lane contents", "the tests touch this class only through a few mathematical functions",
 ["vec/vec_int_sse2.hpp","vec/vec_int_avx.hpp","vec/vec_int_neon.hpp","vec/vec_int_altivec.hpp","vec/vec_sse.hpp","vec/vec_avx_float.hpp"],
 [("integer vector classes","vec/vec_int_sse2.hpp"),("two-halves AVX implementation","vec/vec_int_avx.hpp")],
 "generated programs of integer register operations on all back ends against 32-bit arithmetic", "stateful property-based testing (register programs against a model)")
prop("C30", "No call inside its contract runs into undefined behaviour",
 "Whatever bit patterns the samples, constants and ramps have (NaN and infinity included), a call with n > 0, valid buffers and, for the vectorised forms, the required alignment and length executes no undefined operation of the language: no out-of-range or NaN float-to-integer conversion, no overflowing signed arithmetic, no invalid shift, no misaligned or out-of-bounds object access, no failing assertion. It reads no variable that was never given a value: the output does not depend on what memory or registers held before.",
 ["inputs","configurations"], "every buffer function, operand combination, form and build; every operand value including those outside a function's numeric domain",
 "undefined operations usually give the expected result in the build the test runs; tests use a few benign values and no instrumented build",
 ["detail/math.hpp","detail/vec_math.hpp","detail/wrap_argument_vector.hpp","detail/unroll_helpers.hpp","simd_horizontal_functions.hpp","simd_memory.hpp","vec/vec_base.hpp"],
 [("scalar functors","detail/math.hpp"),("register to lane access","vec/vec_base.hpp")],
 "generated calls with arbitrary operands in builds that trap on undefined behaviour, bitwise comparison of builds that start locals from a byte pattern or from zero", "property-based testing of sanitizer-instrumented builds with a differential on uninitialised data")

NOT_APPLICABLE = []

def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
                quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]],
                             observe_at=["return values and output buffers of the public functions"], hook_needed=None))) + "\n")
    claimed = [l.strip() for l in open(os.path.join(ROOT, "tools", "claimed.txt")) if l.strip()]
    m = dict(version=1, setup_cmd="python3 check.py --setup",
        checks=[dict(property=p["id"], quick_cmd="python3 check.py %s" % p["id"],
                     thorough_cmd="python3 check.py %s --tier thorough" % p["id"],
                     technique=p["technique"], level="exploration", level_note=p["level_note"]) for p in P if p["id"] in claimed],
        not_applicable=NOT_APPLICABLE + [dict(property=p["id"], reason="check still under construction") for p in P if p["id"] not in claimed])
    json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        n = p["statement"].count(". ") + 1
        if n > 3: print("sentences?", p["id"], n)
main()
