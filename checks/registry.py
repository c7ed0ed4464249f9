"""The properties and their checks."""
from . import p_conv, p_struct, p_alpha, p_api, p_mem, p_kern, p_ar30, p_color, p_f16, p_512


class Prop:
    def __init__(self, jobs, bounds, features=(), assumptions=(), quick=240, thorough=780, limit=60, note=None):
        self.jobs = jobs
        self.bounds = bounds
        self.features = features
        self.assumptions = list(assumptions) + COMMON
        self.quick_budget = quick
        self.thorough_budget = thorough
        self.limit = limit
        self.note = note


COMMON = ['The LLVM IR rustc emits (optimised, loop and SLP vectorisers off) means what the shipped binary does',
          'Model of LLVM and x86 intrinsics in engine/intrinsics.py, compared with the CPU on random inputs in each job',
          'aarch64 and wasm code is outside (not compiled on this target)',
          'The allocator succeeds; the standard library and rayon behave as documented (rayon is replaced by a model that runs the parallel items in a chosen order)']

TIERS = 'CPU feature sets: none, SSE4.1, AVX2 without FMA, AVX2 with FMA (and F16C where it matters). '
NOT = 'Outside: sizes, strides and kernels not listed, images larger than those listed (64 pixels on a side; rows and columns up to 300 for P04 to P06), NaN and infinite samples, aarch64, wasm; AVX-512 and AVX-VNNI code is P26. '

NOT_API = 'Outside: f16 formats, aarch64, wasm. '

PROPS = {
    'P01': Prop(p_mem.p01, 'All 16 formats; every kernel but Bartlett occurs; rows of 1 to 33 (thorough 64) pixels at 1 to 13 heights, columns of 1 to 67 (thorough 97) pixels, ratios up to 200:1 and 1:150, both strategies, depths 1 to 16, '
                'paddings, policies Single and Fixed; pixel contents symbolic over the whole storage type, floats in [-1e30, 1e30]; alpha symbolic for one or two pixels and concrete patterns above. '
                'The engine decides each access, each panic branch and each instruction; checks are compiled with overflow checks on. ' + TIERS + 'Also AVX without AVX2. ' + NOT),
    'P02': Prop(p_api.p02, 'Width, height, stride, buffer length (elements) and bit depth of both images are symbolic over the whole machine word, for all 16 formats of the plain and packed scalers and both entry points; '
                'strides given or derived; a path is followed until it is decided whether the description is rejected. Whether an accepted image is then resized is the business of the other checks. ' + NOT_API),
    'P03': Prop(p_struct.p03, 'All 17 plain and packed formats, seven geometries from 1x1 to 33x3 with paddings, kernels incl. Nearest, both strategies, alpha flag on and off. ' + TIERS + NOT),
    'P04': Prop(p_conv.p04, 'u8 formats with 1 to 4 channels; geometries reaching each SIMD block width and remainder, row counts modulo 4, tap counts 1 to 80, rows and columns up to 300 samples; Bilinear, Lanczos3, Bicubic, Area and others; both strategies. '
                'Tolerance: 0.5 + taps*255/65536 + n*255/200000 levels for the quality strategy, plus sum|w|*(255/256+1/64)+n/128 for the low-precision one. ' + TIERS + NOT),
    'P05': Prop(p_conv.p05, 'u16 formats with 1 to 4 channels at depths 8, 10, 12, 16 and in turn the others (thorough: 1 to 16); geometries as for P04; tolerance 0.5 + taps*vmax/65536 + n*vmax/200000 up to 12 bits, '
                '0.5 + vmax*(sum|w|(3n+4)/2^24 + n/1e6) above. ' + TIERS + NOT),
    'P06': Prop(p_conv.p06, 'f32 formats with 1 to 4 channels, source values in the stated interval; tolerance amplitude*(sum|w|(n+4)/2^23 + n/1e5). Rounding of every float operation is bounded symbolically. ' + TIERS + NOT),
    'P07': Prop(p_kern.p07, 'All kernels but Bartlett (whose weights, as coded, cancel) and Nearest (P13); 22 pairs of sizes from 1 to 100, those left out where a tap lies within 3e-6 of a jump of the kernel or the window; decided on '
                'single-channel float images in both directions (plus u8 and u16), with the tolerance of P06 (Sphinx: plus 1e-3, as coded it cancels near zero in single precision). The reference evaluates the kernels in double precision (Bessel functions from their integral and series). ' + NOT),
    'P08': Prop(p_kern.p08, 'One symbolic value per channel; all kernels but Bartlett and Nearest; seven geometries, formats with 1 to 4 channels, depths 8, 10, 12, 16, both strategies; tolerance one level (u8 with the low-precision strategy: one per pass; float: 1e-5 of the amplitude). ' + TIERS + NOT),
    'P09': Prop(p_struct.p09, 'Padding of 0 to 9 elements on either side, all formats, alpha handling on and off. Padding contents and the old destination are symbolic. ' + TIERS + NOT),
    'P10': Prop(p_alpha.p10, 'RGBA u8, u16 (depths 8, 10, 16), f32; five geometries, strides padded and tight; the common alpha is opaque or one symbolic value. ' + TIERS + NOT),
    'P11': Prop(p_alpha.p11, 'RGBA u8 (every alpha), u16 (depths 8 to 16, sampled alphas), f32; colours symbolic, the alpha plane concrete; results whose alpha is below 1/20 of the maximum and pixels whose fixed-point weights saturate '
                '(known finding of P04) are left out. Tolerance: vmax*(2 passes + half a level per tap)/alpha + 1.5. ' + TIERS + NOT),
    'P12': Prop(p_alpha.p12, 'RGBA u8, u16 (depths 8, 10, 12, 16), f32 in [+0, 1]; four alpha patterns with transparent pixels; decided by the support of the result terms and, where a hidden colour remains in it, by z3. ' + TIERS + NOT),
    'P13': Prop(p_struct.p13, 'All formats, geometries from 1x1 to 40x3 in both directions, paddings; position = floor((i + 1/2) * source / destination), ties to the lower pixel as the float rounding of the code has it. ' + TIERS + NOT),
    'P14': Prop(p_struct.p14, 'Policies Single, Fixed(2, 3, 7), Adaptive; parallel items run in three orders; for each parallel region z3 is asked for two items and an address both touch and one writes. Interleavings inside items are covered by the '
                'absence of shared writes. ' + TIERS + NOT, assumptions=['rayon runs each item of a parallel iterator exactly once and joins before returning']),
    'P15': Prop(p_kern.p15, 'Pairs of CPU feature sets and of strategies on the same symbolic image; four (thorough eight) two-dimensional and one-dimensional geometries; tolerance: the sum of what P04 to P06 allow each of the two. ' + TIERS + NOT),
    'P16': Prop(p_ar30.p16, 'Both channel orders and byte orders (the packings the scaler offers), every field of every pixel symbolic; geometries of one and both axes reaching each block width, row count and remainder of the passes; '
                'tight and padded strides; several kernels, policies Single and Fixed. Tolerance: half a 10-bit level per pass plus the rounding of the fixed-point weights. ' + TIERS + NOT),
    'P17': Prop(p_kern.p17, 'The thirteen kernels that are never negative, seven geometries; lo and hi symbolic per channel; tolerance: the rounding allowed to each pass, in whole levels (0 or 1 per pass) for integer formats. ' + TIERS + NOT),
    'P18': Prop(p_struct.p18, 'Formats and kernels as listed in the jobs; u8, u16 and float; equality of terms, or within the rounding of one pass where the order differs. ' + TIERS + NOT),
    'P19': Prop(p_struct.p19, 'All formats; kernel window = support times the shrink factor plus one pixel; decided by the support of the result terms and z3 where a foreign sample remains in it. ' + TIERS + NOT),
    'P20': Prop(p_api.p20, 'Image size, requested count (both any machine word) and number of CPUs (1 to 2^32, or unknown) symbolic for the policy\'s own arithmetic; the number of threads a resize asks for is read off the runs of all formats. ' + NOT_API),
    'P21': Prop(p_api.p21, 'Constructors: width, height and length symbolic over the whole machine word (allocating ones up to what fits in memory), all element types and channel counts. Contents: symbolic elements for the listed sizes and paddings. ' + NOT_API),
    'P22': Prop(p_color.p22, 'The nine colour scalers, RGB and (where offered) RGBA, transfer functions, kernels and policies as listed in the jobs; strides padded and tight; concrete alpha patterns where the scaler premultiplies; '
                'sizes, strides and lengths symbolic for accepting and rejecting. Compared term by term with the conversions of the crate colorutils-rs around the plain scaler; what these conversions compute is that crate\'s business. ' + TIERS + NOT, features=('colors',),
                assumptions=['the mathematical functions of the C library return the same value for the same argument']),
    'P23': Prop(p_f16.p23, 'f16 formats with 1 to 4 channels; samples in [-1, 1] (alpha runs [0, 1], thorough also [-9000, 9000]); geometries of one axis as for P06, two axes, copies, Nearest, padded strides, policies, premultiplied runs under '
                'concrete alpha patterns and symbolic alphas. Tolerance per pass: that of P06 plus half a unit in the last place of the half-precision result. Conversions written out with integer instructions (no F16C) are cut out of '
                'the terms and shown by z3 over bit vectors to be exact (from half) or within half a unit (to half) for every magnitude up to 65000. CPU feature sets: none, SSE4.1 and AVX2 with and without F16C and FMA. ' + NOT, features=('nightly',)),
    'P24': Prop(p_api.p24, 'All formats; Lanczos3, Bilinear, Nearest (thorough: more), quality strategy, alpha handling on and off, policies Single and Adaptive; equality of terms, settled by z3 where they differ. ' + TIERS + NOT),
    'P25': Prop(p_api.p25, 'Plain formats and packed ones; one earlier resize (the same, transposed sizes, a smaller source, another kernel, strategy, policy, format, depth, alpha handling, a rejected request, a copy, Nearest), then the one that '
                'is checked, with the settings restored; two kernels, both strategies, policies Single and Adaptive. All samples symbolic. ' + TIERS + NOT),
    'P26': Prop(p_512.p26, 'u8 and u16 formats with 1 to 4 channels on four CPU feature sets: AVX-VNNI, AVX-512 F and BW, with VBMI, with VBMI and VNNI; geometries and tolerances of P04 and P05 plus rows around multiples of 64 bytes, '
                'both strategies; alpha patterns of P11, P12 and symbolic ones; strides, thread policies, memory safety as in P09, P14, P01. AVX-512 FP16 (another nightly feature) is outside. ' + NOT, features=('nightly',)),
    'P27': Prop(p_kern.p27, 'Every kernel but the Ewa ones (whose smoothing leans to one side by construction), Nearest (P13) and Bartlett (cancels); size pairs as listed, those left out where a tap lies within 3e-6 of a jump of the kernel '
                'or its window; both axes; rows exchanged with columns for float, and for one axis at a time for integers (clamping between the passes makes the order visible there). Packed, half-float and premultiplied images are outside. '
                'Tolerance: what P04 to P06 allow each of the two results. ' + TIERS + NOT),
}

NOT_APPLICABLE = {}
