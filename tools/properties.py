"""Writes properties.jsonl and MANIFEST.json from one table (run after changing either)."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)

I, C, S, H = 'inputs', 'configurations', 'schedules', 'histories'
DISP = ['src/scaler.rs', 'src/dispatch_group_u8.rs', 'src/dispatch_group_u16.rs', 'src/dispatch_group_f32.rs']


def P(id, title, statement, over, text, why, files, mech, **k):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], **k))


TESTS = ('The 34 stable tests resize a handful of constant or sample images and look at a few pixels with a tolerance; ')

PROPS = [
    P('P01', 'Every valid resize finishes without memory errors or panics',
      'Resizing any valid image to any valid size succeeds: it reads and writes only the pixels of the images it was given, '
      'never panics, executes no CPU instruction the machine does not report, and writes every pixel of the destination.',
      [I, C], 'every pixel content (floats included: finite values), every old content of the destination, formats x kernels x CPU feature sets x '
      'strategies over the listed geometries (1x1, 1xN, Nx1, extreme ratios, every remainder of the SIMD block widths)',
      TESTS + 'most of the code is unsafe SIMD with raw pointers, chosen at run time from CPU features, widths modulo the block size and tap counts.',
      ['src/scaler.rs', 'src/filter_weights.rs', 'src/sse', 'src/avx2', 'src/convolution.rs'],
      [('kernel window and bounds', 'src/scaler.rs generate_weights'), ('row loops with raw pointers', 'src/sse/*.rs, src/avx2/*.rs'),
       ('run-time dispatch', 'src/dispatch_group_*.rs, src/*.rs HorizontalConvolutionPass / VerticalConvolutionPass impls')]),
    P('P02', 'Malformed images and sizes are rejected with an error, well-formed ones pass',
      'A resize whose source or destination has a zero dimension, a buffer that is not stride times height, a stride shorter than a row, '
      'or (for 16-bit data) a bit depth outside 1 to 16 (of the destination) returns an error and touches nothing. '
      'It never panics, overflows or reads, and a resize without such a fault is accepted.',
      [I, C], 'every combination of width, height, stride, buffer length and bit depth of both images as 64-bit values, every entry point',
      TESTS + 'none passes malformed descriptions; the arithmetic of the checks can overflow only for sizes nobody allocates.',
      ['src/image_store.rs', 'src/scaler.rs', 'src/resize_ar30.rs', 'src/pic_scale_error.rs'],
      [('store validation', 'src/image_store.rs validate'), ('packed 10-bit validation', 'src/resize_ar30.rs')]),
    P('P03', 'Resizing to the same size copies the image exactly',
      'When source and destination have the same size, the destination becomes a bit-exact copy of the source pixels, for every kernel, format, '
      'strategy, thread policy, CPU and pair of strides.',
      [I, C], 'every pixel content and old destination content; formats x kernels x CPU feature sets x strategies x alpha flag x geometries',
      TESTS + 'none resizes to the same size with strides, or with more than one kernel.',
      ['src/scaler.rs', 'src/image_store.rs', 'src/resize_ar30.rs'], [('early return for equal sizes', 'src/scaler.rs generic_resize*, src/resize_ar30.rs')]),
    P('P04', 'Results for 8-bit images are the exact convolution up to rounding',
      'Each destination sample of an 8-bit image is the kernel-weighted average of the source samples under it, clamped to 0..255, within half a level '
      'plus the stated rounding of the fixed-point weights; this holds on every CPU and for every strategy.',
      [I, C], 'all sample values 0..255 of all pixels at once; formats, kernels, CPU feature sets, strategies and geometries as listed',
      TESTS + 'a wrong tap, weight or rounding in one SIMD variant shifts results by less than the tests tolerate or at widths they do not use.',
      DISP[:2] + ['src/sse', 'src/avx2', 'src/fixed_point_horizontal.rs', 'src/fixed_point_vertical.rs', 'src/filter_weights.rs'],
      [('fixed-point row passes', 'src/sse/rgba_u8.rs, src/avx2/rgba_u8.rs and siblings'), ('scalar passes', 'src/fixed_point_horizontal.rs, src/fixed_point_vertical.rs'), ('weights', 'src/scaler.rs generate_weights, src/filter_weights.rs')]),
    P('P05', 'Results for 10 to 16-bit images are the exact convolution up to rounding',
      'Each destination sample of a 16-bit image of declared bit depth is the kernel-weighted average of the source samples under it, within the stated '
      'rounding, and lies between 0 and 2^depth-1.',
      [I, C], 'all sample values 0..2^depth-1 of all pixels at once; depths 1..16, formats, kernels, CPU feature sets, strategies, geometries as listed',
      TESTS + 'overshoot past the depth and rounding differences need specific contents.',
      ['src/dispatch_group_u16.rs', 'src/sse', 'src/avx2', 'src/scaler.rs'], [('u16 row passes', 'src/sse/*_u16*.rs, src/avx2/*_u16*.rs'), ('float passes for deep images', 'src/mixed_storage.rs, src/floating_point_horizontal.rs, src/floating_point_vertical.rs')]),
    P('P06', 'Results for float images are the exact convolution up to float rounding',
      'Each destination sample of a 32-bit float image is the kernel-weighted average of the source samples under it, unclamped, within a few '
      'units of float rounding per tap.',
      [I, C], 'all real source values in the listed range for all pixels at once; formats, kernels, CPU feature sets, geometries as listed',
      TESTS + 'float results are compared on constants only.',
      ['src/dispatch_group_f32.rs', 'src/sse', 'src/avx2', 'src/floating_point_horizontal.rs', 'src/floating_point_vertical.rs'], [('f32 row passes', 'src/sse/*_f32.rs, src/avx2/*_f32.rs')]),
    P('P07', 'Every kernel uses its documented weights, normalised',
      'For each of the offered kernels the weights the library applies are the values of that kernel at the tap distances (stretched when shrinking), '
      'divided by their sum, over the pixels of the image whose centres are closer to the sample position than half the (stretched) size of the kernel.',
      [I, C], 'all float source values; all 49 kernels x listed size pairs (shrinking, enlarging, extreme ratios, size one)',
      TESTS + 'most kernels are not used by any test.',
      ['src/scaler.rs', 'src/sampler.rs', 'src/math'], [('kernel table', 'src/sampler.rs get_resampling_filter'), ('window and normalisation', 'src/scaler.rs generate_weights'), ('kernel functions', 'src/math/*.rs')]),
    P('P08', 'A constant image stays constant',
      'Resizing an image in which all pixels are equal gives an image in which all pixels equal that value, up to one level of rounding (float: a relative '
      '1e-5; 8-bit images with the low-precision strategy: one level per pass), whatever the kernel, the sizes and the format.',
      [I, C], 'every value of the constant in each channel; all kernels x formats x CPU feature sets x geometries as listed',
      TESTS + 'they use single colours, for few kernels.',
      ['src/scaler.rs', 'src/filter_weights.rs'], [('normalisation', 'src/scaler.rs generate_weights'), ('fixed-point weights', 'src/filter_weights.rs')]),
    P('P09', 'Row strides never matter',
      'The result pixels do not depend on the strides of source and destination nor on the bytes between the rows, and bytes between the rows of the '
      'destination keep their old content.',
      [I, C], 'every pixel and padding content, old destination content; pairs of strides x formats x kernels x CPU feature sets x geometries, with and without alpha handling',
      TESTS + 'all of them use tight buffers.',
      ['src/image_store.rs', 'src/scaler.rs', 'src/resize_ar30.rs', 'src/alpha_handle_u8.rs', 'src/alpha_handle_u16.rs', 'src/alpha_handle_f32.rs'],
      [('row iteration', 'HorizontalConvolutionPass / VerticalConvolutionPass impls, chunks of the stride'), ('intermediate buffers', 'src/scaler.rs')]),
    P('P10', 'Alpha premultiplication is neutral when alpha is constant',
      'Asking for alpha premultiplication does not change the result for an opaque image, nor for an image whose alpha has one value everywhere.',
      [I, C], 'all colour values of all pixels and every value of the common alpha; formats x kernels x CPU feature sets x depths x geometries, strides included',
      TESTS + 'alpha handling is tested with single colours.',
      ['src/scaler.rs', 'src/image_store.rs', 'src/alpha_check.rs'], [('alpha detection', 'src/scaler.rs, src/alpha_check.rs, src/sse/check_alpha.rs'), ('premultiplied path', 'src/scaler.rs forward_resize_with_alpha')]),
    P('P11', 'Premultiplied resizing is alpha-weighted averaging',
      'With premultiplication each result colour is the kernel average of colour times alpha divided by the kernel average of alpha, within the stated '
      'rounding (scaled by 1/alpha), and the resulting alpha is the plain resize of the alpha plane.',
      [I, C], 'all colour values of all pixels, for the listed alpha planes (every 8-bit alpha, sampled 16-bit ones); CPU feature sets x depths x kernels x geometries',
      TESTS + 'rounding and saturation in the multiply and divide steps need specific pairs of colour and alpha.',
      ['src/alpha_handle_u8.rs', 'src/alpha_handle_u16.rs', 'src/alpha_handle_f32.rs', 'src/sse/alpha_u8.rs', 'src/avx2/alpha_u8.rs', 'src/sse/alpha_u16.rs', 'src/avx2/alpha_u16.rs'],
      [('premultiply', 'premultiply_alpha_* in src/alpha_handle_*.rs and SIMD versions'), ('unpremultiply', 'unpremultiply_alpha_*')]),
    P('P12', 'Colours of fully transparent pixels never show',
      'With alpha premultiplication, the colour stored in a source pixel whose alpha is zero has no influence on any destination sample, as long as the image has a visible pixel (an image transparent throughout is one of constant alpha).',
      [I, C], 'all colour values of all pixels, hidden and visible, for the listed alpha patterns; formats x CPU feature sets x depths x kernels x geometries',
      TESTS + 'needs transparent pixels with contrasting colours.',
      ['src/scaler.rs', 'src/alpha_handle_u8.rs', 'src/alpha_handle_u16.rs', 'src/alpha_handle_f32.rs'], [('premultiply before the passes', 'src/scaler.rs'), ('row kernels', 'src/sse/alpha_*.rs, src/avx2/alpha_*.rs')]),
    P('P13', 'Nearest sampling copies the source pixel under each sample position',
      'With the nearest kernel every destination pixel is a bit-exact copy of the source pixel that contains the position of its centre.',
      [I, C], 'every pixel content; formats x strategies x strides x geometries',
      TESTS + 'positions at pixel borders and strides are not tested.',
      ['src/nearest_sampler.rs', 'src/scaler.rs'], [('nearest sampler', 'src/nearest_sampler.rs')]),
    P('P14', 'Threads change nothing',
      'The result is the same for every threading policy, number of threads and interleaving of the workers, no two workers touch the same memory when one '
      'of them writes it, and the single-threaded policy uses no other thread.',
      [S, I, C], 'all interleavings (footprints of the parallel items do not overlap) and three concrete orders, every pixel content; policies x formats x geometries',
      TESTS + 'the tests use the default policy, and one interleaving.',
      ['src/threading_policy.rs', 'src/scaler.rs', 'src/convolution.rs'], [('pool', 'src/threading_policy.rs'), ('parallel rows', 'par_chunks_exact_mut in the pass impls')]),
    P('P15', 'CPU tiers and strategies agree',
      'Whichever SIMD variant the CPU selects and whichever workload strategy is asked for, the results differ by no more than the rounding allowed to each.',
      [I, C], 'all sample values of all pixels; pairs of CPU feature sets and strategies x formats x kernels x geometries',
      TESTS + 'tests run on one CPU.',
      ['src/dispatch_group_u8.rs', 'src/dispatch_group_u16.rs', 'src/dispatch_group_f32.rs'], [('run-time dispatch', 'is_x86_feature_detected in src/*.rs')]),
    P('P16', 'Packed 10-bit images are resized like their unpacked channels',
      'Resizing a packed 2-10-10-10 image, in either channel order and byte order, gives the packed form of what resizing its three colours '
      'gives: each 10-bit colour is the kernel average within rounding, no field leaks into another, and the 2-bit field says opaque in every pixel that was resampled rather than copied.',
      [I, C], 'all field values of all pixels; packings x byte orders x kernels x CPU feature sets x geometries, strides included',
      TESTS + 'AR30 is not tested at all.',
      ['src/resize_ar30.rs', 'src/ar30.rs', 'src/fixed_point_horizontal_ar30.rs', 'src/fixed_point_vertical_ar30.rs', 'src/dispatch_group_ar30.rs'], [('pack and unpack', 'src/ar30.rs, src/sse/utils, src/avx2/utils'), ('passes', 'src/resize_ar30.rs')]),
    P('P17', 'Kernels without negative lobes never overshoot',
      'With a kernel whose weights are not negative, every result lies between the smallest and the largest source value of its channel, up to rounding, '
      'so bits beyond the largest source value never appear.',
      [I, C], 'all sample values in every sub-range [lo, hi] with lo and hi symbolic; kernels x formats x CPU feature sets x geometries',
      TESTS + 'no test looks at ranges.', ['src/scaler.rs', 'src/sampler.rs'], [('weights', 'src/scaler.rs generate_weights')]),
    P('P18', 'Two-dimensional resizing is one pass per axis',
      'A resize that changes both dimensions gives the same samples as resizing first one axis and then the other with two calls, so each axis uses '
      'the kernel and sizes of its own.',
      [I, C], 'all sample values of all pixels; formats x kernels x CPU feature sets x strategies x geometries',
      TESTS + 'none compares a two-axis resize with two one-axis ones.', ['src/scaler.rs'], [('pass order', 'src/scaler.rs generic_resize')]),
    P('P19', 'Channels and distant pixels do not influence each other',
      'A destination sample depends only on source samples of its own channel inside the kernel window around its position.',
      [I, C], 'all sample values of all pixels; formats x kernels x CPU feature sets x strategies x geometries',
      TESTS + 'constant images hide mixed channels and wrong positions.', ['src/scaler.rs', 'src/sse', 'src/avx2'], [('row passes', 'src/sse, src/avx2'), ('windows', 'src/scaler.rs generate_weights')]),
    P('P20', 'The number of threads is always within its limits',
      'The thread count derived from a policy is at least one for every image size, exactly one for the single policy, the requested count for a fixed '
      'one, and no more than the machine offers for the adaptive one.',
      [I, C], 'every width, height and requested count as 64-bit values, every policy',
      TESTS + 'no test asks for unusual sizes.', ['src/threading_policy.rs'], [('thread_count', 'src/threading_policy.rs')]),
    P('P21', 'Image stores report and copy exactly what they hold',
      'Constructing, allocating, copying and re-borrowing an image store keeps size, stride, bit depth and every pixel: constructors accept exactly the '
      'buffers of width times height times channels, copies equal their source and never touch padding, and allocated stores are zeroed.',
      [I, H], 'every width, height and buffer length as symbolic values for the constructors; every content for copies at the listed geometries',
      TESTS + 'copies with padding are not tested.', ['src/image_store.rs'], [('stores', 'src/image_store.rs')]),
    P('P22', 'Colour-space scalers resize in their space and touch only their pixels',
      'The scalers that work in Lab, Luv, LCh, Oklab, linear, sigmoidal, XYZ and Jzazbz space do exactly this: convert every pixel, resize with the plain scaler of the same kernel, threading '
      'policy and premultiplication, and convert back. They honour the strides of both images, leave the padding of the destination alone, copy an image of the same size, and accept and reject the same '
      'images as the plain scaler.',
      [I, C], 'formats x colour spaces x geometries x strides',
      TESTS + 'colour scalers are tested on one picture each.', ['src/colors'], [('colour scalers', 'src/colors/*.rs')]),
    P('P23', 'Half-float images are resized like float ones',
      'Each destination sample of a half-float image (1 to 4 channels) is the kernel-weighted average of the source samples under it within half-float rounding, on every CPU feature set including those without '
      'half-float instructions; with premultiplication it is the alpha-weighted average and colours of fully transparent pixels do not show. Copies, Nearest, axes and channels in isolation, row padding on either side, thread policies, the '
      'store\'s scale method, rejection of bad requests and memory safety hold as for the other formats.',
      [I, C], 'finite half-float values; kernels x CPU feature sets x geometries x strides x thread policies', TESTS + 'f16 is only built with a nightly feature and not tested.',
      ['src/dispatch_group_f16.rs', 'src/scaler_f16.rs', 'src/f16.rs', 'src/sse/f16_utils.rs', 'src/alpha_handle_f16.rs'],
      [('f16 passes', 'src/dispatch_group_f16.rs'), ('conversion without F16C', 'src/sse/f16_utils.rs'), ('alpha', 'src/alpha_handle_f16.rs')]),
    P('P24', 'The convenience method and the scalers are the same operation',
      'Resizing through the method of the image store gives exactly what the scaler object gives with the same kernel, strategy, premultiplication and threading.',
      [I, C], 'every pixel content; formats x kernels x alpha flag x geometries', TESTS + 'the two entry points are not compared.',
      ['src/image_store.rs', 'src/scaler.rs'], [('entry points', 'src/scaler.rs, trait ImageStoreScaling')]),
    P('P25', 'A resize does not depend on what was resized before',
      'Whatever was resized or rejected before, with the same scaler or another one, and whatever settings were changed and set back, a resize writes exactly the samples it writes as the first one of the process and asks for '
      'the same threads.',
      [I, C], 'every pixel content; formats x kernels x strategies x policies x kinds of earlier resizes', TESTS + 'each test resizes once.',
      ['src/scaler.rs', 'src/filter_weights.rs', 'src/threading_policy.rs'], [('weights', 'Scaler::generate_weights'), ('scratch images', 'Scaler::generic_resize'), ('settings', 'Scaler::set_*')]),
    P('P26', 'Processors with AVX-512 or AVX-VNNI get the same images',
      'Built with the nightly_avx512 feature and run on a processor with AVX-512 (with or without VBMI, VNNI) or AVX-VNNI, resizing 8- and 16-bit images is safe, computes the convolution of P04 and P05 within the same tolerance, treats '
      'alpha as P10 to P12 say (decides the same way whether premultiplication is needed, leaves alpha itself alone, recovers colours, ignores invisible ones), and does not depend on padding, neighbours or threads.',
      [I, C], 'every pixel content; formats x strategies x CPU feature sets x geometries', TESTS + 'this code is not built by the test configuration.',
      ['src/avx512/', 'src/avx2/utils.rs', 'src/rgba_u8.rs'], [('premultiplication', 'src/avx512/alpha_u8.rs'), ('alpha check', 'src/avx512/check_alpha.rs'), ('convolution', 'src/avx512/vertical_*.rs, rgba_u8_dot.rs')]),
    P('P27', 'Left and right, rows and columns, and the channels are treated alike',
      'Mirroring the source along either axis mirrors the result, exchanging the rows of the source (and the sizes) with its columns exchanges those of the result, and '
      'permuting the channels permutes those of the result, up to rounding (for every kernel but the Ewa ones).',
      [I, C], 'every pixel value; kernels x formats x CPU feature sets x geometries as listed',
      TESTS + 'images that are symmetric or constant cannot show a lean to one side.',
      ['src/scaler.rs', 'src/filter_weights.rs', 'src/sse', 'src/avx2'], [('sampling window', 'src/scaler.rs generate_weights'), ('row and column passes', 'src/sse, src/avx2, src/*_horizontal.rs, src/*_vertical.rs')]),
]


def main():
    from checks import registry
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            f.write(json.dumps(p) + '\n')
    checks, na = [], []
    for p in PROPS:
        i = p['id']
        r = registry.PROPS.get(i)
        if r is None:
            na.append(dict(property=i, reason=registry.NOT_APPLICABLE[i]))
            continue
        checks.append(dict(property=i, quick_cmd='python3-vt checks/run.py %s --tier quick' % i,
                           thorough_cmd='python3-vt checks/run.py %s --tier thorough' % i, evidence_file='evidence/%s.json' % i,
                           technique='bounded symbolic execution of the LLVM IR of the current tree; assertions decided by z3; counterexamples replayed on the compiled library',
                           level='other', level_note=r.note or 'Exhaustive over all pixel values within the stated bounds on kernels, sizes, strides, CPU tiers; see coverage.explanation'))
    m = dict(version=1, setup_cmd='sh setup.sh', checks=checks, not_applicable=na)
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
