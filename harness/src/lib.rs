//! C-callable wrappers around pic-scale's public API. The same file is compiled twice: once to
//! LLVM IR (with the rayon model) for the symbolic executor, once natively (with the real rayon)
//! for replaying counterexamples and for validating the executor.
#![allow(clippy::missing_safety_doc)]
#![cfg_attr(feature = "nightly", feature(f16))]
use pic_scale::*;
use std::borrow::Cow;
use std::fmt::Debug;

#[repr(C)]
pub struct Job {
    pub fmt: u64,
    pub filter: u64,
    pub workload: u64,
    pub policy: u64,
    pub threads: u64,
    pub premul: u64,
    pub src: *const u8,
    pub src_len: usize,
    pub sw: usize,
    pub sh: usize,
    pub sstride: usize,
    pub sdepth: usize,
    pub dst: *mut u8,
    pub dst_len: usize,
    pub dw: usize,
    pub dh: usize,
    pub dstride: usize,
    pub ddepth: usize,
    pub kind: u64,
    pub schan: usize,
    pub dchan: usize,
    pub extra: u64,
    pub out: [usize; 8],
}

fn code(r: Result<(), PicScaleError>) -> i32 {
    match r {
        Ok(()) => 0,
        Err(e) => ecode(&e),
    }
}

fn ecode(e: &PicScaleError) -> i32 {
    match e {
        PicScaleError::ZeroImageDimensions => 1,
        PicScaleError::SourceImageIsTooLarge => 2,
        PicScaleError::DestinationImageIsTooLarge => 3,
        PicScaleError::BufferMismatch(_) => 4,
        PicScaleError::InvalidStride(_, _) => 5,
        PicScaleError::UnsupportedBitDepth(_) => 6,
        #[allow(unreachable_patterns)]
        _ => 7,
    }
}

unsafe fn src_store<'a, T: Copy + Debug, const N: usize>(j: &Job) -> ImageStore<'a, T, N> {
    ImageStore {
        buffer: Cow::Borrowed(unsafe { core::slice::from_raw_parts(j.src as *const T, j.src_len) }),
        channels: if j.schan == 0 { N } else { j.schan },
        width: j.sw,
        height: j.sh,
        stride: j.sstride,
        bit_depth: j.sdepth,
    }
}

unsafe fn dst_store<'a, T: Copy + Debug, const N: usize>(j: &Job) -> ImageStoreMut<'a, T, N> {
    ImageStoreMut {
        buffer: BufferStore::Borrowed(unsafe {
            core::slice::from_raw_parts_mut(j.dst as *mut T, j.dst_len)
        }),
        channels: if j.dchan == 0 { N } else { j.dchan },
        width: j.dw,
        height: j.dh,
        stride: j.dstride,
        bit_depth: j.ddepth,
    }
}

fn filter_of(v: u64) -> ResamplingFunction {
    ResamplingFunction::from(v as u32)
}

fn policy_of(j: &Job) -> ThreadingPolicy {
    match j.policy {
        0 => ThreadingPolicy::Single,
        1 => ThreadingPolicy::Fixed(j.threads as usize),
        _ => ThreadingPolicy::Adaptive,
    }
}

fn scaler_of(j: &Job) -> Scaler {
    let mut s = Scaler::new(filter_of(j.filter));
    s.set_threading_policy(policy_of(j));
    if j.workload != 0 {
        s.set_workload_strategy(if j.workload == 1 {
            WorkloadStrategy::PreferQuality
        } else {
            WorkloadStrategy::PreferSpeed
        });
    }
    s
}

#[inline(never)]
unsafe fn resize_with(s: &Scaler, j: &Job) -> i32 {
    unsafe {
        let p = j.premul != 0;
        match j.fmt {
            0 => code(s.resize_plane(&src_store(j), &mut dst_store(j))),
            1 => code(s.resize_cbcr8(&src_store(j), &mut dst_store(j))),
            2 => code(s.resize_rgb(&src_store(j), &mut dst_store(j))),
            3 => code(s.resize_rgba(&src_store(j), &mut dst_store(j), p)),
            4 => code(s.resize_plane_u16(&src_store(j), &mut dst_store(j))),
            5 => code(s.resize_cbcr_u16(&src_store(j), &mut dst_store(j))),
            6 => code(s.resize_rgb_u16(&src_store(j), &mut dst_store(j))),
            7 => code(s.resize_rgba_u16(&src_store(j), &mut dst_store(j), p)),
            8 => code(s.resize_plane_f32(&src_store(j), &mut dst_store(j))),
            9 => code(s.resize_cbcr_f32(&src_store(j), &mut dst_store(j))),
            10 => code(s.resize_rgb_f32(&src_store(j), &mut dst_store(j))),
            11 => code(s.resize_rgba_f32(&src_store(j), &mut dst_store(j), p)),
            #[cfg(feature = "nightly")]
            12 => code(s.resize_plane_f16(&src_store(j), &mut dst_store(j))),
            #[cfg(feature = "nightly")]
            13 => code(s.resize_cbcr_f16(&src_store(j), &mut dst_store(j))),
            #[cfg(feature = "nightly")]
            14 => code(s.resize_rgb_f16(&src_store(j), &mut dst_store(j))),
            #[cfg(feature = "nightly")]
            15 => code(s.resize_rgba_f16(&src_store(j), &mut dst_store(j), p)),
            16..=19 => {
                let src = core::slice::from_raw_parts(j.src, j.src_len);
                let dst = core::slice::from_raw_parts_mut(j.dst, j.dst_len);
                let order = if j.fmt & 1 == 0 {
                    Ar30ByteOrder::Host
                } else {
                    Ar30ByteOrder::Network
                };
                let (a, b) = (ImageSize::new(j.sw, j.sh), ImageSize::new(j.dw, j.dh));
                if j.fmt < 18 {
                    code(s.resize_ar30(src, j.sstride, a, dst, j.dstride, b, order))
                } else {
                    code(s.resize_ra30(src, j.sstride, a, dst, j.dstride, b, order))
                }
            }
            _ => -1,
        }
    }
}

/// One resize through `Scaler`.
#[no_mangle]
#[inline(never)]
pub unsafe extern "C-unwind" fn h_resize(j: &Job) -> i32 {
    unsafe { resize_with(&scaler_of(j), j) }
}

/// Resizes something else first (`extra` picks what), then does what `h_resize` does.
#[no_mangle]
#[inline(never)]
pub unsafe extern "C-unwind" fn h_reuse(j: &Job) -> i32 {
    unsafe {
        let mut s = scaler_of(j);
        let mut w = core::ptr::read(j);
        match j.extra {
            0 => {}
            1 => (w.dw, w.dh) = (j.dh, j.dw),
            2 => (w.sw, w.sh) = (j.sw.max(3) - 2, j.sh.max(2) - 1),
            3 => {
                // one of the same support
                w.filter = match j.filter {
                    2 => 4,
                    27 => 20,
                    _ => 2,
                };
                s = scaler_of(&w);
            }
            4 => s.set_workload_strategy(if j.workload == 1 {
                WorkloadStrategy::PreferSpeed
            } else {
                WorkloadStrategy::PreferQuality
            }),
            5 => s.set_threading_policy(match policy_of(j) {
                ThreadingPolicy::Single => ThreadingPolicy::Fixed(3),
                ThreadingPolicy::Fixed(n) => ThreadingPolicy::Fixed(n + 2),
                _ => ThreadingPolicy::Single,
            }),
            6 => w.fmt = if j.fmt < 12 { (j.fmt + 4) % 12 } else { j.fmt % 4 + 4 },
            7 => w.sw = 0,
            8 => w.premul = 1 - j.premul,
            9 => (w.sdepth, w.ddepth) = if j.ddepth > 12 { (10, 10) } else { (16, 16) },
            10 => (w.dw, w.dh) = (j.sw, j.sh),
            11 => w.filter = 1,
            12 => (w.sw, w.sh) = (j.sw + 1, j.sh + 1),
            _ => w.filter = 27,
        }
        if j.extra > 10 {
            s = scaler_of(&w);
        }
        let px = if w.fmt < 4 {
            w.fmt + 1
        } else if w.fmt < 8 {
            2 * (w.fmt - 3)
        } else if w.fmt < 12 {
            4 * (w.fmt - 7)
        } else if w.fmt < 16 {
            2 * (w.fmt - 11)
        } else {
            4
        } as usize;
        let e = if w.fmt < 4 || w.fmt > 15 {
            1
        } else if w.fmt < 8 || w.fmt > 11 {
            2
        } else {
            4
        };
        let mut a;
        if w.fmt != j.fmt || j.extra == 12 || j.extra == 9 {
            a = vec![0u32; w.sw * w.sh * px / 4 + 1];
            w.src = a.as_mut_ptr() as *const u8;
            w.sstride = w.sw * px / e;
        }
        if w.sw != 0 {
            w.src_len = w.sstride * w.sh;
        }
        w.dstride = w.dw * px / e;
        w.dst_len = w.dstride * w.dh;
        let mut b = vec![0u32; w.dst_len * e / 4 + 1];
        w.dst = b.as_mut_ptr() as *mut u8;
        if w.filter != j.filter {
            resize_with(&s, &w);
            s = scaler_of(j);
        } else {
            resize_with(&s, &w);
            s.set_threading_policy(policy_of(j));
            s.set_workload_strategy(if j.workload == 1 {
                WorkloadStrategy::PreferQuality
            } else {
                WorkloadStrategy::PreferSpeed
            });
        }
        resize_with(&s, j)
    }
}

/// One resize through the `ImageStoreScaling::scale` convenience trait.
#[no_mangle]
#[inline(never)]
pub unsafe extern "C-unwind" fn h_scale(j: &Job) -> i32 {
    unsafe {
        let o = ScalingOptions {
            resampling_function: filter_of(j.filter),
            premultiply_alpha: j.premul != 0,
            use_multithreading: j.policy != 0,
        };
        match j.fmt {
            0 => code(src_store::<u8, 1>(j).scale(&mut dst_store(j), o)),
            1 => code(src_store::<u8, 2>(j).scale(&mut dst_store(j), o)),
            2 => code(src_store::<u8, 3>(j).scale(&mut dst_store(j), o)),
            3 => code(src_store::<u8, 4>(j).scale(&mut dst_store(j), o)),
            4 => code(src_store::<u16, 1>(j).scale(&mut dst_store(j), o)),
            5 => code(src_store::<u16, 2>(j).scale(&mut dst_store(j), o)),
            6 => code(src_store::<u16, 3>(j).scale(&mut dst_store(j), o)),
            7 => code(src_store::<u16, 4>(j).scale(&mut dst_store(j), o)),
            8 => code(src_store::<f32, 1>(j).scale(&mut dst_store(j), o)),
            9 => code(src_store::<f32, 2>(j).scale(&mut dst_store(j), o)),
            10 => code(src_store::<f32, 3>(j).scale(&mut dst_store(j), o)),
            11 => code(src_store::<f32, 4>(j).scale(&mut dst_store(j), o)),
            #[cfg(feature = "nightly")]
            12 => code(src_store::<f16, 1>(j).scale(&mut dst_store(j), o)),
            #[cfg(feature = "nightly")]
            13 => code(src_store::<f16, 2>(j).scale(&mut dst_store(j), o)),
            #[cfg(feature = "nightly")]
            14 => code(src_store::<f16, 3>(j).scale(&mut dst_store(j), o)),
            #[cfg(feature = "nightly")]
            15 => code(src_store::<f16, 4>(j).scale(&mut dst_store(j), o)),
            _ => -1,
        }
    }
}

#[cfg(feature = "colors")]
unsafe fn color<S: Scaling>(mut s: S, j: &Job) -> i32 {
    unsafe {
        s.set_threading_policy(policy_of(j));
        match j.fmt {
            1 => code(s.resize_cbcr8(&src_store(j), &mut dst_store(j))),
            2 => code(s.resize_rgb(&src_store(j), &mut dst_store(j))),
            3 => code(s.resize_rgba(&src_store(j), &mut dst_store(j), j.premul != 0)),
            _ => -1,
        }
    }
}

/// One resize through a colour-space scaler (`kind` picks it).
#[cfg(feature = "colors")]
#[no_mangle]
#[inline(never)]
pub unsafe extern "C-unwind" fn h_color(j: &Job) -> i32 {
    unsafe {
        let f = filter_of(j.filter);
        let t = TransferFunction::from(j.extra as u8);
        match j.kind {
            0 => color(LabScaler::new(f), j),
            1 => color(LChScaler::new(f), j),
            2 => color(LuvScaler::new(f), j),
            3 => color(XYZScaler::new(f), j),
            4 if j.extra == 0 => color(LinearScaler::new(f), j),
            4 => color(LinearScaler::new_with_transfer(f, t), j),
            5 if j.extra == 0 => color(LinearApproxScaler::new(f), j),
            5 => color(LinearApproxScaler::new_with_transfer(f, t), j),
            6 => color(SigmoidalScaler::new(f), j),
            7 => color(OklabScaler::new(f, t), j),
            8 => color(JzazbzScaler::new(f, 200., t), j),
            _ => -1,
        }
    }
}

/// What a colour-space scaler stands for, put together from the conversions it names and the plain
/// scaler: convert to the working space, resize there, convert back.
#[cfg(feature = "colors")]
mod composed {
    use super::*;
    use colorutils_rs::*;

    unsafe fn through<T: Copy + Debug + Default, const N: usize>(
        j: &Job,
        to: impl Fn(&[u8], u32, &mut [T], u32, u32, u32),
        resize: impl for<'a> Fn(&'a Scaler, &ImageStore<'a, T, N>, &mut ImageStoreMut<'a, T, N>) -> Result<(), PicScaleError>,
        back: impl Fn(&[T], u32, &mut [u8], u32, u32, u32),
    ) -> i32 {
        unsafe {
            let s = core::slice::from_raw_parts(j.src, j.src_len);
            let d = core::slice::from_raw_parts_mut(j.dst, j.dst_len);
            let e = core::mem::size_of::<T>();
            let mut a = vec![T::default(); j.sw * j.sh * N];
            to(s, j.sstride as u32, &mut a, (j.sw * N * e) as u32, j.sw as u32, j.sh as u32);
            let mut b = vec![T::default(); j.dw * j.dh * N];
            let mut sc = Scaler::new(filter_of(j.filter));
            sc.set_threading_policy(policy_of(j));
            let r = resize(
                &sc,
                &ImageStore::<T, N>::from_slice(&a, j.sw, j.sh).unwrap(),
                &mut ImageStoreMut::<T, N>::from_slice(&mut b, j.dw, j.dh).unwrap(),
            );
            back(&b, (j.dw * N * e) as u32, d, j.dstride as u32, j.dw as u32, j.dh as u32);
            code(r)
        }
    }

    unsafe fn rgb(
        j: &Job,
        to: impl Fn(&[u8], u32, &mut [f32], u32, u32, u32),
        back: impl Fn(&[f32], u32, &mut [u8], u32, u32, u32),
    ) -> i32 {
        unsafe { through::<f32, 3>(j, to, |s, a, b| s.resize_rgb_f32(a, b), back) }
    }

    unsafe fn rgba(
        j: &Job,
        to: impl Fn(&[u8], u32, &mut [f32], u32, u32, u32),
        back: impl Fn(&[f32], u32, &mut [u8], u32, u32, u32),
    ) -> i32 {
        unsafe { through::<f32, 4>(j, to, |s, a, b| s.resize_rgba_f32(a, b, j.premul != 0), back) }
    }

    pub unsafe fn run(j: &Job) -> i32 {
        let t = TransferFunction::from(j.extra as u8);
        let srgb = TransferFunction::Srgb;
        let (m, i) = (&SRGB_TO_XYZ_D65, &XYZ_TO_SRGB_D65);
        let l = 200f32;
        unsafe {
            match (j.kind, j.fmt) {
                (0, 2) => rgb(j, |s, p, d, q, w, h| rgb_to_lab(s, p, d, q, w, h, m, srgb), lab_to_srgb),
                (0, 3) => rgba(
                    j,
                    |s, p, d, q, w, h| rgba_to_lab_with_alpha(s, p, d, q, w, h, m, srgb),
                    |s, p, d, q, w, h| lab_with_alpha_to_rgba(s, p, d, q, w, h, i, srgb),
                ),
                (1, 2) => rgb(
                    j,
                    |s, p, d, q, w, h| rgb_to_lch(s, p, d, q, w, h, m, srgb),
                    |s, p, d, q, w, h| lch_to_rgb(s, p, d, q, w, h, i, srgb),
                ),
                (1, 3) => rgba(
                    j,
                    |s, p, d, q, w, h| rgba_to_lch_with_alpha(s, p, d, q, w, h, m, srgb),
                    |s, p, d, q, w, h| lch_with_alpha_to_rgba(s, p, d, q, w, h, i, srgb),
                ),
                (2, 2) => rgb(
                    j,
                    |s, p, d, q, w, h| rgb_to_luv(s, p, d, q, w, h, m, srgb),
                    |s, p, d, q, w, h| luv_to_rgb(s, p, d, q, w, h, i, srgb),
                ),
                (2, 3) => rgba(
                    j,
                    |s, p, d, q, w, h| rgba_to_luv_with_alpha(s, p, d, q, w, h, m, srgb),
                    |s, p, d, q, w, h| luv_with_alpha_to_rgba(s, p, d, q, w, h, i, srgb),
                ),
                (3, 2) => rgb(j, srgb_to_xyz, xyz_to_srgb),
                (3, 3) => rgba(
                    j,
                    |s, p, d, q, w, h| rgba_to_xyz_with_alpha(s, p, d, q, w, h, m, srgb),
                    |s, p, d, q, w, h| xyz_with_alpha_to_rgba(s, p, d, q, w, h, i, srgb),
                ),
                (4, 2) => rgb(
                    j,
                    |s, p, d, q, w, h| rgb_to_linear(s, p, d, q, w, h, t),
                    |s, p, d, q, w, h| linear_to_rgb(s, p, d, q, w, h, t),
                ),
                (4, 3) => rgba(
                    j,
                    |s, p, d, q, w, h| rgba_to_linear(s, p, d, q, w, h, t),
                    |s, p, d, q, w, h| linear_to_rgba(s, p, d, q, w, h, t),
                ),
                (5, 2) => through::<u8, 3>(
                    j,
                    |s, p, d, q, w, h| rgb_to_linear_u8(s, p, d, q, w, h, t),
                    |s, a, b| s.resize_rgb(a, b),
                    |s, p, d, q, w, h| linear_u8_to_rgb(s, p, d, q, w, h, t),
                ),
                (5, 3) => through::<u8, 4>(
                    j,
                    |s, p, d, q, w, h| rgba_to_linear_u8(s, p, d, q, w, h, t),
                    |s, a, b| s.resize_rgba(a, b, j.premul != 0),
                    |s, p, d, q, w, h| linear_u8_to_rgba(s, p, d, q, w, h, t),
                ),
                (6, 2) => rgb(j, rgb_to_sigmoidal, sigmoidal_to_rgb),
                (6, 3) => rgba(j, rgba_to_sigmoidal, sigmoidal_to_rgba),
                (7, 2) => rgb(
                    j,
                    |s, p, d, q, w, h| rgb_to_oklab(s, p, d, q, w, h, t),
                    |s, p, d, q, w, h| oklab_to_rgb(s, p, d, q, w, h, t),
                ),
                (7, 3) => rgba(
                    j,
                    |s, p, d, q, w, h| rgba_to_oklab(s, p, d, q, w, h, t),
                    |s, p, d, q, w, h| oklab_to_rgba(s, p, d, q, w, h, t),
                ),
                (8, 2) => rgb(
                    j,
                    |s, p, d, q, w, h| rgb_to_jzazbz(s, p, d, q, w, h, l, t),
                    |s, p, d, q, w, h| jzazbz_to_rgb(s, p, d, q, w, h, l, t),
                ),
                (8, 3) => rgba(
                    j,
                    |s, p, d, q, w, h| rgba_to_jzazbz(s, p, d, q, w, h, l, t),
                    |s, p, d, q, w, h| jzazbz_to_rgba(s, p, d, q, w, h, l, t),
                ),
                _ => -1,
            }
        }
    }
}

#[cfg(feature = "colors")]
#[no_mangle]
#[inline(never)]
pub unsafe extern "C-unwind" fn h_color_ref(j: &Job) -> i32 {
    unsafe { composed::run(j) }
}

unsafe fn fill_ref<T: Copy + Debug, const N: usize>(
    j: &mut Job,
    r: Result<ImageStore<'_, T, N>, PicScaleError>,
) -> i32 {
    match r {
        Ok(s) => {
            j.out = [
                s.width,
                s.height,
                s.stride,
                s.channels,
                s.as_bytes().len(),
                s.stride(),
                s.get_size().width,
                s.get_size().height,
            ];
            core::mem::forget(s);
            0
        }
        Err(e) => {
            let c = ecode(&e);
            core::mem::forget(e);
            c
        }
    }
}

unsafe fn fill_mut<T: Copy + Debug, const N: usize>(
    j: &mut Job,
    r: Result<ImageStoreMut<'_, T, N>, PicScaleError>,
) -> i32 {
    match r {
        Ok(s) => {
            j.out = [
                s.width,
                s.height,
                s.stride,
                s.channels,
                s.as_bytes().len(),
                s.stride(),
                s.get_size().width,
                s.get_size().height,
            ];
            core::mem::forget(s);
            0
        }
        Err(e) => {
            let c = ecode(&e);
            core::mem::forget(e);
            c
        }
    }
}

unsafe fn construct<T: Copy + Debug + Default, const N: usize>(j: &mut Job) -> i32 {
    unsafe {
        let (w, h) = (j.sw, j.sh);
        match j.kind {
            0 => {
                let s = core::slice::from_raw_parts(j.src as *const T, j.src_len);
                fill_ref::<T, N>(j, ImageStore::<T, N>::from_slice(s, w, h))
            }
            1 => {
                let s = core::slice::from_raw_parts(j.src as *const T, j.src_len);
                fill_ref::<T, N>(j, ImageStore::<T, N>::borrow(s, w, h))
            }
            2 => {
                let v = vec![T::default(); j.src_len];
                fill_ref::<T, N>(j, ImageStore::<T, N>::new(v, w, h))
            }
            3 => {
                let s = core::slice::from_raw_parts_mut(j.dst as *mut T, j.dst_len);
                fill_mut::<T, N>(j, ImageStoreMut::<T, N>::from_slice(s, w, h))
            }
            4 => {
                let s = core::slice::from_raw_parts_mut(j.dst as *mut T, j.dst_len);
                fill_mut::<T, N>(j, ImageStoreMut::<T, N>::borrow(s, w, h))
            }
            5 => {
                let v = vec![T::default(); j.dst_len];
                fill_mut::<T, N>(j, ImageStoreMut::<T, N>::new(v, w, h))
            }
            6 => fill_ref::<T, N>(j, Ok(ImageStore::<T, N>::alloc(w, h))),
            7 => fill_mut::<T, N>(j, Ok(ImageStoreMut::<T, N>::alloc(w, h))),
            8 => fill_mut::<T, N>(j, Ok(ImageStoreMut::<T, N>::alloc_with_depth(w, h, j.ddepth))),
            _ => -1,
        }
    }
}

/// The constructors of the image stores.
#[no_mangle]
#[inline(never)]
pub unsafe extern "C-unwind" fn h_construct(j: &mut Job) -> i32 {
    unsafe {
        match j.fmt {
            0 => construct::<u8, 1>(j),
            1 => construct::<u8, 2>(j),
            2 => construct::<u8, 3>(j),
            3 => construct::<u8, 4>(j),
            4 => construct::<u16, 1>(j),
            5 => construct::<u16, 2>(j),
            6 => construct::<u16, 3>(j),
            7 => construct::<u16, 4>(j),
            8 => construct::<f32, 1>(j),
            9 => construct::<f32, 2>(j),
            10 => construct::<f32, 3>(j),
            11 => construct::<f32, 4>(j),
            _ => -1,
        }
    }
}

unsafe fn dump<T: Copy>(j: &mut Job, s: &[T], o: [usize; 5]) {
    // the copy's elements go to `dst`, its fields to `out`
    let n = s.len().min(j.dst_len);
    unsafe { core::ptr::copy_nonoverlapping(s.as_ptr(), j.dst as *mut T, n) };
    j.out[..5].copy_from_slice(&o);
    j.out[5] = s.len();
}

unsafe fn contents<T: Copy + Debug + Default, const N: usize>(j: &mut Job) -> i32 {
    unsafe {
        let (w, h, n) = (j.sw, j.sh, j.src_len);
        let r = core::slice::from_raw_parts(j.src as *const T, n);
        macro_rules! show {
            ($s: expr) => {{
                let s = match $s {
                    Ok(s) => s,
                    Err(e) => {
                        let c = ecode(&e);
                        core::mem::forget(e);
                        return c;
                    }
                };
                let o = [s.width, s.height, s.stride(), s.channels, s.bit_depth];
                dump(j, s.as_bytes(), o);
                core::mem::forget(s);
            }};
        }
        match j.kind {
            0 => show!(ImageStore::<T, N>::from_slice(r, w, h)),
            1 => show!(ImageStore::<T, N>::borrow(r, w, h)),
            2 => show!(ImageStore::<T, N>::new(r.to_vec(), w, h)),
            3 | 4 => {
                let m = core::slice::from_raw_parts_mut(j.src as *mut T, n);
                if j.kind == 3 {
                    show!(ImageStoreMut::<T, N>::from_slice(m, w, h))
                } else {
                    show!(ImageStoreMut::<T, N>::borrow(m, w, h))
                }
            }
            5 => show!(ImageStoreMut::<T, N>::new(r.to_vec(), w, h)),
            6 => show!(Ok::<_, PicScaleError>(ImageStore::<T, N>::alloc(w, h))),
            7 => show!(Ok::<_, PicScaleError>(ImageStoreMut::<T, N>::alloc(w, h))),
            8 => show!(Ok::<_, PicScaleError>(ImageStoreMut::<T, N>::alloc_with_depth(w, h, j.ddepth))),
            _ => return -1,
        }
        0
    }
}

/// What the stores hold after construction.
#[no_mangle]
#[inline(never)]
pub unsafe extern "C-unwind" fn h_contents(j: &mut Job) -> i32 {
    unsafe {
        match j.fmt {
            0 => contents::<u8, 1>(j),
            1 => contents::<u8, 2>(j),
            2 => contents::<u8, 3>(j),
            3 => contents::<u8, 4>(j),
            4 => contents::<u16, 1>(j),
            5 => contents::<u16, 2>(j),
            6 => contents::<u16, 3>(j),
            7 => contents::<u16, 4>(j),
            8 => contents::<f32, 1>(j),
            9 => contents::<f32, 2>(j),
            10 => contents::<f32, 3>(j),
            11 => contents::<f32, 4>(j),
            _ => -1,
        }
    }
}

unsafe fn copies<T: Copy + Debug + Default, const N: usize>(j: &mut Job) -> i32 {
    unsafe {
        match j.kind {
            0 => {
                let c = src_store::<T, N>(j).copied();
                dump(j, c.as_bytes(), [c.width, c.height, c.stride, c.channels, c.bit_depth]);
                core::mem::forget(c);
                0
            }
            1 | 2 => {
                let m = ImageStoreMut::<T, N> {
                    buffer: BufferStore::Borrowed(core::slice::from_raw_parts_mut(
                        j.src as *mut T,
                        j.src_len,
                    )),
                    channels: N,
                    width: j.sw,
                    height: j.sh,
                    stride: j.sstride,
                    bit_depth: j.sdepth,
                };
                if j.kind == 1 {
                    let c = m.copied();
                    dump(j, c.as_bytes(), [c.width, c.height, c.stride, c.channels, c.bit_depth]);
                    core::mem::forget(c);
                } else {
                    let c = m.to_immutable();
                    dump(j, c.as_bytes(), [c.width, c.height, c.stride, c.channels, c.bit_depth]);
                    core::mem::forget(c);
                }
                0
            }
            3 => {
                src_store::<T, N>(j).copied_to_mut(&mut dst_store::<T, N>(j));
                0
            }
            _ => -1,
        }
    }
}

/// `copied`, `to_immutable` and `copied_to_mut`.
#[no_mangle]
#[inline(never)]
pub unsafe extern "C-unwind" fn h_copies(j: &mut Job) -> i32 {
    unsafe {
        match j.fmt {
            0 => copies::<u8, 1>(j),
            1 => copies::<u8, 2>(j),
            2 => copies::<u8, 3>(j),
            3 => copies::<u8, 4>(j),
            4 => copies::<u16, 1>(j),
            5 => copies::<u16, 2>(j),
            6 => copies::<u16, 3>(j),
            7 => copies::<u16, 4>(j),
            8 => copies::<f32, 1>(j),
            9 => copies::<f32, 2>(j),
            10 => copies::<f32, 3>(j),
            11 => copies::<f32, 4>(j),
            _ => -1,
        }
    }
}

#[no_mangle]
#[inline(never)]
pub unsafe extern "C-unwind" fn h_threads(j: &mut Job) -> i32 {
    j.out[0] = policy_of(j).thread_count(ImageSize::new(j.dw, j.dh));
    0
}

#[no_mangle]
#[inline(never)]
pub unsafe extern "C-unwind" fn h_pool(j: &mut Job) -> i32 {
    let p = policy_of(j).get_pool(ImageSize::new(j.dw, j.dh));
    j.out[0] = match &p {
        None => 0,
        Some(p) => p.current_num_threads(),
    };
    core::mem::forget(p);
    0
}

macro_rules! probes {
    ($($name:ident => $f:tt),*) => {
        $(
            #[no_mangle]
            #[inline(never)]
            pub extern "C" fn $name() -> u32 {
                std::is_x86_feature_detected!($f) as u32
            }
        )*
    };
}

probes!(probe_sse41 => "sse4.1", probe_avx2 => "avx2", probe_fma => "fma", probe_f16c => "f16c",
        probe_avx512f => "avx512f", probe_avx512bw => "avx512bw", probe_avx512vl => "avx512vl",
        probe_avx512vbmi => "avx512vbmi", probe_avx512vnni => "avx512vnni",
        probe_avx512fp16 => "avx512fp16", probe_avx512dq => "avx512dq", probe_avx512ifma => "avx512ifma",
        probe_avxvnni => "avxvnni", probe_sse2 => "sse2", probe_ssse3 => "ssse3", probe_sse3 => "sse3",
        probe_sse42 => "sse4.2", probe_avx => "avx", probe_avx512vbmi2 => "avx512vbmi2",
        probe_bmi2 => "bmi2", probe_bmi1 => "bmi1", probe_popcnt => "popcnt");
