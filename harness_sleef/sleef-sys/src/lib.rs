//! The part of sleef-sys 0.1.2's interface that packed_simd uses (names and signatures
//! as in the sleef.h that crate generates), because the real crate's build needs a
//! bindgen that does not work with the installed libclang.  The verifier never reads
//! these bodies: a call of a SLEEF function is an assumed contract (vp/specs/sleef.py).
//! They exist so that counterexamples can be replayed, and compute the function the
//! name says, lane by lane, with the scalar math library.
#![allow(non_snake_case, non_camel_case_types, improper_ctypes_definitions)]
use std::arch::x86_64::*;

macro_rules! pair { ($($n:ident $v:ident),*) => { $( #[repr(C)] #[derive(Copy, Clone)] pub struct $n { pub x: $v, pub y: $v } )* } }
pair!(Sleef___m128_2 __m128, Sleef___m128d_2 __m128d, Sleef___m256_2 __m256, Sleef___m256d_2 __m256d);

macro_rules! un { ($f:ident $v:ident $e:ident $n:literal $op:expr) => {
    #[no_mangle] #[inline(never)] pub unsafe extern "C" fn $f(a: $v) -> $v {
        let mut a: [$e; $n] = core::mem::transmute(a);
        let op: fn($e) -> $e = $op;
        for x in a.iter_mut() { *x = op(*x); }
        core::mem::transmute(a)
    } } }
macro_rules! un2 { ($f:ident $v:ident $r:ident $e:ident $n:literal) => {
    #[no_mangle] #[inline(never)] pub unsafe extern "C" fn $f(a: $v) -> $r {
        let a: [$e; $n] = core::mem::transmute(a);
        let pi = core::$e::consts::PI;
        $r { x: core::mem::transmute(a.map(|x| (x * pi).sin())), y: core::mem::transmute(a.map(|x| (x * pi).cos())) }
    } } }
macro_rules! bin { ($f:ident $v:ident $e:ident $n:literal) => {
    #[no_mangle] #[inline(never)] pub unsafe extern "C" fn $f(a: $v, b: $v) -> $v {
        let mut a: [$e; $n] = core::mem::transmute(a);
        let b: [$e; $n] = core::mem::transmute(b);
        for i in 0..$n { a[i] = a[i].powf(b[i]); }
        core::mem::transmute(a)
    } } }
macro_rules! ter { ($f:ident $v:ident $e:ident $n:literal) => {
    #[no_mangle] #[inline(never)] pub unsafe extern "C" fn $f(a: $v, b: $v, c: $v) -> $v {
        let mut a: [$e; $n] = core::mem::transmute(a);
        let (b, c): ([$e; $n], [$e; $n]) = core::mem::transmute((b, c));
        for i in 0..$n { a[i] = a[i].mul_add(b[i], c[i]); }
        core::mem::transmute(a)
    } } }

un2!(Sleef_sincospif4_u05sse2 __m128 Sleef___m128_2 f32 4);
un2!(Sleef_sincospif4_u05sse4 __m128 Sleef___m128_2 f32 4);
un2!(Sleef_sincospif4_u05avx2128 __m128 Sleef___m128_2 f32 4);
un2!(Sleef_sincospid2_u05sse2 __m128d Sleef___m128d_2 f64 2);
un2!(Sleef_sincospid2_u05sse4 __m128d Sleef___m128d_2 f64 2);
un2!(Sleef_sincospid2_u05avx2128 __m128d Sleef___m128d_2 f64 2);
un2!(Sleef_sincospif4_u35sse2 __m128 Sleef___m128_2 f32 4);
un2!(Sleef_sincospif4_u35sse4 __m128 Sleef___m128_2 f32 4);
un2!(Sleef_sincospif4_u35avx2128 __m128 Sleef___m128_2 f32 4);
un2!(Sleef_sincospid2_u35sse2 __m128d Sleef___m128d_2 f64 2);
un2!(Sleef_sincospid2_u35sse4 __m128d Sleef___m128d_2 f64 2);
un2!(Sleef_sincospid2_u35avx2128 __m128d Sleef___m128d_2 f64 2);
un!(Sleef_sinpif4_u05sse2 __m128 f32 4 |x| (x * core::f32::consts::PI).sin());
un!(Sleef_sinpif4_u05sse4 __m128 f32 4 |x| (x * core::f32::consts::PI).sin());
un!(Sleef_sinpif4_u05avx2128 __m128 f32 4 |x| (x * core::f32::consts::PI).sin());
un!(Sleef_sinpid2_u05sse2 __m128d f64 2 |x| (x * core::f64::consts::PI).sin());
un!(Sleef_sinpid2_u05sse4 __m128d f64 2 |x| (x * core::f64::consts::PI).sin());
un!(Sleef_sinpid2_u05avx2128 __m128d f64 2 |x| (x * core::f64::consts::PI).sin());
un!(Sleef_cospif4_u05sse2 __m128 f32 4 |x| (x * core::f32::consts::PI).cos());
un!(Sleef_cospif4_u05sse4 __m128 f32 4 |x| (x * core::f32::consts::PI).cos());
un!(Sleef_cospif4_u05avx2128 __m128 f32 4 |x| (x * core::f32::consts::PI).cos());
un!(Sleef_cospid2_u05sse2 __m128d f64 2 |x| (x * core::f64::consts::PI).cos());
un!(Sleef_cospid2_u05sse4 __m128d f64 2 |x| (x * core::f64::consts::PI).cos());
un!(Sleef_cospid2_u05avx2128 __m128d f64 2 |x| (x * core::f64::consts::PI).cos());
un!(Sleef_sqrtf4_sse2 __m128 f32 4 |x| x.sqrt());
un!(Sleef_sqrtf4_sse4 __m128 f32 4 |x| x.sqrt());
un!(Sleef_sqrtf4_avx2128 __m128 f32 4 |x| x.sqrt());
un!(Sleef_sqrtd2_sse2 __m128d f64 2 |x| x.sqrt());
un!(Sleef_sqrtd2_sse4 __m128d f64 2 |x| x.sqrt());
un!(Sleef_sqrtd2_avx2128 __m128d f64 2 |x| x.sqrt());
un!(Sleef_sqrtf4_u05sse2 __m128 f32 4 |x| x.sqrt());
un!(Sleef_sqrtf4_u05sse4 __m128 f32 4 |x| x.sqrt());
un!(Sleef_sqrtf4_u05avx2128 __m128 f32 4 |x| x.sqrt());
un!(Sleef_sqrtd2_u05sse2 __m128d f64 2 |x| x.sqrt());
un!(Sleef_sqrtd2_u05sse4 __m128d f64 2 |x| x.sqrt());
un!(Sleef_sqrtd2_u05avx2128 __m128d f64 2 |x| x.sqrt());
un!(Sleef_sqrtf4_u35sse2 __m128 f32 4 |x| x.sqrt());
un!(Sleef_sqrtf4_u35sse4 __m128 f32 4 |x| x.sqrt());
un!(Sleef_sqrtf4_u35avx2128 __m128 f32 4 |x| x.sqrt());
un!(Sleef_sqrtd2_u35sse2 __m128d f64 2 |x| x.sqrt());
un!(Sleef_sqrtd2_u35sse4 __m128d f64 2 |x| x.sqrt());
un!(Sleef_sqrtd2_u35avx2128 __m128d f64 2 |x| x.sqrt());
un!(Sleef_fabsf4_sse2 __m128 f32 4 |x| x.abs());
un!(Sleef_fabsf4_sse4 __m128 f32 4 |x| x.abs());
un!(Sleef_fabsf4_avx2128 __m128 f32 4 |x| x.abs());
un!(Sleef_fabsd2_sse2 __m128d f64 2 |x| x.abs());
un!(Sleef_fabsd2_sse4 __m128d f64 2 |x| x.abs());
un!(Sleef_fabsd2_avx2128 __m128d f64 2 |x| x.abs());
un!(Sleef_tanhf4_u10sse2 __m128 f32 4 |x| x.tanh());
un!(Sleef_tanhf4_u10sse4 __m128 f32 4 |x| x.tanh());
un!(Sleef_tanhf4_u10avx2128 __m128 f32 4 |x| x.tanh());
un!(Sleef_tanhd2_u10sse2 __m128d f64 2 |x| x.tanh());
un!(Sleef_tanhd2_u10sse4 __m128d f64 2 |x| x.tanh());
un!(Sleef_tanhd2_u10avx2128 __m128d f64 2 |x| x.tanh());
un!(Sleef_tanhf4_u35sse2 __m128 f32 4 |x| x.tanh());
un!(Sleef_tanhf4_u35sse4 __m128 f32 4 |x| x.tanh());
un!(Sleef_tanhf4_u35avx2128 __m128 f32 4 |x| x.tanh());
un!(Sleef_tanhd2_u35sse2 __m128d f64 2 |x| x.tanh());
un!(Sleef_tanhd2_u35sse4 __m128d f64 2 |x| x.tanh());
un!(Sleef_tanhd2_u35avx2128 __m128d f64 2 |x| x.tanh());
un!(Sleef_sinf4_u10sse2 __m128 f32 4 |x| x.sin());
un!(Sleef_sinf4_u10sse4 __m128 f32 4 |x| x.sin());
un!(Sleef_sinf4_u10avx2128 __m128 f32 4 |x| x.sin());
un!(Sleef_sind2_u10sse2 __m128d f64 2 |x| x.sin());
un!(Sleef_sind2_u10sse4 __m128d f64 2 |x| x.sin());
un!(Sleef_sind2_u10avx2128 __m128d f64 2 |x| x.sin());
un!(Sleef_sinf4_u35sse2 __m128 f32 4 |x| x.sin());
un!(Sleef_sinf4_u35sse4 __m128 f32 4 |x| x.sin());
un!(Sleef_sinf4_u35avx2128 __m128 f32 4 |x| x.sin());
un!(Sleef_sind2_u35sse2 __m128d f64 2 |x| x.sin());
un!(Sleef_sind2_u35sse4 __m128d f64 2 |x| x.sin());
un!(Sleef_sind2_u35avx2128 __m128d f64 2 |x| x.sin());
un!(Sleef_cosf4_u10sse2 __m128 f32 4 |x| x.cos());
un!(Sleef_cosf4_u10sse4 __m128 f32 4 |x| x.cos());
un!(Sleef_cosf4_u10avx2128 __m128 f32 4 |x| x.cos());
un!(Sleef_cosd2_u10sse2 __m128d f64 2 |x| x.cos());
un!(Sleef_cosd2_u10sse4 __m128d f64 2 |x| x.cos());
un!(Sleef_cosd2_u10avx2128 __m128d f64 2 |x| x.cos());
un!(Sleef_cosf4_u35sse2 __m128 f32 4 |x| x.cos());
un!(Sleef_cosf4_u35sse4 __m128 f32 4 |x| x.cos());
un!(Sleef_cosf4_u35avx2128 __m128 f32 4 |x| x.cos());
un!(Sleef_cosd2_u35sse2 __m128d f64 2 |x| x.cos());
un!(Sleef_cosd2_u35sse4 __m128d f64 2 |x| x.cos());
un!(Sleef_cosd2_u35avx2128 __m128d f64 2 |x| x.cos());
un!(Sleef_expf4_u10sse2 __m128 f32 4 |x| x.exp());
un!(Sleef_expf4_u10sse4 __m128 f32 4 |x| x.exp());
un!(Sleef_expf4_u10avx2128 __m128 f32 4 |x| x.exp());
un!(Sleef_expd2_u10sse2 __m128d f64 2 |x| x.exp());
un!(Sleef_expd2_u10sse4 __m128d f64 2 |x| x.exp());
un!(Sleef_expd2_u10avx2128 __m128d f64 2 |x| x.exp());
un!(Sleef_logf4_u10sse2 __m128 f32 4 |x| x.ln());
un!(Sleef_logf4_u10sse4 __m128 f32 4 |x| x.ln());
un!(Sleef_logf4_u10avx2128 __m128 f32 4 |x| x.ln());
un!(Sleef_logd2_u10sse2 __m128d f64 2 |x| x.ln());
un!(Sleef_logd2_u10sse4 __m128d f64 2 |x| x.ln());
un!(Sleef_logd2_u10avx2128 __m128d f64 2 |x| x.ln());
un!(Sleef_logf4_u35sse2 __m128 f32 4 |x| x.ln());
un!(Sleef_logf4_u35sse4 __m128 f32 4 |x| x.ln());
un!(Sleef_logf4_u35avx2128 __m128 f32 4 |x| x.ln());
un!(Sleef_logd2_u35sse2 __m128d f64 2 |x| x.ln());
un!(Sleef_logd2_u35sse4 __m128d f64 2 |x| x.ln());
un!(Sleef_logd2_u35avx2128 __m128d f64 2 |x| x.ln());
bin!(Sleef_powf4_u10sse2 __m128 f32 4);
bin!(Sleef_powf4_u10sse4 __m128 f32 4);
bin!(Sleef_powf4_u10avx2128 __m128 f32 4);
bin!(Sleef_powd2_u10sse2 __m128d f64 2);
bin!(Sleef_powd2_u10sse4 __m128d f64 2);
bin!(Sleef_powd2_u10avx2128 __m128d f64 2);
ter!(Sleef_fmaf4_sse2 __m128 f32 4);
ter!(Sleef_fmaf4_sse4 __m128 f32 4);
ter!(Sleef_fmaf4_avx2128 __m128 f32 4);
ter!(Sleef_fmad2_sse2 __m128d f64 2);
ter!(Sleef_fmad2_sse4 __m128d f64 2);
ter!(Sleef_fmad2_avx2128 __m128d f64 2);

#[cfg(target_feature = "avx")]
mod wide {
    use super::*;
    un2!(Sleef_sincospif8_u05avx __m256 Sleef___m256_2 f32 8);
    un2!(Sleef_sincospif8_u05avx2 __m256 Sleef___m256_2 f32 8);
    un2!(Sleef_sincospid4_u05avx __m256d Sleef___m256d_2 f64 4);
    un2!(Sleef_sincospid4_u05avx2 __m256d Sleef___m256d_2 f64 4);
    un2!(Sleef_sincospif8_u35avx __m256 Sleef___m256_2 f32 8);
    un2!(Sleef_sincospif8_u35avx2 __m256 Sleef___m256_2 f32 8);
    un2!(Sleef_sincospid4_u35avx __m256d Sleef___m256d_2 f64 4);
    un2!(Sleef_sincospid4_u35avx2 __m256d Sleef___m256d_2 f64 4);
    un!(Sleef_sinpif8_u05avx __m256 f32 8 |x| (x * core::f32::consts::PI).sin());
    un!(Sleef_sinpif8_u05avx2 __m256 f32 8 |x| (x * core::f32::consts::PI).sin());
    un!(Sleef_sinpid4_u05avx __m256d f64 4 |x| (x * core::f64::consts::PI).sin());
    un!(Sleef_sinpid4_u05avx2 __m256d f64 4 |x| (x * core::f64::consts::PI).sin());
    un!(Sleef_cospif8_u05avx __m256 f32 8 |x| (x * core::f32::consts::PI).cos());
    un!(Sleef_cospif8_u05avx2 __m256 f32 8 |x| (x * core::f32::consts::PI).cos());
    un!(Sleef_cospid4_u05avx __m256d f64 4 |x| (x * core::f64::consts::PI).cos());
    un!(Sleef_cospid4_u05avx2 __m256d f64 4 |x| (x * core::f64::consts::PI).cos());
    un!(Sleef_sqrtf8_avx __m256 f32 8 |x| x.sqrt());
    un!(Sleef_sqrtf8_avx2 __m256 f32 8 |x| x.sqrt());
    un!(Sleef_sqrtd4_avx __m256d f64 4 |x| x.sqrt());
    un!(Sleef_sqrtd4_avx2 __m256d f64 4 |x| x.sqrt());
    un!(Sleef_sqrtf8_u05avx __m256 f32 8 |x| x.sqrt());
    un!(Sleef_sqrtf8_u05avx2 __m256 f32 8 |x| x.sqrt());
    un!(Sleef_sqrtd4_u05avx __m256d f64 4 |x| x.sqrt());
    un!(Sleef_sqrtd4_u05avx2 __m256d f64 4 |x| x.sqrt());
    un!(Sleef_sqrtf8_u35avx __m256 f32 8 |x| x.sqrt());
    un!(Sleef_sqrtf8_u35avx2 __m256 f32 8 |x| x.sqrt());
    un!(Sleef_sqrtd4_u35avx __m256d f64 4 |x| x.sqrt());
    un!(Sleef_sqrtd4_u35avx2 __m256d f64 4 |x| x.sqrt());
    un!(Sleef_fabsf8_avx __m256 f32 8 |x| x.abs());
    un!(Sleef_fabsf8_avx2 __m256 f32 8 |x| x.abs());
    un!(Sleef_fabsd4_avx __m256d f64 4 |x| x.abs());
    un!(Sleef_fabsd4_avx2 __m256d f64 4 |x| x.abs());
    un!(Sleef_tanhf8_u10avx __m256 f32 8 |x| x.tanh());
    un!(Sleef_tanhf8_u10avx2 __m256 f32 8 |x| x.tanh());
    un!(Sleef_tanhd4_u10avx __m256d f64 4 |x| x.tanh());
    un!(Sleef_tanhd4_u10avx2 __m256d f64 4 |x| x.tanh());
    un!(Sleef_tanhf8_u35avx __m256 f32 8 |x| x.tanh());
    un!(Sleef_tanhf8_u35avx2 __m256 f32 8 |x| x.tanh());
    un!(Sleef_tanhd4_u35avx __m256d f64 4 |x| x.tanh());
    un!(Sleef_tanhd4_u35avx2 __m256d f64 4 |x| x.tanh());
    un!(Sleef_sinf8_u10avx __m256 f32 8 |x| x.sin());
    un!(Sleef_sinf8_u10avx2 __m256 f32 8 |x| x.sin());
    un!(Sleef_sind4_u10avx __m256d f64 4 |x| x.sin());
    un!(Sleef_sind4_u10avx2 __m256d f64 4 |x| x.sin());
    un!(Sleef_sinf8_u35avx __m256 f32 8 |x| x.sin());
    un!(Sleef_sinf8_u35avx2 __m256 f32 8 |x| x.sin());
    un!(Sleef_sind4_u35avx __m256d f64 4 |x| x.sin());
    un!(Sleef_sind4_u35avx2 __m256d f64 4 |x| x.sin());
    un!(Sleef_cosf8_u10avx __m256 f32 8 |x| x.cos());
    un!(Sleef_cosf8_u10avx2 __m256 f32 8 |x| x.cos());
    un!(Sleef_cosd4_u10avx __m256d f64 4 |x| x.cos());
    un!(Sleef_cosd4_u10avx2 __m256d f64 4 |x| x.cos());
    un!(Sleef_cosf8_u35avx __m256 f32 8 |x| x.cos());
    un!(Sleef_cosf8_u35avx2 __m256 f32 8 |x| x.cos());
    un!(Sleef_cosd4_u35avx __m256d f64 4 |x| x.cos());
    un!(Sleef_cosd4_u35avx2 __m256d f64 4 |x| x.cos());
    un!(Sleef_expf8_u10avx __m256 f32 8 |x| x.exp());
    un!(Sleef_expf8_u10avx2 __m256 f32 8 |x| x.exp());
    un!(Sleef_expd4_u10avx __m256d f64 4 |x| x.exp());
    un!(Sleef_expd4_u10avx2 __m256d f64 4 |x| x.exp());
    un!(Sleef_logf8_u10avx __m256 f32 8 |x| x.ln());
    un!(Sleef_logf8_u10avx2 __m256 f32 8 |x| x.ln());
    un!(Sleef_logd4_u10avx __m256d f64 4 |x| x.ln());
    un!(Sleef_logd4_u10avx2 __m256d f64 4 |x| x.ln());
    un!(Sleef_logf8_u35avx __m256 f32 8 |x| x.ln());
    un!(Sleef_logf8_u35avx2 __m256 f32 8 |x| x.ln());
    un!(Sleef_logd4_u35avx __m256d f64 4 |x| x.ln());
    un!(Sleef_logd4_u35avx2 __m256d f64 4 |x| x.ln());
    bin!(Sleef_powf8_u10avx __m256 f32 8);
    bin!(Sleef_powf8_u10avx2 __m256 f32 8);
    bin!(Sleef_powd4_u10avx __m256d f64 4);
    bin!(Sleef_powd4_u10avx2 __m256d f64 4);
    ter!(Sleef_fmaf8_avx __m256 f32 8);
    ter!(Sleef_fmaf8_avx2 __m256 f32 8);
    ter!(Sleef_fmad4_avx __m256d f64 4);
    ter!(Sleef_fmad4_avx2 __m256d f64 4);
}
#[cfg(target_feature = "avx")]
pub use wide::*;
