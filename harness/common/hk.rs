//! Harnesses that reach inside the library (built with the flag of the verification hooks).
use crate::ve;

const C: [f64; 8] = [
    // cos(k*pi/16)
    1.0,
    0.980785280403230449126182236134239,
    0.923879532511286756128183189396788,
    0.831469612302545237078788377617906,
    0.707106781186547524400844362104849,
    0.555570233019602224742830813948533,
    0.382683432365089771728459984030399,
    0.195090322016128267848284868477022,
];
fn cos16(k: usize) -> f64 {
    match k % 32 {
        k @ 0..=7 => C[k],
        8 | 24 => 0.0,
        k @ 9..=16 => -C[16 - k],
        k @ 17..=23 => -C[k - 16],
        k => C[32 - k],
    }
}

/// The integer transform against the orthonormal one.
/// params: 0 bit depth, 1 first coefficient, 2 number of coefficients, 3 allowed error in 1/1000
#[no_mangle]
pub extern "C" fn h_dct() {
    let bd = ve::param(0);
    let mut x = [0i32; 64];
    let mut s = [0u16; 64];
    ve::fill(&mut s[..], (1 << bd) - 1);
    for i in 0..64 {
        x[i] = s[i] as i32;
    }
    av_metrics::video::psnr_hvs::verif_fdct8x8(&mut x);
    let (f, n) = (ve::param(1) as usize, ve::param(2) as usize);
    let eps = ve::param(3) as f64 / 1000.0;
    for k in f..f + n {
        let (u, v) = (k / 8, k % 8);
        let mut d = 0.0;
        for i in 0..8 {
            for j in 0..8 {
                let c = cos16((2 * i + 1) * u) * cos16((2 * j + 1) * v);
                d += s[i * 8 + j] as f64 * c;
            }
        }
        let a = |u: usize| if u == 0 { 0.125f64.sqrt() } else { 0.5 };
        d *= a(u) * a(v) * GAIN;
        ve::prove_le("above", x[k] as f64 - d, eps, 0.0);
        ve::prove_le("below", d - x[k] as f64, eps, 0.0);
    }
    ve::cover("end");
}
const GAIN: f64 = 1.0;

/// The fast power 2.4 and cube root against the exact functions, over all numbers of one binade.
/// params: 0 which (0 power, 1 cube root), 1 vector path, 2 exponent + 16, 3 allowed relative error in 1e-8
#[no_mangle]
pub extern "C" fn h_col() {
    use av_metrics::video::ciede::{verif, verif_avx2};
    let cube = ve::param(0) == 1;
    let simd = ve::param(1) == 1;
    let e = ve::param(2) as u32 + 127 - 16;
    let k = ve::u(0, (1 << 20) - 1) as u32;
    let eps = ve::param(3) as f64 * 1e-8;
    let mut x = [0f32; 8];
    for i in 0..8 {
        x[i] = f32::from_bits((e << 23) + ((i as u32) << 20) + k);
    }
    let mut y = [0f32; 8];
    if simd {
        unsafe { wide(cube, &x, &mut y) };
    } else {
        for i in 0..8 {
            y[i] = if cube { verif::cbrt(x[i]) } else { verif::pow_2_4(x[i]) };
        }
    }
    // scaled to the first number of the binade
    let s = f32::from_bits(e << 23) as f64;
    for i in 0..8 {
        let (a, b, n) = if cube {
            // y^3 and x
            let y = y[i] as f64;
            (y * y * y / s, x[i] as f64 / s, 3.0)
        } else {
            // y^5 and x^12
            let x = x[i] as f64 / s;
            let c = x * x * x * x;
            let s2 = s * s;
            let s12 = s2 * s2 * s2 * s2 * s2 * s2;
            let y = y[i] as f64;
            (y * y * y * y * y / s12, c * c * c, 5.0)
        };
        ve::prove_le("above", a - b * (1.0 + n * eps), 0.0, 0.0);
        ve::prove_le("below", b * (1.0 - n * eps) - a, 0.0, 0.0);
    }
    ve::cover("end");

    #[target_feature(enable = "avx2")]
    unsafe fn wide(cube: bool, x: &[f32; 8], y: &mut [f32; 8]) {
        use std::arch::x86_64::*;
        let v = _mm256_loadu_ps(x.as_ptr());
        let r = if cube { verif_avx2::cbrt(v) } else { verif_avx2::pow_2_4(v) };
        _mm256_storeu_ps(y.as_mut_ptr(), r);
    }
}
