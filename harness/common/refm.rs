//! Reference definitions of the metrics, written from their definitions over visible samples.
use av_metrics::video::*;
use std::f64::consts::PI;

pub fn px<T: Pixel>(p: &Plane<T>, x: usize, y: usize) -> i64 {
    u32::cast_from(p.data[(p.cfg.yorigin + y) * p.cfg.stride + p.cfg.xorigin + x]) as i64
}

pub fn samples<T: Pixel>(p: &Plane<T>) -> Vec<i64> {
    let mut v = Vec::with_capacity(p.cfg.width * p.cfg.height);
    for y in 0..p.cfg.height {
        for x in 0..p.cfg.width {
            v.push(px(p, x, y));
        }
    }
    v
}

// ---------------------------------------------------------------- PSNR
pub fn sse<T: Pixel>(a: &Plane<T>, b: &Plane<T>) -> (u64, usize) {
    let mut s = 0u64;
    for y in 0..a.cfg.height {
        for x in 0..a.cfg.width {
            let d = px(a, x, y) - px(b, x, y);
            s += (d * d) as u64;
        }
    }
    (s, a.cfg.width * a.cfg.height)
}

pub fn psnr_db(sse: u64, n: usize, bd: usize) -> f64 {
    if sse == 0 {
        return 100.0;
    }
    let max = ((1u64 << bd) - 1) as f64;
    let v = 10.0 * (max * max * n as f64 / sse as f64).log10();
    if v < 100.0 {
        v
    } else {
        100.0
    }
}

// ---------------------------------------------------------------- SSIM
pub fn gauss(sigma: f64, max_len: usize, weight: usize) -> Vec<i64> {
    let w = weight as f64;
    let cut = (PI / 2.0).sqrt() * sigma / w;
    let mut half = if cut >= 1.0 { 0 } else { (sigma * (-2.0 * cut.ln()).sqrt()).floor() as usize };
    if half >= max_len {
        half = max_len.max(1) - 1;
    }
    let mut k = vec![0i64; 2 * half + 1];
    let mut rest = weight as i64;
    for d in 1..=half {
        let g = (-0.5 * (d * d) as f64 / (sigma * sigma)).exp() / ((2.0 * PI).sqrt() * sigma);
        let v = (w * g + 0.5) as i64;
        k[half - d] = v;
        k[half + d] = v;
        rest -= 2 * v;
    }
    k[half] = rest;
    k
}

struct Mom([i64; 6]);

/// (index, contrast/structure) means of two sample arrays.
pub fn ssim(a: &[i64], b: &[i64], w: usize, h: usize, max: i64, k: &[i64]) -> (f64, f64) {
    let half = k.len() / 2;
    let mut rows: Vec<Mom> = Vec::with_capacity(w * h);
    for y in 0..h {
        for x in 0..w {
            let mut m = [0i64; 6];
            for (i, &g) in k.iter().enumerate() {
                if x + i < half || x + i - half >= w {
                    continue;
                }
                let p = a[y * w + x + i - half];
                let q = b[y * w + x + i - half];
                m[0] += g;
                m[1] += g * p;
                m[2] += g * q;
                m[3] += g * p * p;
                m[4] += g * p * q;
                m[5] += g * q * q;
            }
            rows.push(Mom(m));
        }
    }
    let (mut ts, mut tc, mut tw) = (0.0, 0.0, 0.0);
    for y in 0..h {
        for x in 0..w {
            let mut m = [0i64; 6];
            for (i, &g) in k.iter().enumerate() {
                if y + i < half || y + i - half >= h {
                    continue;
                }
                let r = &rows[(y + i - half) * w + x].0;
                for c in 0..6 {
                    m[c] += g * r[c];
                }
            }
            let wt = m[0] as f64;
            let l2 = (max * max) as f64 * wt * wt;
            let c1 = 0.0001 * l2;
            let c2 = 0.0009 * l2;
            let mu1 = m[1] as f64;
            let mu2 = m[2] as f64;
            let s11 = m[3] as f64 * wt - mu1 * mu1;
            let s12 = m[4] as f64 * wt - mu1 * mu2;
            let s22 = m[5] as f64 * wt - mu2 * mu2;
            let cs = (2.0 * s12 + c2) / (s11 + s22 + c2);
            let l = (2.0 * mu1 * mu2 + c1) / (mu1 * mu1 + mu2 * mu2 + c1);
            ts += wt * cs * l;
            tc += wt * cs;
            tw += wt;
        }
    }
    (ts / tw, tc / tw)
}

pub fn ssim_plane<T: Pixel>(a: &Plane<T>, b: &Plane<T>, bd: usize) -> f64 {
    let (w, h) = (a.cfg.width, a.cfg.height);
    if w == 0 || h == 0 {
        return 1.0;
    }
    let k = gauss(h as f64 * 1.5 / 256.0, w.min(h), 256);
    ssim(&samples(a), &samples(b), w, h, (1 << bd) - 1, &k).0
}

fn halve(v: &[i64], w: usize, h: usize) -> Vec<i64> {
    let mut o = Vec::new();
    for y in 0..h / 2 {
        for x in 0..w / 2 {
            o.push(v[2 * y * w + 2 * x] + v[2 * y * w + 2 * x + 1] + v[(2 * y + 1) * w + 2 * x] + v[(2 * y + 1) * w + 2 * x + 1]);
        }
    }
    o
}

/// The five (index, contrast) pairs.
pub fn msssim_parts<T: Pixel>(a: &Plane<T>, b: &Plane<T>, bd: usize) -> Vec<(f64, f64)> {
    let (mut w, mut h) = (a.cfg.width, a.cfg.height);
    let (mut p, mut q) = (samples(a), samples(b));
    let k = gauss(1.5, 5, 1024);
    let mut max = (1i64 << bd) - 1;
    let mut out = Vec::new();
    for s in 0..5 {
        out.push(ssim(&p, &q, w, h, max, &k));
        if s < 4 {
            p = halve(&p, w, h);
            q = halve(&q, w, h);
            w /= 2;
            h /= 2;
            max *= 4;
        }
    }
    out
}

pub fn msssim_plane<T: Pixel>(a: &Plane<T>, b: &Plane<T>, bd: usize) -> f64 {
    if a.cfg.width == 0 || a.cfg.height == 0 {
        return 1.0;
    }
    let r = msssim_parts(a, b, bd);
    let w = |v: f64, e: f64| v.max(0.0).powf(e);
    w(r[0].1, 0.0448) * w(r[1].1, 0.2856) * w(r[2].1, 0.3001) * w(r[3].1, 0.2363) * w(r[4].0, 0.1333)
}

/// Decibels of a similarity index.
pub fn index_db(s: f64) -> f64 {
    -10.0 * (1.0 - s).max(0.0).log10()
}

// ---------------------------------------------------------------- PSNR-HVS
#[rustfmt::skip]
const CSF: [[[f64; 8]; 8]; 3] = [[
    [1.6193873005, 2.2901594831, 2.08509755623, 1.48366094411, 1.00227514334, 0.678296995242, 0.466224900598, 0.3265091542],
    [2.2901594831, 1.94321815382, 2.04793073064, 1.68731108984, 1.2305666963, 0.868920337363, 0.61280991668, 0.436405793551],
    [2.08509755623, 2.04793073064, 1.34329019223, 1.09205635862, 0.875748795257, 0.670882927016, 0.501731932449, 0.372504254596],
    [1.48366094411, 1.68731108984, 1.09205635862, 0.772819797575, 0.605636379554, 0.48309405692, 0.380429446972, 0.295774038565],
    [1.00227514334, 1.2305666963, 0.875748795257, 0.605636379554, 0.448996256676, 0.352889268808, 0.283006984131, 0.226951348204],
    [0.678296995242, 0.868920337363, 0.670882927016, 0.48309405692, 0.352889268808, 0.27032073436, 0.215017739696, 0.17408067321],
    [0.466224900598, 0.61280991668, 0.501731932449, 0.380429446972, 0.283006984131, 0.215017739696, 0.168869545842, 0.136153931001],
    [0.3265091542, 0.436405793551, 0.372504254596, 0.295774038565, 0.226951348204, 0.17408067321, 0.136153931001, 0.109083846276],
], [
    [1.91113096927, 2.46074210438, 1.18284184739, 1.14982565193, 1.05017074788, 0.898018824055, 0.74725392039, 0.615105596242],
    [2.46074210438, 1.58529308355, 1.21363250036, 1.38190029285, 1.33100189972, 1.17428548929, 0.996404342439, 0.830890433625],
    [1.18284184739, 1.21363250036, 0.978712413627, 1.02624506078, 1.03145147362, 0.960060382087, 0.849823426169, 0.731221236837],
    [1.14982565193, 1.38190029285, 1.02624506078, 0.861317501629, 0.801821139099, 0.751437590932, 0.685398513368, 0.608694761374],
    [1.05017074788, 1.33100189972, 1.03145147362, 0.801821139099, 0.676555426187, 0.605503172737, 0.55002013668, 0.495804539034],
    [0.898018824055, 1.17428548929, 0.960060382087, 0.751437590932, 0.605503172737, 0.514674450957, 0.454353482512, 0.407050308965],
    [0.74725392039, 0.996404342439, 0.849823426169, 0.685398513368, 0.55002013668, 0.454353482512, 0.389234902883, 0.342353999733],
    [0.615105596242, 0.830890433625, 0.731221236837, 0.608694761374, 0.495804539034, 0.407050308965, 0.342353999733, 0.295530605237],
], [
    [2.03871978502, 2.62502345193, 1.26180942886, 1.11019789803, 1.01397751469, 0.867069376285, 0.721500455585, 0.593906509971],
    [2.62502345193, 1.69112867013, 1.17180569821, 1.3342742857, 1.28513006198, 1.13381474809, 0.962064122248, 0.802254508198],
    [1.26180942886, 1.17180569821, 0.944981930573, 0.990876405848, 0.995903384143, 0.926972725286, 0.820534991409, 0.706020324706],
    [1.11019789803, 1.3342742857, 0.990876405848, 0.831632933426, 0.77418706195, 0.725539939514, 0.661776842059, 0.587716619023],
    [1.01397751469, 1.28513006198, 0.995903384143, 0.77418706195, 0.653238524286, 0.584635025748, 0.531064164893, 0.478717061273],
    [0.867069376285, 1.13381474809, 0.926972725286, 0.725539939514, 0.584635025748, 0.496936637883, 0.438694579826, 0.393021669543],
    [0.721500455585, 0.962064122248, 0.820534991409, 0.661776842059, 0.531064164893, 0.438694579826, 0.375820256136, 0.330555063063],
    [0.593906509971, 0.802254508198, 0.706020324706, 0.587716619023, 0.478717061273, 0.393021669543, 0.330555063063, 0.285345396658],
]];

fn half(a: i32) -> i32 {
    a / 2
}

/// The binDCT of daala on 8 values.
pub fn dct8(x: [i32; 8]) -> [i32; 8] {
    // butterflies
    let d07 = x[0] - x[7];
    let h07 = half(d07);
    let s07 = x[0] - h07;
    let s16 = x[1] + x[6];
    let h16 = half(s16);
    let d16 = x[6] - h16;
    let d25 = x[2] - x[5];
    let s25 = x[2] - half(d25);
    let s34 = x[3] + x[4];
    let h34 = half(s34);
    let d34 = h34 - x[4];
    // even part
    let mut e0 = s07 + h34;
    let mut e2 = e0 - s34;
    let mut e3 = h16 - s25;
    let mut e1 = e3 - s16;
    // the four names above in the order 0, 6, 2, 4 of the output
    e0 -= (e1 * 13573 + 16384) >> 15;
    e1 += (e0 * 11585 + 8192) >> 14;
    e0 -= (e1 * 13573 + 16384) >> 15;
    e2 -= (e3 * 21895 + 16384) >> 15;
    e3 += (e2 * 15137 + 8192) >> 14;
    e2 -= (e3 * 21895 + 16384) >> 15;
    // odd part
    let mut o3 = d25 + ((d16 * 19195 + 16384) >> 15);
    let mut o5 = d16 + ((o3 * 11585 + 8192) >> 14);
    o3 -= (o5 * 7489 + 4096) >> 13;
    let mut o7 = half(o5) - d34;
    o5 -= o7;
    o3 = h07 - o3;
    let mut o1 = d07 - o3;
    o7 += (o1 * 3227 + 16384) >> 15;
    o1 -= (o7 * 6393 + 16384) >> 15;
    o7 += (o1 * 3227 + 16384) >> 15;
    o5 += (o3 * 2485 + 4096) >> 13;
    o3 -= (o5 * 18205 + 16384) >> 15;
    o5 += (o3 * 2485 + 4096) >> 13;
    [e0, o1, e3, o3, e1, o5, e2, o7]
}

pub fn dct8x8(b: &[i32; 64]) -> [i32; 64] {
    let mut t = [0; 64];
    for c in 0..8 {
        let r = dct8([b[c], b[8 + c], b[16 + c], b[24 + c], b[32 + c], b[40 + c], b[48 + c], b[56 + c]]);
        for i in 0..8 {
            t[c * 8 + i] = r[i];
        }
    }
    let mut o = [0; 64];
    for c in 0..8 {
        let r = dct8([t[c], t[8 + c], t[16 + c], t[24 + c], t[32 + c], t[40 + c], t[48 + c], t[56 + c]]);
        for i in 0..8 {
            o[c * 8 + i] = r[i];
        }
    }
    o
}

fn masking(b: &[i32; 64], d: &[i32; 64], plane: usize) -> f64 {
    let mut tot = 0.0;
    let mut q = [0.0; 4];
    for i in 0..64 {
        tot += b[i] as f64;
        q[(i / 32) * 2 + (i % 8) / 4] += b[i] as f64;
    }
    let mut gvar = 0.0;
    let mut qvar = 0.0;
    for i in 0..64 {
        let g = b[i] as f64 - tot / 64.0;
        gvar += g * g;
        let s = b[i] as f64 - q[(i / 32) * 2 + (i % 8) / 4] / 16.0;
        qvar += s * s;
    }
    gvar = gvar * 64.0 / 63.0;
    qvar = qvar * 16.0 / 15.0;
    let ratio = if gvar > 0.0 { qvar / gvar } else { 0.0 };
    let mut e = 0.0;
    for i in 1..64 {
        let m = CSF[plane][i / 8][i % 8] * 0.3885746225901003;
        e += (d[i] * d[i]) as f64 * m * m;
    }
    (e * ratio).sqrt() / 32.0
}

pub fn hvs_plane<T: Pixel>(a: &Plane<T>, b: &Plane<T>, plane: usize, bd: usize) -> f64 {
    let (w, h) = (a.cfg.width, a.cfg.height);
    let mut total = 0.0;
    let mut n = 0u64;
    let mut y = 0;
    while y + 8 <= h {
        let mut x = 0;
        while x + 8 <= w {
            let mut p = [0i32; 64];
            let mut q = [0i32; 64];
            for i in 0..64 {
                p[i] = px(a, x + i % 8, y + i / 8) as i32;
                q[i] = px(b, x + i % 8, y + i / 8) as i32;
            }
            let dp = dct8x8(&p);
            let dq = dct8x8(&q);
            let m1 = masking(&p, &dp, plane);
            let m2 = masking(&q, &dq, plane);
            let m = if m2 > m1 { m2 } else { m1 };
            for i in 0..64 {
                let c = CSF[plane][i / 8][i % 8];
                let mut e = (dp[i] - dq[i]).abs() as f64;
                if i > 0 {
                    let t = c * 0.3885746225901003;
                    e -= m / (t * t);
                    if e < 0.0 {
                        e = 0.0;
                    }
                }
                total += e * e * c * c;
            }
            n += 64;
            x += 7;
        }
        y += 7;
    }
    if n == 0 {
        return 0.0;
    }
    let max = ((1u64 << bd) - 1) as f64;
    total / n as f64 / (max * max)
}

pub fn err_db(s: f64) -> f64 {
    -10.0 * s.log10()
}

// ---------------------------------------------------------------- CIEDE2000
fn pow24(x: f32) -> f32 {
    let bits = x.to_bits();
    let e = (bits >> 23) as i32 - 127;
    let f = ((bits >> 20) & 7) as usize;
    let t: [f32; 8] = std::array::from_fn(|i| (1.0 / (1.0 + (i as f64 + 0.5) / 8.0)) as f32);
    let tp: [f32; 8] = std::array::from_fn(|i| (t[i] as f64).powf(-2.4) as f32);
    let ep: [f32; 8] = std::array::from_fn(|i| 2f64.powi(i as i32 - 4).powf(2.4) as f32);
    let m = f32::from_bits((bits & 0x807fffff) | 0x3f800000);
    let r = m * t[f];
    let s = 7.0 / 125.0 - 36.0 / 125.0 * r + 126.0 / 125.0 * r * r + 28.0 / 125.0 * r * r * r;
    s * tp[f] * ep[(e + 4) as usize]
}

fn cube_root(x: f32) -> f32 {
    let bits = x.to_bits();
    let e = (bits >> 23) as i32 - 127;
    let f = ((bits >> 20) & 7) as usize;
    let t: [f32; 8] = std::array::from_fn(|i| (1.0 / (1.0 + (i as f64 + 0.5) / 8.0)) as f32);
    let tp: [f32; 8] = std::array::from_fn(|i| (t[i] as f64).powf(-1.0 / 3.0) as f32);
    let ep: [f32; 16] = std::array::from_fn(|i| 2f64.powi(i as i32 - 7).powf(1.0 / 3.0) as f32);
    let m = f32::from_bits((bits & 0x807fffff) | 0x3f800000);
    let r = m * t[f];
    let s = 40.0 / 81.0 + 60.0 / 81.0 * r - 24.0 / 81.0 * r * r + 5.0 / 81.0 * r * r * r;
    s * tp[f] * ep[(e + 7) as usize]
}

fn linear(c: f32) -> f32 {
    if c > 10.0 / 255.0 {
        pow24((c + 0.055) * (1.0 / 1.055))
    } else {
        c * (1.0 / 12.92)
    }
}

fn labf(t: f32) -> f32 {
    if t > 216.0 / 24389.0 {
        cube_root(t)
    } else {
        (t * (24389.0 / 27.0) + 16.0) * (1.0 / 116.0)
    }
}

pub fn lab(y: i64, u: i64, v: i64, bd: usize) -> (f32, f32, f32) {
    let sc = (1u32 << (bd - 8)) as f32;
    let y = (y as f32 - 16.0 * sc) * (1.0 / (219.0 * sc));
    let u = (u as f32 - 128.0 * sc) * (1.0 / (224.0 * sc));
    let v = (v as f32 - 128.0 * sc) * (1.0 / (224.0 * sc));
    let r = linear(y + 1.28033 * v);
    let g = linear(y - 0.21482 * u - 0.38059 * v);
    let b = linear(y + 2.12798 * u);
    let cx = labf((0.4124564390896921 * r + 0.357576077643909 * g + 0.18043748326639894 * b) * (1.0 / 0.95047));
    let cy = labf(0.21267285140562248 * r + 0.715152155287818 * g + 0.07217499330655958 * b);
    let cz = labf((0.019333895582329317 * r + 0.119192025881303 * g + 0.9503040785363677 * b) * (1.0 / 1.08883));
    (116.0 * cy - 16.0, 500.0 * (cx - cy), 200.0 * (cy - cz))
}

fn hue(b: f32, a: f32) -> f32 {
    if a == 0.0 && b == 0.0 {
        return 0.0;
    }
    let h = b.atan2(a);
    if h < 0.0 {
        h + 2.0 * std::f32::consts::PI
    } else {
        h
    }
}

pub fn de2000(p: (f32, f32, f32), q: (f32, f32, f32)) -> f32 {
    let pi = std::f32::consts::PI;
    let c1 = (p.1 * p.1 + p.2 * p.2).sqrt();
    let c2 = (q.1 * q.1 + q.2 * q.2).sqrt();
    let cb7 = ((c1 + c2) / 2.0).powi(7);
    let g = 0.5 * (1.0 - (cb7 / (cb7 + 25f32.powi(7))).sqrt());
    let a1 = p.1 * (1.0 + g);
    let a2 = q.1 * (1.0 + g);
    let cp1 = (a1 * a1 + p.2 * p.2).sqrt();
    let cp2 = (a2 * a2 + q.2 * q.2).sqrt();
    let h1 = hue(p.2, a1);
    let h2 = hue(q.2, a2);
    let diff = (h1 - h2).abs();
    let dh = if c1 == 0.0 || c2 == 0.0 {
        0.0
    } else if diff <= pi {
        h2 - h1
    } else if h2 <= h1 {
        h2 - h1 + 2.0 * pi
    } else {
        h2 - h1 - 2.0 * pi
    };
    let hb = if diff > pi { (h1 + h2 + 2.0 * pi) / 2.0 } else { (h1 + h2) / 2.0 };
    let lm = (p.0 + q.0) / 2.0 - 50.0;
    let cm = (cp1 + cp2) / 2.0;
    let t = 1.0 - 0.17 * (hb - pi / 6.0).cos() + 0.24 * (2.0 * hb).cos() + 0.32 * (3.0 * hb + pi / 30.0).cos()
        - 0.20 * (4.0 * hb - 7.0 * pi / 20.0).cos();
    let sl = 1.0 + 0.015 * lm * lm / (20.0 + lm * lm).sqrt();
    let sc = 1.0 + 0.045 * cm;
    let sh = 1.0 + 0.015 * cm * t;
    let cm7 = cm.powi(7);
    let dg = (hb * (180.0 / pi) - 275.0) * (1.0 / 25.0);
    let dtheta = 60.0 * (-(dg * dg)).exp() * (pi / 180.0);
    let rt = -2.0 * (cm7 / (cm7 + 25f32.powi(7))).sqrt() * dtheta.sin();
    let l = (q.0 - p.0) / (0.65 * sl);
    let c = (cp2 - cp1) / (1.0 * sc);
    let h = 2.0 * (cp1 * cp2).sqrt() * (dh / 2.0).sin() / (4.0 * sh);
    (l * l + c * c + h * h + rt * c * h).sqrt()
}

/// Mean colour difference.
pub fn ciede_mean<T: Pixel>(a: &Frame<T>, b: &Frame<T>, bd: usize, cs: ChromaSampling) -> f64 {
    let (xd, yd) = cs.get_decimation().unwrap_or((0, 0));
    let c = &a.planes[0].cfg;
    let mut sum = 0.0;
    let mono = a.planes[1].cfg.width == 0;
    for y in 0..c.height {
        for x in 0..c.width {
            let f = |f: &Frame<T>| {
                if mono {
                    lab(px(&f.planes[0], x, y), 128 << (bd - 8), 128 << (bd - 8), bd)
                } else {
                    lab(px(&f.planes[0], x, y), px(&f.planes[1], x >> xd, y >> yd), px(&f.planes[2], x >> xd, y >> yd), bd)
                }
            };
            sum += de2000(f(a), f(b)) as f64;
        }
    }
    sum / (c.width * c.height) as f64
}

pub fn ciede_db(m: f64) -> f64 {
    let s = 45.0 - 20.0 * m.log10();
    if s < 100.0 {
        s
    } else {
        100.0
    }
}
