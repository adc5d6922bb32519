#![allow(clippy::all)]
#[cfg(feature = "ff")]
pub mod ff;
#[cfg(feature = "hk")]
pub mod hk;
pub mod refm;
pub mod ve;
use av_metrics::video::ciede::*;
use av_metrics::video::psnr::*;
use av_metrics::video::psnr_hvs::*;
use av_metrics::video::ssim::*;
use av_metrics::video::*;
use refm::*;

pub const PSNR: u64 = 0;
pub const SSIM: u64 = 1;
pub const MSSSIM: u64 = 2;
pub const HVS: u64 = 3;
pub const CIEDE: u64 = 4;
pub const CIEDE_SCALAR: u64 = 5;

const PL: [&str; 4] = ["y", "u", "v", "avg"];
const TOL: f64 = 1e-6;

#[derive(Clone, Copy)]
pub struct Shape {
    pub metric: u64,
    pub bd: usize,
    pub cs: ChromaSampling,
    pub w: usize,
    pub h: usize,
    pub xpad: usize,
    pub ypad: usize,
}

pub fn sampling(i: u64) -> ChromaSampling {
    match i {
        0 => ChromaSampling::Cs420,
        1 => ChromaSampling::Cs422,
        2 => ChromaSampling::Cs444,
        _ => ChromaSampling::Cs400,
    }
}

/// Parameters 0..7 of every frame harness. 14: every how many samples one is arbitrary (0: all are), 15: content of
/// the others.
pub fn shape() -> Shape {
    Shape {
        metric: ve::param(0),
        bd: ve::param(1) as usize,
        cs: sampling(ve::param(2)),
        w: ve::param(3) as usize,
        h: ve::param(4) as usize,
        xpad: ve::param(5) as usize,
        ypad: ve::param(6) as usize,
    }
}

pub fn fill_plane<T: Pixel>(p: &mut Plane<T>, max: u64) {
    let top = if std::mem::size_of::<T>() == 1 { 255 } else { 65535 };
    if p.cfg.stride != p.cfg.width || p.cfg.alloc_height != p.cfg.height {
        ve::fill(&mut p.data[..], top);
    }
    let c = p.cfg.clone();
    let (step, pat, f) = (ve::param(14) as usize, ve::param(15), unsafe { FRAMES } % 2);
    for y in 0..c.height {
        let s = (c.yorigin + y) * c.stride + c.xorigin;
        if step == 0 {
            ve::fill(&mut p.data[s..s + c.width], max);
            continue;
        }
        for x in 0..c.width {
            let i = y * c.width + x;
            if i % step == step / 2 || i + 1 == c.width * c.height {
                ve::fill(&mut p.data[s + x..s + x + 1], max);
            } else {
                p.data[s + x] = T::cast_from(content(pat, f, x as u32, y as u32, max as u32));
            }
        }
    }
}

/// How many frames there are.
static mut FRAMES: u32 = 0;

/// Fixed samples of large frames, of which only every sample number `param 14` is arbitrary.
fn content(pat: u64, f: u32, x: u32, y: u32, max: u32) -> u32 {
    let hash = |k: u32| {
        let h = (x + 1).wrapping_mul(0x9e37_79b1) ^ (y + 1).wrapping_mul(0x85eb_ca6b) ^ (k + 1).wrapping_mul(0xc2b2_ae35);
        (h ^ h >> 15).wrapping_mul(0x2c1b_3c6d) >> 12
    };
    match pat {
        // the largest differences there are
        0 => max * (1 - f),
        // unrelated frames
        1 => hash(f) & max,
        // similar frames
        2 => ((x * 3 + y * 5) % (max - 7)) + f * (hash(1) & 7),
        // flat frames one step apart
        _ => max / 2 + f,
    }
}

/// A frame of the exact size with arbitrary samples and arbitrary invisible storage.
pub fn blank<T: Pixel>(s: &Shape) -> Frame<T> {
    let (xd, yd) = s.cs.get_decimation().unwrap_or((0, 0));
    let (cw, ch) = s.cs.get_chroma_dimensions(s.w, s.h);
    let c = || Plane::new(cw, ch, xd, yd, s.xpad >> xd, s.ypad >> yd);
    Frame { planes: [Plane::new(s.w, s.h, 0, 0, s.xpad, s.ypad), c(), c()] }
}

pub fn frame<T: Pixel>(s: &Shape) -> Frame<T> {
    let mut f = blank(s);
    for p in f.planes.iter_mut() {
        fill_plane(p, (1 << s.bd) - 1);
    }
    unsafe { FRAMES += 1 };
    f
}

/// The same visible samples, as a frame with no padding beyond the row alignment.
pub fn tight<T: Pixel>(f: &Frame<T>) -> Frame<T> {
    let t = |p: &Plane<T>| {
        let (w, h) = (p.cfg.width, p.cfg.height);
        let mut o: Plane<T> = Plane::new(w, h, p.cfg.xdec, p.cfg.ydec, 0, 0);
        let (s, d) = (p.cfg.stride, o.cfg.stride);
        for y in 0..h {
            for x in 0..w {
                o.data[y * d + x] = p.data[(p.cfg.yorigin + y) * s + p.cfg.xorigin + x];
            }
        }
        o
    };
    Frame { planes: [t(&f.planes[0]), t(&f.planes[1]), t(&f.planes[2])] }
}

pub type Score = Option<[f64; 4]>;

pub fn score<T: Pixel>(m: u64, a: &Frame<T>, b: &Frame<T>, bd: usize, cs: ChromaSampling) -> Score {
    let pl = |r: PlanarMetrics| [r.y, r.u, r.v, r.avg];
    match m {
        PSNR => calculate_frame_psnr(a, b, bd, cs).ok().map(pl),
        SSIM => calculate_frame_ssim(a, b, bd, cs).ok().map(pl),
        MSSSIM => calculate_frame_msssim(a, b, bd, cs).ok().map(pl),
        HVS => calculate_frame_psnr_hvs(a, b, bd, cs).ok().map(pl),
        CIEDE => calculate_frame_ciede(a, b, bd, cs).ok().map(|v| [v, 0., 0., 0.]),
        _ => calculate_frame_ciede_nosimd(a, b, bd, cs).ok().map(|v| [v, 0., 0., 0.]),
    }
}

pub fn cweight(cs: ChromaSampling) -> f64 {
    match cs {
        ChromaSampling::Cs420 => 0.25,
        ChromaSampling::Cs422 => 0.5,
        ChromaSampling::Cs444 => 1.0,
        ChromaSampling::Cs400 => 0.0,
    }
}

fn nplanes(m: u64) -> usize {
    if m >= CIEDE {
        1
    } else {
        3
    }
}

/// Linear score of one plane (index for SSIM, MS-SSIM, error for HVS).
pub fn linear_ref<T: Pixel>(m: u64, a: &Frame<T>, b: &Frame<T>, i: usize, bd: usize) -> f64 {
    match m {
        SSIM => ssim_plane(&a.planes[i], &b.planes[i], bd),
        MSSSIM => msssim_plane(&a.planes[i], &b.planes[i], bd),
        _ => hvs_plane(&a.planes[i], &b.planes[i], i, bd),
    }
}

pub fn to_db(m: u64, s: f64) -> f64 {
    if m == HVS {
        err_db(s)
    } else {
        index_db(s)
    }
}

macro_rules! by_depth {
    ($f:ident, $s:expr) => {
        if $s.bd > 8 {
            $f::<u16>($s)
        } else {
            $f::<u8>($s)
        }
    };
}

// ---------------------------------------------------------------- frame harnesses

/// Score equals its definition. param 7: bit mask of the planes to check (8 = average, 16 = the average as
/// finding F19 has it).
fn def_<T: Pixel>(s: &Shape) {
    let a: Frame<T> = frame(s);
    let b: Frame<T> = frame(s);
    let r = score(s.metric, &a, &b, s.bd, s.cs);
    ve::prove("result", r.is_some());
    let r = r.unwrap();
    let mask = ve::param(7);
    match s.metric {
        PSNR => {
            let mut tot = (0, 0);
            for i in 0..3 {
                let e = sse(&a.planes[i], &b.planes[i]);
                tot.0 += e.0;
                tot.1 += e.1;
                if mask >> i & 1 == 1 {
                    ve::prove_eq(PL[i], r[i], psnr_db(e.0, e.1, s.bd), TOL);
                }
            }
            if mask & 8 != 0 {
                ve::prove_eq("avg", r[3], psnr_db(tot.0, tot.1, s.bd), TOL);
            }
        }
        CIEDE | CIEDE_SCALAR => {
            let m = ciede_mean(&a, &b, s.bd, s.cs);
            ve::prove_eq("score", r[0], ciede_db(m), 1e-3);
        }
        m => {
            let w = cweight(s.cs);
            let mut l = [0.0; 3];
            for i in 0..3 {
                if mask >> i & 1 == 1 || mask & 24 != 0 {
                    l[i] = linear_ref(m, &a, &b, i, s.bd);
                }
                if mask >> i & 1 == 1 {
                    ve::prove_eq(PL[i], r[i], to_db(m, l[i]), TOL);
                }
            }
            let sum = l[0] + w * (l[1] + l[2]);
            if mask & 8 != 0 {
                ve::prove_eq("avg", r[3], to_db(m, sum / (1.0 + 2.0 * w)), TOL);
            } else if mask & 16 != 0 {
                // finding F19
                ve::prove_eq("avg", r[3], to_db(m, sum * (1.0 + 2.0 * w)), TOL);
            }
        }
    }
    ve::cover("end");
}
#[no_mangle]
pub extern "C" fn h_def() {
    let s = shape();
    by_depth!(def_, &s)
}

/// Swapping the frames does not change the score.
fn sym_<T: Pixel>(s: &Shape) {
    let a: Frame<T> = frame(s);
    let b: Frame<T> = frame(s);
    let r = score(s.metric, &a, &b, s.bd, s.cs);
    let q = score(s.metric, &b, &a, s.bd, s.cs);
    ve::prove("result", r.is_some() && q.is_some());
    let (r, q) = (r.unwrap(), q.unwrap());
    for i in 0..4 {
        if i == 0 || nplanes(s.metric) > 1 {
            ve::prove_eq(PL[i], r[i], q[i], if s.metric >= CIEDE { 1e-3 } else { TOL });
        }
    }
    ve::cover("end");
}
#[no_mangle]
pub extern "C" fn h_sym() {
    let s = shape();
    by_depth!(sym_, &s)
}

/// Equal frames get the perfect score.
fn ident_<T: Pixel>(s: &Shape) {
    let a: Frame<T> = frame(s);
    let b = a.clone();
    let r = score(s.metric, &a, &b, s.bd, s.cs);
    ve::prove("result", r.is_some());
    let r = r.unwrap();
    for i in 0..4 {
        if i == 0 || nplanes(s.metric) > 1 {
            ve::nonan(PL[i], r[i]);
            match s.metric {
                PSNR | CIEDE | CIEDE_SCALAR => ve::prove(PL[i], r[i] == 100.0),
                _ => ve::prove(PL[i], r[i] > 100.0),
            }
        }
    }
    ve::cover("end");
}
#[no_mangle]
pub extern "C" fn h_ident() {
    let s = shape();
    by_depth!(ident_, &s)
}

/// Only visible samples count.
fn pad_<T: Pixel>(s: &Shape) {
    let a: Frame<T> = frame(s);
    let b: Frame<T> = frame(s);
    let (ta, tb) = (tight(&a), tight(&b));
    let r = score(s.metric, &a, &b, s.bd, s.cs);
    let q = score(s.metric, &ta, &tb, s.bd, s.cs);
    ve::prove("result", r.is_some() == q.is_some());
    if let (Some(r), Some(q)) = (r, q) {
        for i in 0..4 {
            if i == 0 || nplanes(s.metric) > 1 {
                ve::prove_eq(PL[i], r[i], q[i], TOL);
            }
        }
    }
    ve::cover("end");
}
#[no_mangle]
pub extern "C" fn h_pad() {
    let s = shape();
    by_depth!(pad_, &s)
}

/// Vector and scalar colour differences agree.
fn simd_<T: Pixel>(s: &Shape) {
    let a: Frame<T> = frame(s);
    let b: Frame<T> = frame(s);
    let r = score(CIEDE, &a, &b, s.bd, s.cs);
    let q = score(CIEDE_SCALAR, &a, &b, s.bd, s.cs);
    ve::prove("result", r.is_some() && q.is_some());
    ve::prove_eq("score", r.unwrap()[0], q.unwrap()[0], 1e-3);
    ve::cover("end");
}
#[no_mangle]
pub extern "C" fn h_simd() {
    let s = shape();
    by_depth!(simd_, &s)
}

// ---------------------------------------------------------------- comparability

/// Frames that differ in the geometry of a plane, and depths that do not fit the samples.
/// param 7: 0 = every geometry field of plane `param 8` of the second frame is arbitrary,
/// 1 = second frame of the shape given by params 8.. (sampling, width, height), 2 = arbitrary bit depth.
fn mis_<T: Pixel>(s: &Shape) {
    let a: Frame<T> = frame(s);
    let mut b: Frame<T> = frame(s);
    match ve::param(7) {
        0 => {
            let c = &mut b.planes[ve::param(8) as usize].cfg;
            let o = c.clone();
            c.width = ve::u(0, 1 << 20) as usize;
            c.height = ve::u(0, 1 << 20) as usize;
            c.xdec = ve::u(0, 2) as usize;
            c.ydec = ve::u(0, 2) as usize;
            ve::assume((c.width != o.width) | (c.height != o.height) | (c.xdec != o.xdec) | (c.ydec != o.ydec));
            ve::prove("geometry", score(s.metric, &a, &b, s.bd, s.cs).is_none());
        }
        1 => {
            let t = Shape {
                cs: sampling(ve::param(8)),
                w: ve::param(9) as usize,
                h: ve::param(10) as usize,
                ..*s
            };
            let b: Frame<T> = frame(&t);
            ve::prove("shape", score(s.metric, &a, &b, s.bd, s.cs).is_none());
            ve::prove("shape", score(s.metric, &b, &a, s.bd, s.cs).is_none());
        }
        _ => {
            let d = if std::mem::size_of::<T>() == 1 { ve::u(9, 1 << 32) } else { ve::u(0, 8) };
            ve::prove("depth", score(s.metric, &a, &b, d as usize, s.cs).is_none());
        }
    }
    ve::cover("end");
}
#[no_mangle]
pub extern "C" fn h_mis() {
    let s = shape();
    by_depth!(mis_, &s)
}

/// No panic, no overflow, no access out of bounds; scores are numbers in their range.
/// param 7: 1 = there must be a score.
fn rng_<T: Pixel>(s: &Shape) {
    let a: Frame<T> = frame(s);
    let b: Frame<T> = frame(s);
    ve::domain(true);
    let r = score(s.metric, &a, &b, s.bd, s.cs);
    ve::domain(false);
    if ve::param(7) == 1 {
        ve::prove("result", r.is_some());
    }
    if let Some(r) = r {
        for i in 0..4 {
            if i == 0 || nplanes(s.metric) > 1 {
                ve::nonan(PL[i], r[i]);
                if s.metric == PSNR || s.metric >= CIEDE {
                    ve::prove_le("most", r[i], 100.0, TOL);
                }
                if s.metric == PSNR {
                    ve::prove_le("least", 0.0, r[i], TOL);
                }
            }
        }
    }
    ve::cover("end");
}
#[no_mangle]
pub extern "C" fn h_rng() {
    let s = shape();
    by_depth!(rng_, &s)
}

/// Monochrome content: the luma score of every other sampling, an average of luma alone, and the
/// colour difference of neutral chroma.
fn mono_<T: Pixel>(s: &Shape) {
    let m = Shape { cs: ChromaSampling::Cs400, ..*s };
    let a: Frame<T> = frame(&m);
    let b: Frame<T> = frame(&m);
    let mut c: Frame<T> = blank(s);
    let mut d: Frame<T> = blank(s);
    c.planes[0] = a.planes[0].clone();
    d.planes[0] = b.planes[0].clone();
    for p in 1..3 {
        if s.metric >= CIEDE {
            for f in [&mut c, &mut d] {
                for v in f.planes[p].data.iter_mut() {
                    *v = T::cast_from(1u16 << (s.bd - 1));
                }
            }
        } else {
            fill_plane(&mut c.planes[p], (1 << s.bd) - 1);
            fill_plane(&mut d.planes[p], (1 << s.bd) - 1);
        }
    }
    let r = score(s.metric, &a, &b, s.bd, m.cs);
    let q = score(s.metric, &c, &d, s.bd, s.cs);
    ve::prove("result", r.is_some() && q.is_some());
    let (r, q) = (r.unwrap(), q.unwrap());
    ve::prove_eq("luma", r[0], q[0], if s.metric >= CIEDE { 1e-3 } else { TOL });
    if nplanes(s.metric) > 1 {
        ve::prove_eq("average", r[3], r[0], TOL);
    }
    ve::cover("end");
}
#[no_mangle]
pub extern "C" fn h_mono() {
    let s = shape();
    by_depth!(mono_, &s)
}

// ---------------------------------------------------------------- videos

/// A decoder over stored samples.
pub struct Mock {
    pub s: Shape,
    pub n: usize,
    pub at: usize,
    pub data: Vec<[Vec<u16>; 3]>,
    /// frame that comes out one column wider
    pub odd: usize,
}
impl Mock {
    /// `rows`: luma rows with arbitrary samples, the others hold a fixed pattern (0 = all arbitrary)
    pub fn new(s: &Shape, n: usize, rows: usize) -> Mock {
        Mock::some(s, n, rows, 0, 0)
    }
    /// `every`: only the last of so many frames has arbitrary samples, the others a pattern with `salt`
    pub fn some(s: &Shape, n: usize, rows: usize, every: usize, salt: usize) -> Mock {
        let (cw, ch) = s.cs.get_chroma_dimensions(s.w, s.h);
        let mut data = Vec::new();
        for k in 0..n {
            let mk = |w: usize, h: usize, p: usize| {
                let mut v = vec![0u16; w * h];
                if every > 0 && k % every != every - 1 {
                    for i in 0..w * h {
                        v[i] = ((60 + k * 7 + p * 31 + i * (3 + salt) + salt * (2 + k % 5)) % 200) as u16;
                    }
                } else if rows == 0 {
                    ve::fill(&mut v[..], (1 << s.bd) - 1);
                } else {
                    for i in 0..w * h {
                        v[i] = (90 + k * 11 + p * 5) as u16;
                    }
                    let m = w * rows.min(h);
                    ve::fill(&mut v[..m], (1 << s.bd) - 1);
                }
                v
            };
            data.push([mk(s.w, s.h, 0), mk(cw, ch, 1), mk(cw, ch, 2)]);
        }
        Mock { s: *s, n, at: 0, data, odd: usize::MAX }
    }
    pub fn make<T: Pixel>(&self, i: usize) -> Frame<T> {
        let mut s = self.s;
        if i == self.odd {
            s.w += 1;
        }
        let mut f: Frame<T> = blank(&s);
        for p in 0..3 {
            let w = if i == self.odd && p == 0 { self.s.w } else { f.planes[p].cfg.width };
            let c = f.planes[p].cfg.clone();
            for y in 0..c.height {
                for x in 0..w {
                    if y * w + x < self.data[i][p].len() {
                        f.planes[p].data[(c.yorigin + y) * c.stride + c.xorigin + x] =
                            T::cast_from(self.data[i][p][y * w + x]);
                    }
                }
            }
        }
        f
    }
}
impl decode::Decoder for Mock {
    fn read_video_frame<T: Pixel>(&mut self) -> Option<Frame<T>> {
        if self.at >= self.n {
            return None;
        }
        self.at += 1;
        Some(self.make(self.at - 1))
    }
    fn get_bit_depth(&self) -> usize {
        self.s.bd
    }
    fn get_video_details(&self) -> decode::VideoDetails {
        decode::VideoDetails {
            width: self.s.w,
            height: self.s.h,
            bit_depth: self.s.bd,
            chroma_sampling: self.s.cs,
            ..Default::default()
        }
    }
}

const APSNR: u64 = 6;

pub fn vscore<A: decode::Decoder, F: Fn(usize) + Send>(m: u64, a: &mut A, b: &mut A, lim: Option<usize>, cb: F) -> Score {
    let pl = |r: PlanarMetrics| [r.y, r.u, r.v, r.avg];
    match m {
        PSNR => calculate_video_psnr(a, b, lim, cb).ok().map(pl),
        APSNR => calculate_video_apsnr(a, b, lim, cb).ok().map(pl),
        SSIM => calculate_video_ssim(a, b, lim, cb).ok().map(pl),
        MSSSIM => calculate_video_msssim(a, b, lim, cb).ok().map(pl),
        HVS => calculate_video_psnr_hvs(a, b, lim, cb).ok().map(pl),
        CIEDE => calculate_video_ciede(a, b, lim, cb).ok().map(|v| [v, 0., 0., 0.]),
        _ => calculate_video_ciede_nosimd(a, b, lim, cb).ok().map(|v| [v, 0., 0., 0.]),
    }
}

/// Score of the pairs 0..n by definition. mask: planes needed (8 = average, 16 = the average with the
/// deviating weights of finding F19).
fn vref<T: Pixel>(s: &Shape, a: &Mock, b: &Mock, n: usize, mask: u64) -> [f64; 4] {
    let mut out = [0.0; 4];
    let w = cweight(s.cs);
    let mut tot = [(0, 0); 4];
    let mut sum = [0.0; 4];
    for k in 0..n {
        let (f, g): (Frame<T>, Frame<T>) = (a.make(k), b.make(k));
        let mut all = (0, 0);
        match s.metric {
            PSNR | APSNR => {
                for i in 0..3 {
                    let e = sse(&f.planes[i], &g.planes[i]);
                    tot[i].0 += e.0;
                    tot[i].1 += e.1;
                    all.0 += e.0;
                    all.1 += e.1;
                    if s.metric == APSNR {
                        sum[i] += psnr_db(e.0, e.1, s.bd);
                    }
                }
                tot[3].0 += all.0;
                tot[3].1 += all.1;
                if s.metric == APSNR {
                    sum[3] += psnr_db(all.0, all.1, s.bd);
                }
            }
            CIEDE | CIEDE_SCALAR => sum[0] += ciede_db(ciede_mean(&f, &g, s.bd, s.cs)),
            m => {
                for i in 0..3 {
                    if mask >> i & 1 == 1 || mask & 24 != 0 {
                        sum[i] += linear_ref(m, &f, &g, i, s.bd);
                    }
                }
            }
        }
    }
    let nf = n as f64;
    match s.metric {
        PSNR => {
            for i in 0..4 {
                out[i] = psnr_db(tot[i].0, tot[i].1, s.bd);
            }
        }
        APSNR | CIEDE | CIEDE_SCALAR => {
            for i in 0..4 {
                out[i] = sum[i] / nf;
            }
        }
        m => {
            for i in 0..3 {
                if mask >> i & 1 == 1 {
                    out[i] = to_db(m, sum[i] / nf);
                }
            }
            let l = (sum[0] + w * (sum[1] + sum[2])) / nf;
            if mask & 8 != 0 {
                out[3] = to_db(m, l / (1.0 + 2.0 * w));
            } else if mask & 16 != 0 {
                out[3] = to_db(m, l * (1.0 + 2.0 * w));
            }
        }
    }
    out
}

/// Video scores against the definition over the frames, and against the frame functions.
/// params: 7 mask (8 average, 16 average as found, 32 one frame against the frame function),
/// 8 frames, 9 arbitrary rows per plane (0 all), 10 = only the last of every so many frames is arbitrary (0 all).
fn vid_<T: Pixel>(s: &Shape) {
    let n = ve::param(8) as usize;
    let rows = ve::param(9) as usize;
    let mask = ve::param(7);
    let mut a = Mock::some(s, n, rows, ve::param(10) as usize, 0);
    let mut b = Mock::some(s, n, rows, ve::param(10) as usize, 5);
    let r = vscore(s.metric, &mut a, &mut b, None, |_| {});
    ve::prove("result", r.is_some());
    let r = r.unwrap();
    let tol = if s.metric == CIEDE || s.metric == CIEDE_SCALAR { 1e-3 } else { TOL };
    let single = s.metric == CIEDE || s.metric == CIEDE_SCALAR;
    let q = if mask & 32 != 0 {
        let m = if s.metric == APSNR { PSNR } else { s.metric };
        let q = score(m, &a.make::<T>(0), &b.make::<T>(0), s.bd, s.cs);
        ve::prove("frame", q.is_some());
        q.unwrap()
    } else {
        vref::<T>(s, &a, &b, n, mask)
    };
    for i in 0..4 {
        if single && i > 0 {
            break;
        }
        let on = if i < 3 { mask >> i & 1 == 1 } else { mask & 24 != 0 };
        if on {
            ve::prove_eq(PL[i], r[i], q[i], tol);
        }
    }
    ve::cover("end");
}
#[no_mangle]
pub extern "C" fn h_vid() {
    let s = shape();
    by_depth!(vid_, &s)
}

static mut LOG: [u64; 64] = [0; 64];
static mut NLOG: usize = 0;
fn note(v: usize) {
    unsafe {
        let n = std::ptr::read_volatile(std::ptr::addr_of!(NLOG));
        if n < 64 {
            std::ptr::write_volatile(std::ptr::addr_of_mut!(LOG).cast::<u64>().add(n), v as u64);
        }
        std::ptr::write_volatile(std::ptr::addr_of_mut!(NLOG), n + 1);
    }
}

/// The video pipeline. param 7: largest number of frames, 8: mode (0 lengths and limit arbitrary,
/// 1 a pair that cannot be compared at an arbitrary position as well, 2 arbitrary declared formats,
/// 3 full lengths, no or one such pair anywhere),
/// 9: 0 = limit from the input, 1 = none, 10: bits 1 = check the score, 2 = check the progress reports.
fn pipe_<T: Pixel>(s: &Shape) {
    let top = ve::param(7);
    let mode = ve::param(8);
    let what = ve::param(10);
    let mut a = Mock::new(s, top as usize, 0);
    let mut b = Mock::new(s, top as usize, 0);
    unsafe {
        std::ptr::write_volatile(std::ptr::addr_of_mut!(NLOG), 0);
    }
    if mode == 2 {
        // declared formats: any two of them
        let (d, c) = (ve::pick(ve::u(0, 3)), ve::pick(ve::u(0, 3)));
        b.s.bd = [8, 10, 12, 9][d as usize];
        b.s.cs = sampling(c);
        ve::assume((b.s.bd != s.bd) | (b.s.cs != s.cs));
        let r = vscore(s.metric, &mut a, &mut b, None, note);
        ve::prove("format", r.is_none());
        let r = vscore(s.metric, &mut b, &mut a, None, note);
        ve::prove("format", r.is_none());
        ve::cover("end");
        return;
    }
    let (n1, n2) = if mode == 3 {
        (top as usize, top as usize)
    } else {
        (ve::pick(ve::u(0, top)) as usize, ve::pick(ve::u(0, top)) as usize)
    };
    let lim = if ve::param(9) == 0 { Some(ve::pick(ve::u(0, top + 1)) as usize) } else { None };
    a.n = n1;
    b.n = n2;
    let n = n1.min(n2).min(lim.unwrap_or(usize::MAX));
    let mut bad = usize::MAX;
    if mode == 1 || mode == 3 {
        // `top` stands for no such pair
        bad = ve::pick(ve::u(0, if mode == 1 { top - 1 } else { top })) as usize;
        b.odd = bad;
    }
    let r = vscore(s.metric, &mut a, &mut b, lim, note);
    if n == 0 || bad < n {
        ve::prove("error", r.is_none());
    } else {
        ve::prove("result", r.is_some());
        let r = r.unwrap();
        if what & 1 == 1 {
            b.odd = usize::MAX;
            let q = vref::<T>(s, &a, &b, n, 1);
            ve::prove_eq("score", r[0], q[0], TOL);
        }
        if what & 2 == 2 {
            let k = unsafe { std::ptr::read_volatile(std::ptr::addr_of!(NLOG)) };
            ve::prove("reports", k == n + 1);
            for i in 0..n + 1 {
                let v = unsafe { std::ptr::read_volatile(std::ptr::addr_of!(LOG).cast::<u64>().add(i)) };
                ve::prove("report", v == if i == n { usize::MAX as u64 } else { i as u64 + 1 });
            }
        }
    }
    ve::cover("end");
}
#[no_mangle]
pub extern "C" fn h_pipe() {
    let s = shape();
    by_depth!(pipe_, &s)
}

fn same<T: Pixel>(f: &Frame<T>, g: &Frame<T>) -> bool {
    let mut ok = true;
    for p in 0..3 {
        let (c, d) = (&f.planes[p].cfg, &g.planes[p].cfg);
        if (c.width, c.height) != (d.width, d.height) {
            return false;
        }
        for y in 0..c.height {
            for x in 0..c.width {
                let u: u32 = f.planes[p].data[(c.yorigin + y) * c.stride + c.xorigin + x].into();
                let v: u32 = g.planes[p].data[(d.yorigin + y) * d.stride + d.xorigin + x].into();
                ok &= u == v;
            }
        }
    }
    ok
}

/// A specific frame is the frame of that index. param 7: frames at most.
fn spec_<T: Pixel>(s: &Shape) {
    use decode::Decoder;
    let top = ve::param(7);
    let mut a = Mock::new(s, top as usize, 0);
    a.n = ve::pick(ve::u(0, top)) as usize;
    let k = ve::pick(ve::u(0, top + 2)) as usize;
    let k = if k as u64 == top + 2 { usize::MAX } else { k };
    let f = a.read_specific_frame::<T>(k);
    ve::prove("presence", f.is_some() == (k < a.n));
    if let Some(f) = f {
        ve::prove("frame", same(&f, &a.make::<T>(k)));
    }
    ve::cover("end");
}
#[no_mangle]
pub extern "C" fn h_spec() {
    let s = shape();
    by_depth!(spec_, &s)
}

// ---------------------------------------------------------------- chroma siting and Y4M

fn siting(i: u64) -> ChromaSamplePosition {
    match i {
        0 => ChromaSamplePosition::Unknown,
        1 => ChromaSamplePosition::Vertical,
        2 => ChromaSamplePosition::Colocated,
        3 => ChromaSamplePosition::Bilateral,
        _ => ChromaSamplePosition::Interpolated,
    }
}

/// Sample x of a vertically sited row, resampled.
fn sited(row: &[u32], x: usize, bd: usize) -> u32 {
    let at = |i: isize| row[i.max(0).min(row.len() as isize - 1) as usize] as i32;
    let x = x as isize;
    let s = 4 * at(x - 2) - 17 * at(x - 1) + 114 * at(x) + 35 * at(x + 1) - 9 * at(x + 2) + at(x + 3);
    let v = (s + 64) >> 7;
    let top = (1i32 << bd) - 1;
    (if v < 0 {
        0
    } else if v > top {
        top
    } else {
        v
    }) as u32
}

/// params: 0 position, 1 bit depth, 2 width, 3 height, 4 source samples beyond a row, 5, 6 padding of
/// the plane, 7 = the last source row ends at its last sample, 8 = arbitrary samples use all their bits
fn chroma_<T: Pixel>() {
    let (bd, w, h) = (ve::param(1) as usize, ve::param(2) as usize, ve::param(3) as usize);
    let pos = siting(ve::param(0));
    let sw = w + ve::param(4) as usize;
    let bytes = std::mem::size_of::<T>();
    let max = if ve::param(8) == 1 { [255, 65535][bytes - 1] } else { (1 << bd) - 1 };
    let n = if ve::param(7) == 1 { sw * (h - 1) + w } else { sw * h };
    let mut raw: Vec<u16> = vec![0; n];
    let mut bytes8: Vec<u8> = vec![0; n * bytes];
    ve::fill(&mut raw[..], max);
    for i in 0..n {
        for j in 0..bytes {
            bytes8[i * bytes + j] = (raw[i] >> (8 * j)) as u8;
        }
    }
    let mut p: Plane<T> = Plane::new(w, h, 1, 1, ve::param(5) as usize, ve::param(6) as usize);
    decode::convert_chroma_data(&mut p, pos, bd, &bytes8, sw * bytes, bytes);
    let c = p.cfg.clone();
    let mut ok = true;
    for y in 0..h {
        let row: Vec<u32> = (0..w).map(|x| raw[y * sw + x] as u32).collect();
        for x in 0..w {
            let v: u32 = p.data[(c.yorigin + y) * c.stride + c.xorigin + x].into();
            let r = if pos == ChromaSamplePosition::Vertical { sited(&row, x, bd) } else { row[x] };
            ok &= v == r;
        }
    }
    ve::prove("sample", ok);
    ve::cover("end");
}
#[no_mangle]
pub extern "C" fn h_chroma() {
    if ve::param(1) > 8 {
        chroma_::<u16>()
    } else {
        chroma_::<u8>()
    }
}

const CS: [(&str, usize, u64, u64); 14] = [
    ("420", 8, 0, 2),
    ("420jpeg", 8, 0, 3),
    ("420paldv", 8, 0, 4),
    ("420mpeg2", 8, 0, 1),
    ("420p10", 10, 0, 2),
    ("420p12", 12, 0, 2),
    ("422", 8, 1, 1),
    ("422p10", 10, 1, 1),
    ("422p12", 12, 1, 1),
    ("444", 8, 2, 2),
    ("444p10", 10, 2, 2),
    ("444p12", 12, 2, 2),
    ("mono", 8, 3, 0),
    ("mono12", 12, 3, 0),
];

fn num(v: &mut Vec<u8>, k: usize) {
    if k >= 10 {
        num(v, k / 10);
    }
    v.push(b'0' + (k % 10) as u8);
}

/// Y4M streams. params: 0 colour space, 1 width, 2 height, 3 frames, 4 header form, 5 frame header
/// form, 6 mode: 0 all frames, 1 stream cut anywhere after the header, 2 a specific frame,
/// 3 arbitrary frame rate, 4 = two such monochrome files are scored
fn y4m_<T: Pixel>() {
    use av_metrics_decoders::y4m::*;
    use decode::Decoder;
    let cs = CS[ve::param(0) as usize];
    let (w, h, n) = (ve::param(1) as usize, ve::param(2) as usize, ve::param(3) as usize);
    let (bd, sam, pos) = (cs.1, sampling(cs.2), siting(cs.3));
    let mode = ve::param(6);
    let bytes = std::mem::size_of::<T>();
    let s = Shape { metric: 0, bd, cs: sam, w, h, xpad: 0, ypad: 0 };
    let make = |k: u64| {
        let m = Mock::new(&s, n, 0);
        let mut v: Vec<u8> = b"YUV4MPEG2 ".to_vec();
        let mut rate = (30, 1);
        let size = |v: &mut Vec<u8>| {
            v.extend_from_slice(b"W");
            num(v, w);
            v.extend_from_slice(b" H");
            num(v, h);
        };
        match ve::param(4) + k {
            0 => {
                size(&mut v);
                v.extend_from_slice(b" F30:1 Ip A1:1 C");
                v.extend_from_slice(cs.0.as_bytes());
            }
            1 => {
                rate = (24000, 1001);
                v.extend_from_slice(b"C");
                v.extend_from_slice(cs.0.as_bytes());
                v.extend_from_slice(b" F24000:1001 ");
                size(&mut v);
                v.extend_from_slice(b" Im A0:0 XYSCSS=420JPEG XCOLORRANGE=LIMITED");
            }
            2 => {
                // the colour space is optional
                size(&mut v);
                v.extend_from_slice(b" F30:1");
            }
            _ => {
                let (x, y, z) = (ve::u(0, 9) as usize, ve::u(1, 9) as usize, ve::u(0, 9) as usize);
                rate = (x * 10 + y, y * 10 + z);
                size(&mut v);
                v.extend_from_slice(b" F");
                v.extend_from_slice(&[b'0' + x as u8, b'0' + y as u8, b':', b'0' + y as u8, b'0' + z as u8]);
                v.extend_from_slice(b" C");
                v.extend_from_slice(cs.0.as_bytes());
            }
        }
        v.push(b'\n');
        let head = v.len();
        for f in &m.data {
            v.extend_from_slice(if ve::param(5) == 1 { b"FRAME Ip XTHING\n" } else { b"FRAME\n" });
            for p in f {
                for x in p {
                    v.push(*x as u8);
                    if bytes == 2 {
                        v.push((*x >> 8) as u8);
                    }
                }
            }
        }
        (m, v, head, rate)
    };
    let expect = |m: &Mock, k: usize| -> Frame<T> {
        let mut f: Frame<T> = m.make(k);
        if pos == ChromaSamplePosition::Vertical {
            for p in 1..3 {
                let c = f.planes[p].cfg.clone();
                for y in 0..c.height {
                    let o = y * c.width;
                    let row: Vec<u32> = m.data[k][p][o..o + c.width].iter().map(|x| *x as u32).collect();
                    for x in 0..c.width {
                        f.planes[p].data[(c.yorigin + y) * c.stride + c.xorigin + x] = T::cast_from(sited(&row, x, bd));
                    }
                }
            }
        }
        f
    };
    let (m, mut v, head, rate) = make(0);
    let each = if n > 0 { (v.len() - head) / n } else { 1 };
    let mut whole = n;
    if mode == 1 {
        let cut = head + ve::pick(ve::u(0, (v.len() - head) as u64)) as usize;
        v.truncate(cut);
        whole = (cut - head) / each;
    }
    let path = ve::file(&v);
    let d = new_decoder_from_file(&path);
    ve::prove("open", d.is_ok());
    let mut d = d.ok().unwrap();
    let i = d.get_video_details();
    ve::prove("size", i.width == w && i.height == h);
    ve::prove("depth", i.bit_depth == bd && d.get_bit_depth() == bd);
    ve::prove("sampling", i.chroma_sampling == sam);
    ve::prove("siting", i.chroma_sample_position == pos);
    ve::prove("time base", (i.time_base.num == rate.1 as u64) & (i.time_base.den == rate.0 as u64));
    if mode == 2 {
        let k = ve::pick(ve::u(0, n as u64 + 1)) as usize;
        let f = d.read_specific_frame::<T>(k);
        ve::prove("presence", f.is_some() == (k < n));
        if let Some(f) = f {
            ve::prove("frame", same(&f, &expect(&m, k)));
        }
        ve::cover("end");
        return;
    }
    if mode == 4 {
        let (_, v2, _, _) = make(0);
        let mut e = new_decoder_from_file(&ve::file(&v2)).ok().unwrap();
        for met in [PSNR, SSIM, CIEDE_SCALAR] {
            let (a, b): (Frame<T>, Frame<T>) = (expect(&m, 0), e.read_specific_frame(0).unwrap());
            let r = score(met, &a, &b, bd, sam);
            ve::prove("score", r.is_some());
            if met != CIEDE_SCALAR {
                ve::prove_eq("average", r.unwrap()[3], r.unwrap()[0], TOL);
            }
            e = new_decoder_from_file(&ve::file(&v2)).ok().unwrap();
        }
        ve::cover("end");
        return;
    }
    for k in 0..whole {
        let f = d.read_video_frame::<T>();
        ve::prove("frame", f.is_some());
        let f = f.unwrap();
        let (cw, ch) = sam.get_chroma_dimensions(w, h);
        ve::prove("dimensions", (f.planes[0].cfg.width, f.planes[0].cfg.height) == (w, h));
        for p in 1..3 {
            ve::prove("dimensions", (f.planes[p].cfg.width, f.planes[p].cfg.height) == (cw, ch));
        }
        ve::prove("samples", same(&f, &expect(&m, k)));
    }
    for _ in 0..2 {
        ve::prove("end of video", d.read_video_frame::<T>().is_none());
    }
    ve::cover("end");
}
#[no_mangle]
pub extern "C" fn h_y4m() {
    if CS[ve::param(0) as usize].1 > 8 {
        y4m_::<u16>()
    } else {
        y4m_::<u8>()
    }
}

#[cfg(not(feature = "sym"))]
pub fn run(name: &str) -> bool {
    match name {
        "h_def" => h_def(),
        "h_sym" => h_sym(),
        "h_ident" => h_ident(),
        "h_pad" => h_pad(),
        "h_simd" => h_simd(),
        "h_mis" => h_mis(),
        "h_rng" => h_rng(),
        "h_mono" => h_mono(),
        "h_vid" => h_vid(),
        "h_pipe" => h_pipe(),
        "h_spec" => h_spec(),
        "h_chroma" => h_chroma(),
        "h_y4m" => h_y4m(),
        #[cfg(feature = "ff")]
        "h_ff" => ff::h_ff(),
        #[cfg(feature = "hk")]
        "h_dct" => hk::h_dct(),
        #[cfg(feature = "hk")]
        "h_col" => hk::h_col(),
        _ => return false,
    }
    true
}
