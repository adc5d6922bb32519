//! Interface between a harness and whoever runs it: the symbolic executor (feature `sym`) or a
//! native replay of one assignment.

#[cfg(feature = "sym")]
mod imp {
    extern "C" {
        pub fn ve_param(i: u64) -> u64;
        pub fn ve_u(lo: u64, hi: u64) -> u64;
        pub fn ve_fill(p: *mut u8, n: u64, esz: u64, max: u64);
        pub fn ve_assume(c: bool);
        pub fn ve_prove(t: *const u8, n: u64, c: bool);
        pub fn ve_prove_eq(t: *const u8, n: u64, a: f64, b: f64, tol: f64);
        pub fn ve_prove_le(t: *const u8, n: u64, a: f64, b: f64, tol: f64);
        pub fn ve_nonan(t: *const u8, n: u64, a: f64);
        pub fn ve_cover(t: *const u8, n: u64);
        pub fn ve_file(p: *const u8, n: u64) -> u64;
        pub fn ve_path(h: u64, out: *mut u8) -> u64;
        pub fn ve_domain(on: bool);
        pub fn ve_pick(v: u64) -> u64;
    }
    pub fn param(i: usize) -> u64 {
        unsafe { ve_param(i as u64) }
    }
    pub fn u(lo: u64, hi: u64) -> u64 {
        unsafe { ve_u(lo, hi) }
    }
    pub fn fill<T>(s: &mut [T], max: u64) {
        unsafe { ve_fill(s.as_mut_ptr() as *mut u8, s.len() as u64, std::mem::size_of::<T>() as u64, max) }
    }
    pub fn assume(c: bool) {
        unsafe { ve_assume(c) }
    }
    pub fn prove(t: &str, c: bool) {
        unsafe { ve_prove(t.as_ptr(), t.len() as u64, c) }
    }
    pub fn prove_eq(t: &str, a: f64, b: f64, tol: f64) {
        unsafe { ve_prove_eq(t.as_ptr(), t.len() as u64, a, b, tol) }
    }
    pub fn prove_le(t: &str, a: f64, b: f64, tol: f64) {
        unsafe { ve_prove_le(t.as_ptr(), t.len() as u64, a, b, tol) }
    }
    pub fn nonan(t: &str, a: f64) {
        unsafe { ve_nonan(t.as_ptr(), t.len() as u64, a) }
    }
    pub fn cover(t: &str) {
        unsafe { ve_cover(t.as_ptr(), t.len() as u64) }
    }
    pub fn domain(on: bool) {
        unsafe { ve_domain(on) }
    }
    /// Case split on the value.
    pub fn pick(v: u64) -> u64 {
        unsafe { ve_pick(v) }
    }
    /// A file with the given content; returns its path.
    pub fn file(b: &[u8]) -> String {
        unsafe {
            let h = ve_file(b.as_ptr(), b.len() as u64);
            let mut o = [0u8; 64];
            let n = ve_path(h, o.as_mut_ptr());
            String::from_utf8_unchecked(o[..n as usize].to_vec())
        }
    }
}

#[cfg(not(feature = "sym"))]
mod imp {
    use std::collections::HashMap;
    use std::sync::Mutex;

    pub struct St {
        pub params: Vec<u64>,
        pub scalars: Vec<u64>,
        pub fills: HashMap<(u64, u64), u64>,
        /// how inputs the file does not name are chosen
        pub rand: Option<u64>,
        pub iu: usize,
        pub ifill: u64,
        pub files: Vec<String>,
    }
    pub static ST: Mutex<Option<St>> = Mutex::new(None);
    fn with<R>(f: impl FnOnce(&mut St) -> R) -> R {
        f(ST.lock().unwrap().as_mut().unwrap())
    }
    pub fn load(path: &str) {
        let t = std::fs::read_to_string(path).unwrap();
        let mut s = St {
            params: vec![],
            scalars: vec![],
            fills: HashMap::new(),
            rand: None,
            iu: 0,
            ifill: 0,
            files: vec![],
        };
        for l in t.lines() {
            let w: Vec<&str> = l.split_whitespace().collect();
            match w.first() {
                Some(&"param") => s.params = w[1..].iter().map(|x| x.parse().unwrap()).collect(),
                Some(&"rand") => s.rand = Some(w[1].parse().unwrap()),
                Some(&"u") => s.scalars = w[1..].iter().map(|x| x.parse().unwrap()).collect(),
                Some(&"fill") => {
                    let k = w[1].parse().unwrap();
                    for e in &w[2..] {
                        let (o, v) = e.split_once(':').unwrap();
                        s.fills.insert((k, o.parse().unwrap()), v.parse().unwrap());
                    }
                }
                _ => {}
            }
        }
        *ST.lock().unwrap() = Some(s);
    }
    pub fn cleanup() {
        if let Ok(mut g) = ST.try_lock() {
            if let Some(s) = g.as_mut() {
                for f in s.files.drain(..) {
                    let _ = std::fs::remove_file(f);
                }
            }
        }
    }
    pub fn end(code: i32) -> ! {
        cleanup();
        std::process::exit(code)
    }
    fn repro(t: &str, what: String) -> ! {
        println!("REPRO {t} {what}");
        end(3)
    }
    fn mix(a: u64, b: u64, c: u64) -> u64 {
        let mut x = a.wrapping_mul(0x9e3779b97f4a7c15) ^ b.wrapping_mul(0xc2b2ae3d27d4eb4f) ^ c.wrapping_mul(0x165667b19e3779f9);
        for _ in 0..3 {
            x ^= x >> 29;
            x = x.wrapping_mul(0xbf58476d1ce4e5b9);
            x ^= x >> 32;
        }
        x
    }
    fn other(rand: Option<u64>, k: u64, i: u64, max: u64) -> u64 {
        let Some(r) = rand else { return 0 };
        let h = mix(r, k, i);
        match r % 3 {
            0 => h % (max + 1),
            1 => (mix(r, 0, i / 3) % (max + 1) + h % 7).min(max),
            _ => [0, max, max / 2, h % (max + 1)][(h >> 40) as usize % 4],
        }
    }
    pub fn param(i: usize) -> u64 {
        with(|s| s.params.get(i).copied().unwrap_or(0))
    }
    pub fn u(lo: u64, hi: u64) -> u64 {
        let v = with(|s| {
            s.iu += 1;
            let n = s.iu as u64;
            s.scalars.get(s.iu - 1).copied().or(s.rand.map(|r| lo + mix(r, 1 << 40, n) % (hi - lo + 1)))
        })
        .unwrap_or(lo);
        assume(lo <= v && v <= hi);
        v
    }
    pub fn fill<T>(d: &mut [T], max: u64) {
        let n = d.len();
        let esz = std::mem::size_of::<T>();
        let p = d.as_mut_ptr() as *mut u8;
        with(|s| {
            let k = s.ifill;
            s.ifill += 1;
            for i in 0..n {
                let v = s.fills.get(&(k, i as u64)).copied().unwrap_or_else(|| other(s.rand, k, i as u64, max)).min(max);
                let b = v.to_le_bytes();
                for j in 0..esz {
                    unsafe { *p.add(i * esz + j) = b[j] };
                }
            }
        });
    }
    pub fn assume(c: bool) {
        if !c {
            println!("ASSUME");
            end(4);
        }
    }
    pub fn prove(t: &str, c: bool) {
        if !c {
            repro(t, String::new());
        }
    }
    fn close(a: f64, b: f64, tol: f64) -> bool {
        if a.is_nan() || b.is_nan() {
            return false;
        }
        if a == b {
            return true;
        }
        (a - b).abs() <= tol * 1f64.max(a.abs()).max(b.abs())
    }
    pub fn prove_eq(t: &str, a: f64, b: f64, tol: f64) {
        println!("VAL {t} {a:e} {b:e}");
        if !close(a, b, tol) {
            repro(t, format!("{a} {b}"));
        }
    }
    pub fn prove_le(t: &str, a: f64, b: f64, tol: f64) {
        println!("VAL {t} {a:e} {b:e}");
        if !(a <= b + tol * 1f64.max(a.abs()).max(b.abs())) {
            repro(t, format!("{a} {b}"));
        }
    }
    pub fn nonan(t: &str, a: f64) {
        println!("VAL {t} {a:e}");
        if a.is_nan() {
            repro(t, format!("{a}"));
        }
    }
    pub fn cover(_t: &str) {}
    pub fn domain(_on: bool) {}
    pub fn pick(v: u64) -> u64 {
        v
    }
    pub fn file(b: &[u8]) -> String {
        with(|s| {
            let p = std::env::temp_dir().join(format!("ve_{}_{}.y4m", std::process::id(), s.files.len()));
            std::fs::write(&p, b).unwrap();
            let p = p.to_str().unwrap().to_string();
            s.files.push(p.clone());
            p
        })
    }
}
pub use imp::*;
