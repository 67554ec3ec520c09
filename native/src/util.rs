//! Deterministic generators and the case runner shared by all properties.
use std::collections::HashSet;
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Rng { Rng(seed ^ 0x9E37_79B9_7F4A_7C15) }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    /// 0..n
    pub fn below(&mut self, n: usize) -> usize { if n == 0 { 0 } else { (self.u64() % n as u64) as usize } }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize { lo + self.below(hi - lo + 1) }
    pub fn chance(&mut self, num: usize, den: usize) -> bool { self.below(den) < num }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.below(v.len())] }
    /// numbers clustered at powers of two and other edges
    pub fn i64(&mut self) -> i64 {
        match self.below(6) {
            0 => self.u64() as i64,
            1 => (self.below(600) as i64) - 300,
            2 => *self.pick(&[0, 1, -1, i64::MAX, i64::MIN, i64::MAX - 1, i64::MIN + 1, 127, 128, -128, -129, 255, 256]),
            _ => {
                let b = self.below(64) as u32;
                let base = if b == 63 { i64::MIN } else { 1i64 << b };
                let d = self.below(5) as i64 - 2;
                let v = base.wrapping_add(d);
                if self.chance(1, 2) { v.wrapping_neg() } else { v }
            }
        }
    }
    pub fn i128(&mut self) -> i128 {
        match self.below(4) {
            0 => ((self.u64() as u128) << 64 | self.u64() as u128) as i128,
            1 => self.i64() as i128,
            _ => {
                let b = self.below(128) as u32;
                let base = if b == 127 { i128::MIN } else { 1i128 << b };
                let v = base.wrapping_add(self.below(5) as i128 - 2);
                if self.chance(1, 2) { v.wrapping_neg() } else { v }
            }
        }
    }
    pub fn f64(&mut self) -> f64 {
        match self.below(8) {
            0 => f64::from_bits(self.u64()),
            1 => self.i64() as f64,
            2 => *self.pick(&[0.0, -0.0, f64::INFINITY, f64::NEG_INFINITY, f64::MIN_POSITIVE, f64::MAX, f64::MIN, f64::NAN,
                f64::EPSILON, 5e-324, 0.5, -0.5, 1.0, -1.0, 9.2233720368547758e18, -9.2233720368547758e18, 1.8446744073709552e19, 2147483648.0, -2147483649.0]),
            3 => self.f32() as f64,
            4 => self.i64() as f64 + 0.5,
            5 => { let e = self.below(140) as i32 - 70; let v = 2f64.powi(e); if self.chance(1, 2) { -v } else { v } }
            6 => (self.below(2000) as f64 - 1000.0) / 8.0,
            _ => self.below(4000) as f64 - 2000.0,
        }
    }
    pub fn f32(&mut self) -> f32 {
        match self.below(5) {
            0 => f32::from_bits(self.u64() as u32),
            1 => self.i64() as f32,
            2 => *self.pick(&[0.0f32, -0.0, f32::INFINITY, f32::NEG_INFINITY, f32::NAN, f32::MIN_POSITIVE, f32::MAX, 1e-45, 2147483648.0, -2147483648.0]),
            3 => (self.below(2000) as f32 - 1000.0) / 8.0,
            _ => self.below(4000) as f32 - 2000.0,
        }
    }
    pub fn ch(&mut self) -> char {
        match self.below(12) {
            0 => *self.pick(&['é', 'あ', '漢', '😀', '\u{7f}', '\u{80}', '\u{7ff}', '\u{800}', '\u{ffff}', '\u{10000}', '\u{10ffff}', 'ß']),
            1 => *self.pick(&['\n', '\t', '\r', ' ', '"', '\\', '\'', '/', '\0', '#', '%']),
            2 => char::from_u32((self.u64() % 0xD7FF) as u32).unwrap_or('x'),
            3 | 4 => (b'0' + self.below(10) as u8) as char,
            _ => (b'a' + self.below(26) as u8) as char,
        }
    }
    /// a string of roughly `len` characters
    pub fn string(&mut self, len: usize) -> String { (0..len).map(|_| self.ch()).collect() }
    /// a string of exactly `n` bytes
    pub fn string_bytes(&mut self, n: usize) -> String {
        let mut s = String::new();
        while s.len() < n {
            let c = self.ch();
            if s.len() + c.len_utf8() <= n { s.push(c) } else { s.push('x') }
        }
        s
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| match self.below(4) { 0 => 0, 1 => 255, _ => self.u64() as u8 }).collect()
    }
    pub fn shuffle<T>(&mut self, v: &mut Vec<T>) {
        for i in (1..v.len()).rev() { let j = self.below(i + 1); v.swap(i, j); }
    }
}

pub struct Case {
    pub rng: Rng,
    pub index: u64,
    /// 1..=100, scales the generated structures
    pub size: usize,
    pub dir: PathBuf,
    trace: bool,
    log: String,
    digest: u64,
    nontrivial: bool,
}
impl Case {
    pub fn log<F: FnOnce() -> String>(&mut self, f: F) {
        if self.trace {
            let s = f();
            if self.log.len() < 200_000 { self.log.push_str(&s); self.log.push('\n'); }
        }
    }
    pub fn mix(&mut self, v: u64) { self.digest = (self.digest ^ v).wrapping_mul(0x100_0000_01b3).rotate_left(23); }
    pub fn mix_bytes(&mut self, v: &[u8]) { for b in v { self.mix(*b as u64 + 1); } }
    pub fn nontrivial(&mut self) { self.nontrivial = true; }
    pub fn n(&mut self, max: usize) -> usize { let m = (max * self.size + 99) / 100; self.rng.below(m + 1) }
    /// an empty directory of this case
    pub fn fresh_dir(&mut self, name: &str) -> PathBuf {
        let p = self.dir.join(name);
        let _ = std::fs::remove_dir_all(&p);
        std::fs::create_dir_all(&p).unwrap();
        p
    }
}
pub type CaseFn = fn(&mut Case) -> Result<(), String>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } }
}

pub fn panic_text(e: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<String>() { s.clone() }
    else if let Some(s) = e.downcast_ref::<&str>() { s.to_string() } else { "panic".to_string() }
}
/// Runs code under test; a panic becomes an error text.
pub fn guard<T, F: FnOnce() -> T>(what: &str, f: F) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| format!("{} panicked: {}", what, panic_text(e)))
}

pub struct Opts { pub seed: u64, pub cases: u64, pub secs: f64, pub threads: usize, pub scratch: PathBuf, pub only: Option<(u64, usize)> }

fn one(f: CaseFn, seed: u64, index: u64, size: usize, dir: &Path, trace: bool) -> (Result<(), String>, Case) {
    let mut h = Rng::new(seed.wrapping_mul(0x51_7C_C1_B7_27_22_0A_95).wrapping_add(index));
    let mut c = Case { rng: Rng::new(h.u64()), index, size, dir: dir.to_path_buf(), trace, log: String::new(), digest: 14695981039346656037, nontrivial: false };
    let r = catch_unwind(AssertUnwindSafe(|| f(&mut c))).unwrap_or_else(|e| Err(format!("panicked: {}", panic_text(e))));
    (r, c)
}
pub fn esc(s: &str) -> String {
    let mut r = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => r.push_str("\\\""), '\\' => r.push_str("\\\\"), '\n' => r.push_str("\\n"),
            c if (c as u32) < 32 || c as u32 == 127 || (c as u32) > 0xffff => r.push_str(&format!("\\u{:04x}", (c as u32) & 0xffff)),
            c => r.push(c),
        }
    }
    r.push('"');
    r
}
fn size_of(index: u64) -> usize { [8, 20, 45, 100][(index % 4) as usize] }

/// Runs the cases and prints one JSON line with the result. Returns the exit code.
pub fn run(f: CaseFn, o: &Opts, rule: &str) -> i32 {
    let quiet = std::env::var("NATIVE_PANICS").is_err();
    if quiet { std::panic::set_hook(Box::new(|_| {})); }
    let start = Instant::now();
    if let Some((i, size)) = o.only {
        let d = o.scratch.join("t0");
        std::fs::create_dir_all(&d).unwrap();
        let (r, c) = one(f, o.seed, i, size, &d, true);
        println!("{}", c.log);
        return match r { Ok(()) => { println!("case {} size {} holds", i, size); 0 } Err(e) => { println!("FAILS: {}", e); 1 } };
    }
    struct Shared { next: AtomicU64, fail: Mutex<Option<(u64, String)>>, digests: Mutex<HashSet<u64>>, done: AtomicU64 }
    let sh = Arc::new(Shared { next: AtomicU64::new(0), fail: Mutex::new(None), digests: Mutex::new(HashSet::new()), done: AtomicU64::new(0) });
    let limit = Duration::from_secs_f64(o.secs);
    let mut handles = vec![];
    for t in 0..o.threads {
        let (sh, scratch, seed, cases) = (sh.clone(), o.scratch.clone(), o.seed, o.cases);
        handles.push(std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
            let d = scratch.join(format!("t{}", t));
            std::fs::create_dir_all(&d).unwrap();
            // names the running case, so that an abort can be attributed
            let mark = std::fs::OpenOptions::new().create(true).write(true).open(scratch.join(format!("mark{}", t))).unwrap();
            let mut local = HashSet::new();
            loop {
                if start.elapsed() > limit || sh.fail.lock().unwrap().is_some() { break; }
                let i = sh.next.fetch_add(1, Ordering::SeqCst);
                if i >= cases { break; }
                let _ = mark.write_all_at(format!("{:020}\n", i).as_bytes(), 0);
                let (r, c) = one(f, seed, i, size_of(i), &d, false);
                sh.done.fetch_add(1, Ordering::SeqCst);
                if c.nontrivial { local.insert(c.digest); }
                if let Err(e) = r {
                    let mut g = sh.fail.lock().unwrap();
                    if g.as_ref().map_or(true, |(j, _)| i < *j) { *g = Some((i, e)); }
                }
            }
            let _ = mark.write_all_at(b"-                   \n", 0);
            sh.digests.lock().unwrap().extend(local);
        }).unwrap());
    }
    for h in handles { let _ = h.join(); }
    let d = o.scratch.join("t0");
    let mut samples = vec![];
    for i in 0..3u64 {
        let i = if i == 2 { 7 } else { i };
        if i < o.cases {
            let (_, c) = one(f, o.seed, i, size_of(i).min(20), &d, true);
            samples.push(c.log.chars().take(700).collect::<String>());
        }
    }
    let failure = sh.fail.lock().unwrap().take();
    let mut extra = String::from("null");
    if let Some((i, e)) = failure {
        let (mut bi, mut bs, mut be) = (i, size_of(i), e);
        // smaller structures from the same seed, then smaller neighbouring cases
        let t = Instant::now();
        'o: for s in [1usize, 2, 4, 8, 12, 20, 30, 45] {
            if s >= bs { break; }
            for j in 0..40u64 {
                if t.elapsed() > Duration::from_secs(20) { break 'o; }
                let k = if j == 0 { i } else { i.wrapping_add(j * 4) };
                let (r, _) = one(f, o.seed, k, s, &d, false);
                if let Err(e) = r { bi = k; bs = s; be = e; break 'o; }
            }
        }
        let (_, c) = one(f, o.seed, bi, bs, &d, true);
        extra = format!("{{\"index\":{},\"size\":{},\"error\":{},\"log\":{}}}", bi, bs, esc(&be), esc(&c.log));
    }
    let mut out = std::io::stdout();
    let _ = writeln!(out, "{{\"evaluations\":{},\"distinct_nontrivial\":{},\"rule\":{},\"samples\":[{}],\"wall_s\":{:.2},\"failure\":{}}}",
        sh.done.load(Ordering::SeqCst), sh.digests.lock().unwrap().len(), esc(rule),
        samples.iter().map(|s| esc(s)).collect::<Vec<_>>().join(","), start.elapsed().as_secs_f64(), extra);
    if extra == "null" { 0 } else { 1 }
}
