use dxf::*;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::io::Cursor;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq)]
pub enum Tier { Quick, Search, Thorough }

pub struct Ctx {
    pub tier: Tier,
    pub seed: u64,
    pub cases: AtomicU64,
    pub distinct: Mutex<HashSet<u64>>,
    pub violations: Mutex<Vec<(String, String, String)>>,
    pub samples: Mutex<Vec<String>>,
    pub bound: Mutex<String>,
    pub start: Instant,
    pub current_file: String,
}
impl Ctx {
    pub fn scale(&self, quick: usize, thorough: usize) -> usize {
        match self.tier { Tier::Quick => quick, Tier::Search => (quick * 3).min(thorough), Tier::Thorough => thorough }
    }
    /// one evaluated case; `repr` identifies it
    pub fn case<H: Hash + ?Sized>(&self, id: &H) {
        self.cases.fetch_add(1, Ordering::Relaxed);
        let mut h = std::collections::hash_map::DefaultHasher::new();
        id.hash(&mut h);
        let mut d = self.distinct.lock().unwrap();
        if d.len() < 2_000_000 { d.insert(h.finish()); }
    }
    pub fn sample(&self, s: impl FnOnce() -> String) {
        let mut v = self.samples.lock().unwrap();
        if v.len() < 5 { v.push(s()); }
    }
    pub fn bound(&self, s: &str) { let mut b = self.bound.lock().unwrap(); if !b.is_empty() { b.push_str(" | "); } b.push_str(s); }
    pub fn fail(&self, key: impl Into<String>, input: impl Into<String>, message: impl Into<String>) {
        let (key, input, message) = (key.into(), input.into(), message.into());
        let mut v = self.violations.lock().unwrap();
        if v.iter().any(|x| x.0 == key) || v.len() >= 400 { return; }
        v.push((key, input, message));
    }
    pub fn check(&self, ok: bool, key: impl Into<String>, input: impl Into<String>, message: impl Into<String>) {
        if !ok { self.fail(key, input, message) }
    }
    /// record the case about to run, so that an abort or hang can be attributed
    pub fn current(&self, s: &[u8]) { let _ = std::fs::write(&self.current_file, s); }
}

pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Self { Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03) }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize { (self.next() % n.max(1) as u64) as usize }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { let i = self.below(v.len()); &v[i] }
    pub fn bool(&mut self) -> bool { self.next() & 1 == 1 }
    pub fn i16(&mut self) -> i16 { match self.below(4) { 0 => *self.pick(&[0, 1, -1, i16::MIN, i16::MAX, 255, 256, -128]), 1 => self.below(400) as i16, _ => self.next() as i16 } }
    pub fn i32(&mut self) -> i32 { match self.below(4) { 0 => *self.pick(&[0, 1, -1, i32::MIN, i32::MAX, 65535, 65536, -32769]), 1 => self.below(400) as i32, _ => self.next() as i32 } }
    pub fn i64(&mut self) -> i64 { match self.below(4) { 0 => *self.pick(&[0, 1, -1, i64::MIN, i64::MAX, 4294967296]), 1 => self.below(400) as i64, _ => self.next() as i64 } }
    pub fn f64_exact(&mut self) -> f64 {
        // few decimals: survives 12-decimal text exactly
        match self.below(6) { 0 => 0.0, 1 => 1.0, 2 => -1.0, 3 => (self.next() as i32) as f64 / 1024.0, 4 => (self.next() as i16) as f64, _ => (self.next() as i16) as f64 / 8.0 }
    }
    pub fn ch(&mut self) -> char {
        match self.below(12) {
            0 => '^', 1 => '\\', 2 => char::from_u32(self.below(32) as u32).unwrap(),
            3 => *self.pick(&['U', '+', '0', '1', 'A', 'F', 'a', 'f', '5', 'C', 'E', 'D', '8']),
            4 => *self.pick(&[' ', '@', '[', ']', '_', '?', '~', '\u{7f}', '"', '{', '}', '%', ';']),
            5 => *self.pick(&['\u{80}', '\u{a0}', '\u{ff}', '\u{100}', '\u{7ff}', '\u{800}', '\u{d7ff}', '\u{e000}', '\u{feff}', '\u{ffff}', '\u{10000}', '\u{1f600}', '\u{10ffff}', '\u{2028}', '\u{85}', '\u{fffd}', '\u{fffe}']),
            6 => loop { if let Some(c) = char::from_u32((self.next() % 0x110000) as u32) { break c } },
            7 => loop { if let Some(c) = char::from_u32((self.next() % 0x3000) as u32) { break c } },
            _ => char::from_u32(32 + self.below(95) as u32).unwrap(),
        }
    }
    pub fn string(&mut self, max: usize) -> String { let n = self.below(max + 1); let mut s = String::new(); for _ in 0..n { if self.below(12) == 0 { s.push_str(self.pick(&["\\U+0041", "U+0041", "\u{1c}U+00E9", "^\\U+004a", "\\U+D83D\\U+DE00", "^J", "\r\n", "^M^J", "\u{1e} "])) } else { s.push(self.ch()) } } s }
}

/// runs `f(i)` for i in 0..n on all cores
pub fn par(n: usize, f: impl Fn(usize) + Sync) {
    let next = AtomicUsize::new(0);
    std::thread::scope(|s| {
        for _ in 0..8 {
            let (f, next) = (&f, &next);
            std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, move || loop {
                let i = next.fetch_add(1, Ordering::Relaxed);
                if i >= n { break }
                f(i);
            }).unwrap();
        }
    });
}

pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        let m = if let Some(s) = e.downcast_ref::<&str>() { s.to_string() } else if let Some(s) = e.downcast_ref::<String>() { s.clone() } else { "?".into() };
        format!("PANIC: {m}")
    })
}

pub fn save(d: &Drawing, bin: bool) -> Result<Vec<u8>, String> {
    guard(|| {
        let mut buf = Cursor::new(Vec::new());
        (if bin { d.save_binary(&mut buf) } else { d.save(&mut buf) }).map_err(|e| format!("save: {e}"))?;
        Ok(buf.into_inner())
    })?
}
pub fn load(b: &[u8]) -> Result<Drawing, String> {
    guard(|| Drawing::load(&mut Cursor::new(b)).map_err(|e| format!("load: {e}")))?
}
pub fn round_trip(d: &Drawing, bin: bool) -> Result<Drawing, String> { load(&save(d, bin)?) }

pub fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{x:02x}")).collect() }
pub fn show(b: &[u8]) -> String { String::from_utf8_lossy(b).chars().take(4000).collect() }

pub use dxf::enums::AcadVersion;
/// every version that can be written and is identified in the file
pub const VERS: &[AcadVersion] = &[AcadVersion::R10, AcadVersion::R11, AcadVersion::R12, AcadVersion::R13, AcadVersion::R14, AcadVersion::R2000, AcadVersion::R2004, AcadVersion::R2007, AcadVersion::R2010, AcadVersion::R2013, AcadVersion::R2018];

pub fn elapsed_over(c: &Ctx, quick: u64, thorough: u64) -> bool {
    let lim = match c.tier { Tier::Quick => quick, Tier::Search => quick * 2, Tier::Thorough => thorough };
    c.start.elapsed() > Duration::from_secs(lim)
}
