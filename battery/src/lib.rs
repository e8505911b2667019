//! Concrete battery: runs the real code on systematically chosen and seeded inputs and compares with
//! oracles written from the published formats.  It is bounded; the proofs are what covers all inputs.
use std::collections::{BTreeMap, HashSet};
use std::io::{self, Read, Seek, SeekFrom, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub mod orc;

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize { if n == 0 { 0 } else { (self.next() % n as u64) as usize } }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = Vec::with_capacity(n + 8);
        while v.len() < n { v.extend_from_slice(&self.next().to_le_bytes()); }
        v.truncate(n);
        v
    }
    pub fn arr<const N: usize>(&mut self) -> [u8; N] { let b = self.bytes(N); let mut a = [0u8; N]; a.copy_from_slice(&b); a }
    pub fn pick<'a, T>(&mut self, s: &'a [T]) -> &'a T { let i = self.below(s.len()); &s[i] }
}

pub type R = Result<(), String>;
#[macro_export]
macro_rules! ck { ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } } }

pub struct Fail { pub test: String, pub input: String, pub detail: String }
pub struct Ctx {
    pub rng: Rng, pub seed: u64, pub thorough: bool, pub only: Option<String>,
    pub counts: BTreeMap<String, u64>, pub distinct: HashSet<String>, pub fails: Vec<Fail>, pub samples: Vec<String>,
    pub scratch: std::path::PathBuf, pub cli: Option<String>,
    pub jobs: Vec<(String, String, Box<dyn FnOnce() -> R + Send>)>,
}
pub fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{:02x}", x)).collect() }
pub fn short(b: &[u8]) -> String { if b.len() <= 48 { hex(b) } else { format!("{}..({} bytes, blake3 {})", hex(&b[..24]), b.len(), &blake3::hash(b).to_hex()[..16]) } }
fn run(f: impl FnOnce() -> R) -> Option<String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => r.err(),
        Err(p) => Some(format!("panicked: {}", p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default())),
    }
}
impl Ctx {
    /// one concrete case
    pub fn case(&mut self, test: &str, input: &str, f: impl FnOnce() -> R) -> bool {
        if let Some(o) = &self.only { if o != test { return true; } }
        if self.fails.iter().filter(|x| x.test == test).count() >= 3 { return false; }
        *self.counts.entry(test.to_string()).or_insert(0) += 1;
        if self.distinct.insert(format!("{} {}", test, input)) && self.counts[test] <= 2 { self.samples.push(format!("{}: {}", test, input)); }
        match run(f) { None => true, Some(e) => { self.fails.push(Fail { test: test.into(), input: input.into(), detail: e }); false } }
    }
    /// a case to be run later, alongside others
    pub fn later(&mut self, test: &str, input: &str, f: impl FnOnce() -> R + Send + 'static) {
        if !self.want(test) { return; }
        *self.counts.entry(test.to_string()).or_insert(0) += 1;
        if self.distinct.insert(format!("{} {}", test, input)) && self.counts[test] <= 2 { self.samples.push(format!("{}: {}", test, input)); }
        self.jobs.push((test.into(), input.into(), Box::new(f)));
    }
    pub fn join(&mut self) {
        let q = std::sync::Mutex::new(std::mem::take(&mut self.jobs).into_iter().collect::<std::collections::VecDeque<_>>());
        let out = std::sync::Mutex::new(Vec::new());
        std::thread::scope(|s| for _ in 0..8 { s.spawn(|| loop {
            let Some((t, i, f)) = q.lock().unwrap().pop_front() else { break };
            if let Some(e) = run(f) { out.lock().unwrap().push(Fail { test: t, input: i, detail: e }); }
        }); });
        let mut v = out.into_inner().unwrap(); v.sort_by(|a, b| (&a.test, &a.input).cmp(&(&b.test, &b.input)));
        for f in v { if self.fails.iter().filter(|x| x.test == f.test).count() < 3 { self.fails.push(f); } }
    }
    pub fn want(&self, test: &str) -> bool { self.only.as_deref().map_or(true, |o| o == test) }
    /// a new empty directory under a name not used before: threads the code under test has left behind can go on working in the one of the case before
    pub fn dir(&self, name: &str) -> std::path::PathBuf {
        static N: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
        let n = N.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        if let Ok(es) = std::fs::read_dir(&self.scratch) { for e in es.flatten() { let f = e.file_name().to_string_lossy().into_owned(); if f.strip_prefix(name).and_then(|r| r.strip_prefix("--")).map_or(false, |r| r.parse::<usize>().is_ok()) { let _ = std::fs::remove_dir_all(e.path()); } } }
        let d = self.scratch.join(format!("{}--{}", name, n)); std::fs::create_dir_all(&d).unwrap(); d
    }
}
fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 || c as u32 == 127 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) } }
    o.push('"'); o
}
pub fn main_with(table: &[(&str, fn(&mut Ctx))]) {
    let a: Vec<String> = std::env::args().collect();
    let get = |n: &str| a.iter().position(|x| x == n).and_then(|i| a.get(i + 1).cloned());
    let prop = a[1].clone();
    let seed = get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1u64);
    let out = get("--out").expect("--out");
    let mut c = Ctx { rng: Rng(seed.wrapping_mul(0x5851_F42D_4C95_7F2D)), seed, thorough: get("--tier").as_deref() == Some("thorough"), only: get("--only"),
        counts: BTreeMap::new(), distinct: HashSet::new(), fails: vec![], samples: vec![],
        scratch: get("--scratch").unwrap_or("/tmp/battery-scratch".into()).into(), cli: get("--cli"), jobs: vec![] };
    std::panic::set_hook(Box::new(|_| {}));
    let f = table.iter().find(|t| t.0 == prop).expect("unknown property").1;
    let r = catch_unwind(AssertUnwindSafe(|| { f(&mut c); c.join(); }));
    let crashed = r.err().map(|p| p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default());
    let mut s = String::from("{\n");
    s.push_str(&format!("\"crashed\": {},\n", crashed.as_deref().map_or("null".into(), js)));
    s.push_str(&format!("\"counts\": {{{}}},\n", c.counts.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect::<Vec<_>>().join(", ")));
    s.push_str(&format!("\"distinct\": {},\n", c.distinct.len()));
    s.push_str(&format!("\"samples\": [{}],\n", c.samples.iter().take(12).map(|x| js(x)).collect::<Vec<_>>().join(", ")));
    s.push_str(&format!("\"failures\": [{}]\n}}\n", c.fails.iter().map(|f| format!("{{\"test\": {}, \"input\": {}, \"detail\": {}}}", js(&f.test), js(&f.input), js(&f.detail))).collect::<Vec<_>>().join(",\n")));
    std::fs::write(&out, s).unwrap();
    std::process::exit(if c.fails.is_empty() { 0 } else { 1 });
}

// ------------------------------------------------------------------ a byte stream with a will of its own
#[derive(Clone, Debug, PartialEq)]
pub enum Op { Read(u64, usize), Write(u64, Vec<u8>), Flush, Seek(u64) }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Chunk { Full, One, Max(usize), Rand(u64) }
#[derive(Clone)]
pub struct Sim {
    pub data: Vec<u8>, pub pos: u64, pub log: Vec<Op>, pub rchunk: Chunk, pub wchunk: Chunk, pub rng: Rng,
    /// fail the n-th call (0-based) of this kind
    pub fail_read: Option<usize>, pub fail_write: Option<usize>, pub fail_seek: Option<usize>, pub fail_flush: Option<usize>,
    pub reads: usize, pub writes: usize, pub seeks: usize, pub flushes: usize, pub keep: bool,
}
impl Sim {
    pub fn new(data: Vec<u8>) -> Self { Sim { data, pos: 0, log: vec![], rchunk: Chunk::Full, wchunk: Chunk::Full, rng: Rng(7), fail_read: None, fail_write: None, fail_seek: None, fail_flush: None, reads: 0, writes: 0, seeks: 0, flushes: 0, keep: true } }
    pub fn at(mut self, p: u64) -> Self { self.pos = p; self }
    pub fn r(mut self, c: Chunk) -> Self { self.rchunk = c; self }
    pub fn w(mut self, c: Chunk) -> Self { self.wchunk = c; self }
    fn cap(c: Chunk, rng: &mut Rng, n: usize) -> usize {
        if n == 0 { return 0; }
        match c { Chunk::Full => n, Chunk::One => 1, Chunk::Max(m) => n.min(m.max(1)), Chunk::Rand(m) => 1 + rng.below(n.min(m as usize)) }
    }
    pub fn written(&self) -> Vec<(u64, Vec<u8>)> { self.log.iter().filter_map(|o| if let Op::Write(p, b) = o { Some((*p, b.clone())) } else { None }).collect() }
    pub fn flushed_last(&self) -> bool { matches!(self.log.iter().rev().find(|o| matches!(o, Op::Write(..) | Op::Flush)), Some(Op::Flush)) }
}
fn boom() -> io::Error { io::Error::new(io::ErrorKind::Other, "injected fault") }
impl Read for Sim {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let n = self.reads; self.reads += 1;
        if self.fail_read == Some(n) { return Err(boom()); }
        let left = (self.data.len() as u64).saturating_sub(self.pos) as usize;
        let want = buf.len().min(left);
        let k = Self::cap(self.rchunk, &mut self.rng, want);
        if k > 0 { let p = self.pos as usize; buf[..k].copy_from_slice(&self.data[p..p + k]); }
        if self.keep { self.log.push(Op::Read(self.pos, k)); }
        self.pos += k as u64;
        Ok(k)
    }
}
impl Write for Sim {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let n = self.writes; self.writes += 1;
        if self.fail_write == Some(n) { return Err(boom()); }
        let k = Self::cap(self.wchunk, &mut self.rng, buf.len());
        let p = self.pos as usize;
        if k > 0 { if self.data.len() < p + k { self.data.resize(p + k, 0); } self.data[p..p + k].copy_from_slice(&buf[..k]); }
        if self.keep { self.log.push(Op::Write(self.pos, buf[..k].to_vec())); }
        self.pos += k as u64;
        Ok(k)
    }
    fn flush(&mut self) -> io::Result<()> {
        let n = self.flushes; self.flushes += 1;
        if self.fail_flush == Some(n) { return Err(boom()); }
        if self.keep { self.log.push(Op::Flush); }
        Ok(())
    }
}
impl Seek for Sim {
    fn seek(&mut self, s: SeekFrom) -> io::Result<u64> {
        let n = self.seeks; self.seeks += 1;
        if self.fail_seek == Some(n) { return Err(boom()); }
        let t = match s { SeekFrom::Start(x) => x as i128, SeekFrom::End(x) => self.data.len() as i128 + x as i128, SeekFrom::Current(x) => self.pos as i128 + x as i128 };
        if t < 0 { return Err(io::Error::new(io::ErrorKind::InvalidInput, "negative")); }
        self.pos = t as u64;
        if self.keep { self.log.push(Op::Seek(self.pos)); }
        Ok(self.pos)
    }
}
