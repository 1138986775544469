use std::collections::HashSet;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::Relaxed};
use std::time::{Duration, Instant};

/// Ok(true): the contract held on a non-trivial case; Ok(false): the case did not get past the precondition
pub type Res = Result<bool, String>;

#[derive(Clone, Debug, Default)]
pub struct Case { pub prop: String, pub op: String, pub n: Vec<i64>, pub d: Vec<Vec<u8>>, pub s: Vec<String> }

pub fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{x:02x}")).collect() }
pub fn unhex(s: &str) -> Vec<u8> { (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect() }

impl Case {
    pub fn new(prop: &str, op: &str) -> Case { Case { prop: prop.into(), op: op.into(), ..Default::default() } }
    pub fn data(mut self, b: &[u8]) -> Case { self.d.push(b.to_vec()); self }
    pub fn num(mut self, x: i64) -> Case { self.n.push(x); self }
    pub fn st(mut self, x: &str) -> Case { self.s.push(x.into()); self }
    pub fn encode(&self) -> String {
        let mut o = format!("property {}\nop {}\n", self.prop, self.op);
        for x in &self.n { o += &format!("num {x}\n"); }
        for x in &self.d { o += &format!("hex {}\n", hex(x)); }
        for x in &self.s { o += &format!("str {}\n", hex(x.as_bytes())); }
        o
    }
    pub fn encode_with(&self, why: &str) -> String { format!("# {}\n{}", why.replace('\n', " "), self.encode()) }
    pub fn decode(t: &str) -> Case {
        let mut c = Case::default();
        for l in t.lines() {
            let (k, v) = l.split_once(' ').unwrap_or((l, ""));
            match k {
                "property" => c.prop = v.into(), "op" => c.op = v.into(),
                "num" => c.n.push(v.parse().unwrap()), "hex" => c.d.push(unhex(v)),
                "str" => c.s.push(String::from_utf8(unhex(v)).unwrap()), _ => {}
            }
        }
        c
    }
    pub fn short(&self) -> String {
        let d: Vec<String> = self.d.iter().map(|x| if x.len() > 48 { format!("{}..({} bytes)", hex(&x[..48]), x.len()) } else { hex(x) }).collect();
        let s: Vec<String> = self.s.iter().map(|x| x.chars().take(120).collect()).collect();
        format!("{} {} num={:?} data={:?} str={:?}", self.prop, self.op, self.n, d, s)
    }
    /// the identity used by the known-findings file
    pub fn key(&self) -> String {
        let mut h: u64 = 0xcbf29ce484222325;
        for b in self.encode().bytes() { h = (h ^ b as u64).wrapping_mul(0x100000001b3); }
        format!("{}:{:016x}", self.op, h)
    }
}

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 { self.0 ^= self.0 << 13; self.0 ^= self.0 >> 7; self.0 ^= self.0 << 17; self.0.wrapping_mul(0x2545F4914F6CDD1D) }
    pub fn below(&mut self, n: usize) -> usize { if n == 0 { 0 } else { ((self.next() >> 20) % n as u64) as usize } }
    pub fn u8(&mut self) -> u8 { (self.next() >> 33) as u8 }
    pub fn chance(&mut self, num: usize, den: usize) -> bool { self.below(den) < num }
    pub fn pick<'a, T>(&mut self, s: &'a [T]) -> &'a T { let i = self.below(s.len()); &s[i] }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> { (0..n).map(|_| self.u8()).collect() }
}

/// `finding <PROP> <regex-free substring of the failure message> | description` lines of known_findings.txt
pub fn known_findings(prop: &str) -> Vec<(String, String)> {
    let p = std::env::var("VP_KNOWN").unwrap_or_default();
    let mut v = vec![];
    if let Ok(t) = std::fs::read_to_string(p) {
        for l in t.lines() {
            if let Some(r) = l.strip_prefix("finding: property=") {
                let (id, rest) = r.split_once(' ').unwrap_or((r, ""));
                if id == prop {
                    if let Some((sig, what)) = rest.split_once(" | ") { v.push((sig.trim().to_string(), what.trim().to_string())); }
                }
            }
        }
    }
    v
}

pub struct Search {
    pub rng: Rng, pub start: Instant, pub budget: Duration,
    pub cases: u64, pub nontrivial: u64, pub distinct: HashSet<u64>, pub samples: Vec<String>,
    pub failure: Option<(Case, String)>, pub known: Vec<(String, String)>, pub known_seen: Vec<String>, pub notes: Vec<String>,
    run: Box<dyn Fn(&Case) -> Res + Send>,
}
impl Search {
    pub fn new(seed: u64, budget: Duration, run: Box<dyn Fn(&Case) -> Res + Send>, known: Vec<(String, String)>) -> Search {
        Search { rng: Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) | 1), start: Instant::now(), budget, cases: 0, nontrivial: 0, distinct: HashSet::new(),
            samples: vec![], failure: None, known, known_seen: vec![], notes: vec![], run }
    }
    /// false: stop generating (a failure was found)
    pub fn case(&mut self, c: Case) -> bool {
        if self.failure.is_some() { return false; }
        self.cases += 1;
        match (self.run)(&c) {
            Ok(nt) => {
                if nt {
                    self.nontrivial += 1;
                    if self.distinct.len() < 2_000_000 {
                        let mut h: u64 = 0xcbf29ce484222325;
                        for b in c.op.bytes().chain(c.d.iter().flatten().copied()).chain(c.n.iter().flat_map(|x| x.to_le_bytes())).chain(c.s.iter().flat_map(|x| x.bytes())) { h = (h ^ b as u64).wrapping_mul(0x100000001b3); }
                        self.distinct.insert(h);
                    }
                    if self.samples.len() < 3 || (self.samples.len() < 6 && self.cases % 997 == 0) { self.samples.push(c.short()); }
                }
                true
            }
            Err(m) => {
                let line = format!("{} {}", c.op, m);
                for (sig, what) in &self.known {
                    if line.contains(sig.as_str()) {
                        if !self.known_seen.contains(what) { self.known_seen.push(what.clone()); }
                        return true;
                    }
                }
                self.failure = Some((c, m));
                false
            }
        }
    }
    pub fn more(&self) -> bool { self.failure.is_none() && self.start.elapsed() < self.budget }
}

pub fn diff(what: &str, want: &[u8], got: &[u8]) -> Result<(), String> {
    if want == got { return Ok(()); }
    let i = want.iter().zip(got).position(|(a, b)| a != b).unwrap_or(want.len().min(got.len()));
    Err(format!("{what}: expected {} bytes, got {} bytes, first difference at {} (expected {}, got {})", want.len(), got.len(), i,
        hex(&want[i..want.len().min(i + 12)]), hex(&got[i..got.len().min(i + 12)])))
}

/// the EXIF encoding of the metadata (TIFF header and directories)
pub fn encoding(m: &little_exif::metadata::Metadata) -> Result<Vec<u8>, String> {
    m.encode().map_err(|e| format!("encode failed: {e}"))
}

/// an allocator that remembers the largest request while watched
pub struct Watched;
static ON: AtomicBool = AtomicBool::new(false);
static MAX: AtomicUsize = AtomicUsize::new(0);
unsafe impl std::alloc::GlobalAlloc for Watched {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 { if ON.load(Relaxed) { MAX.fetch_max(l.size(), Relaxed); } std::alloc::System.alloc(l) }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 { if ON.load(Relaxed) { MAX.fetch_max(l.size(), Relaxed); } std::alloc::System.alloc_zeroed(l) }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 { if ON.load(Relaxed) { MAX.fetch_max(n, Relaxed); } std::alloc::System.realloc(p, l, n) }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) { std::alloc::System.dealloc(p, l) }
}
pub fn largest_allocation<T>(f: impl FnOnce() -> T) -> (T, usize) { MAX.store(0, Relaxed); ON.store(true, Relaxed); let r = f(); ON.store(false, Relaxed); (r, MAX.load(Relaxed)) }
