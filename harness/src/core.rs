//! Driver/worker infrastructure: deterministic per-case RNG, panic capture, process isolation,
//! CPU watchdog, evidence writing.
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::sync::Mutex;
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

#[derive(Clone)]
pub struct Rng(u64, u64);

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut s = seed;
        let a = splitmix(&mut s);
        let b = splitmix(&mut s);
        Rng(a, b | 1)
    }
    pub fn u64(&mut self) -> u64 {
        // xoroshiro128+
        let s0 = self.0;
        let mut s1 = self.1;
        let r = s0.wrapping_add(s1);
        s1 ^= s0;
        self.0 = s0.rotate_left(24) ^ s1 ^ (s1 << 16);
        self.1 = s1.rotate_left(37);
        r
    }
    /// uniform in [0, n)
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 { return 0; }
        ((self.u64() >> 11) % n as u64) as usize
    }
    /// inclusive
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        if hi <= lo { return lo; }
        lo + ((self.u64() >> 11) % ((hi - lo + 1) as u64)) as i64
    }
    pub fn i32(&mut self, lo: i32, hi: i32) -> i32 { self.range(lo as i64, hi as i64) as i32 }
    pub fn chance(&mut self, num: u32, den: u32) -> bool { self.below(den as usize) < num as usize }
    pub fn bool(&mut self) -> bool { self.u64() & (1 << 33) != 0 }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T { &xs[self.below(xs.len())] }
    pub fn f(&mut self) -> f64 { (self.u64() >> 11) as f64 / (1u64 << 53) as f64 }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            let j = self.below(i + 1);
            xs.swap(i, j);
        }
    }
}

pub fn hash<T: std::hash::Hash>(t: &T) -> u64 {
    // FNV-1a based stable hasher
    struct F(u64);
    impl std::hash::Hasher for F {
        fn finish(&self) -> u64 { let mut x = self.0; splitmix(&mut x) }
        fn write(&mut self, b: &[u8]) {
            for &c in b { self.0 = (self.0 ^ c as u64).wrapping_mul(0x100000001b3); }
        }
    }
    let mut h = F(0xcbf29ce484222325);
    t.hash(&mut h);
    std::hash::Hasher::finish(&h)
}

#[derive(Default)]
pub struct Obs {
    pub counters: BTreeMap<String, u64>,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub evals: u64,
    pub known: BTreeMap<String, u64>,
}

pub struct Cx<'a> {
    pub r: Rng,
    pub case: u64,
    pub seed: u64,
    pub thorough: bool,
    pub obs: &'a mut Obs,
    pub trace: Vec<String>,
}

pub type R = Result<(), String>;

impl<'a> Cx<'a> {
    /// count an observed event class
    pub fn count(&mut self, key: &str) { self.add(key, 1) }
    pub fn add(&mut self, key: &str, n: u64) {
        if let Some(v) = self.obs.counters.get_mut(key) { *v += n; } else { self.obs.counters.insert(key.to_string(), n); }
    }
    /// register a distinct non-trivial observation
    pub fn distinct<T: std::hash::Hash>(&mut self, t: &T) {
        if self.obs.distinct.len() < 4_000_000 { self.obs.distinct.insert(hash(t)); }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.obs.samples.len() < 2 { let s = f(); self.obs.samples.push(s.chars().take(600).collect()); }
    }
    pub fn t(&mut self, s: impl Into<String>) { self.trace.push(s.into()); }
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } };
}
#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($f:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if !(a == b) { return Err(format!("{}: got {:?}, expected {:?}", format!($($f)*), a, b)); }
    }};
}

pub struct Prop {
    pub id: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub run: fn(&mut Cx) -> R,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    /// fewest distinct observations below which the run is considered vacuous
    pub workers: usize,
}

static PANIC_MSG: Mutex<Option<String>> = Mutex::new(None);

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let m = if let Some(s) = info.payload().downcast_ref::<&str>() { s.to_string() }
            else if let Some(s) = info.payload().downcast_ref::<String>() { s.clone() } else { "?".into() };
        let l = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let mut g = PANIC_MSG.lock().unwrap_or_else(|e| e.into_inner());
        if g.is_none() { *g = Some(format!("panic at {l}: {m}")); }
    }));
}
pub fn take_panic() -> Option<String> { PANIC_MSG.lock().unwrap_or_else(|e| e.into_inner()).take() }

/// Run code under test, turning a panic into Err(message).
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let _ = take_panic();
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(take_panic().unwrap_or_else(|| "panic".into())),
    }
}

pub fn run_case(p: &Prop, seed: u64, case: u64, thorough: bool, obs: &mut Obs) -> Result<(), (String, Vec<String>)> {
    let r = Rng::new(hash(&(p.id, seed, case)));
    let mut cx = Cx { r, case, seed, thorough, obs, trace: Vec::new() };
    cx.obs.evals += 1;
    let res = {
        let cxr = &mut cx;
        guard(move || (p.run)(cxr))
    };
    let trace = std::mem::take(&mut cx.trace);
    match res {
        Ok(Ok(())) => Ok(()),
        Ok(Err(m)) => Err((m, trace)),
        Err(m) => Err((m, trace)),
    }
}

struct Shm { ptr: *mut AtomicU64 }
impl Shm {
    fn open(path: &str) -> Shm {
        use std::os::fd::AsRawFd;
        let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(path).unwrap();
        f.set_len(4096).unwrap();
        let p = unsafe { libc::mmap(std::ptr::null_mut(), 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0) };
        assert!(p != libc::MAP_FAILED);
        Shm { ptr: p as *mut AtomicU64 }
    }
    fn get(&self, i: usize) -> u64 { unsafe { (*self.ptr.add(i)).load(Ordering::SeqCst) } }
    fn set(&self, i: usize, v: u64) { unsafe { (*self.ptr.add(i)).store(v, Ordering::SeqCst) } }
}

pub fn env_seed() -> u64 { std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1) }
pub fn env_thorough() -> bool { std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false) }

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn hexs(s: &str) -> String { s.bytes().map(|b| format!("{b:02x}")).collect() }
fn unhexs(s: &str) -> String {
    let b: Vec<u8> = (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap_or(b'?')).collect();
    String::from_utf8_lossy(&b).into_owned()
}

pub fn worker(p: &Prop, wid: usize, n: usize, shm: &str, out: &str, total: u64, deadline_s: u64) -> i32 {
    install_hook();
    unsafe {
        let lim = libc::rlimit { rlim_cur: 12 << 30, rlim_max: 12 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &lim);
        let z = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &z);
    }
    let s = Shm::open(shm);
    let (seed, thorough) = (env_seed(), env_thorough());
    let mut obs = Obs::default();
    let t0 = Instant::now();
    let mut fail = None;
    let mut case = wid as u64;
    let mut capped = false;
    while case < total {
        s.set(0, case + 1);
        s.set(1, s.get(1) + 1);
        if let Err((m, tr)) = run_case(p, seed, case, thorough, &mut obs) {
            fail = Some((case, m, tr));
            break;
        }
        case += n as u64;
        if t0.elapsed() > Duration::from_secs(deadline_s) { capped = case < total; break; }
    }
    s.set(0, 0);
    let mut f = std::io::BufWriter::new(std::fs::File::create(out).unwrap());
    writeln!(f, "E {}", obs.evals).unwrap();
    if capped { writeln!(f, "T 1").unwrap(); }
    for (k, v) in &obs.counters { writeln!(f, "C {} {}", v, hexs(k)).unwrap(); }
    for (k, v) in &obs.known { writeln!(f, "K {} {}", v, hexs(k)).unwrap(); }
    for d in &obs.distinct { writeln!(f, "D {d:x}").unwrap(); }
    for x in &obs.samples { writeln!(f, "S {}", hexs(x)).unwrap(); }
    if let Some((c, m, tr)) = fail {
        writeln!(f, "F {} {} {}", c, hexs(&m), hexs(&tr.join("\n"))).unwrap();
    }
    f.flush().unwrap();
    0
}

fn cpu_of(pid: u32) -> f64 {
    let s = std::fs::read_to_string(format!("/proc/{pid}/stat")).unwrap_or_default();
    let Some(i) = s.rfind(')') else { return 0.0 };
    let f: Vec<&str> = s[i + 1..].split_whitespace().collect();
    let g = |k: usize| f.get(k).and_then(|x| x.parse::<f64>().ok()).unwrap_or(0.0);
    (g(11) + g(12)) / 100.0
}

pub fn drive(p: &Prop, evidence_dir: &str, known: &[(String, String)]) -> i32 {
    let t0 = Instant::now();
    let (seed, thorough) = (env_seed(), env_thorough());
    let total = if thorough { p.thorough } else { p.quick };
    let deadline = std::env::var("VERIF_DEADLINE").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 1500 } else { 150 });
    let cpu_limit = 60.0;
    let stall_limit = 240;
    let dir = format!("{}/vh-{}-{}", std::env::temp_dir().display(), p.id, std::process::id());
    std::fs::create_dir_all(&dir).unwrap();
    let n = p.workers.max(1).min(total.max(1) as usize);
    let exe = std::env::current_exe().unwrap();
    struct W { ch: std::process::Child, shm: Shm, out: String, tick: u64, since: Instant, cpu0: f64, done: Option<String> }
    let mut ws: Vec<W> = (0..n).map(|i| {
        let shm = format!("{dir}/s{i}");
        let out = format!("{dir}/o{i}");
        let ch = std::process::Command::new(&exe)
            .args(["worker", p.id, &i.to_string(), &n.to_string(), &shm, &out, &total.to_string(), &deadline.to_string()])
            .stdin(std::process::Stdio::null())
            .stdout(std::process::Stdio::null())
            .stderr(std::process::Stdio::from(std::fs::File::create(format!("{dir}/e{i}")).unwrap()))
            .spawn().unwrap();
        W { ch, shm: Shm::open(&shm), out, tick: 0, since: Instant::now(), cpu0: 0.0, done: None }
    }).collect();
    let mut fails: Vec<(u64, String, String)> = Vec::new();
    loop {
        let mut live = 0;
        for (i, w) in ws.iter_mut().enumerate() {
            if w.done.is_some() { continue; }
            match w.ch.try_wait() {
                Ok(Some(st)) => {
                    if st.success() { w.done = Some("ok".into()); }
                    else {
                        let err = std::fs::read(format!("{dir}/e{i}")).unwrap_or_default();
                        let err = String::from_utf8_lossy(&err).into_owned();
                        let tail: String = err.lines().rev().take(5).collect::<Vec<_>>().join(" | ");
                        let c = w.shm.get(0);
                        fails.push((c.saturating_sub(1), format!("worker process died ({st}) while running this case: {tail}"), String::new()));
                        w.done = Some("died".into());
                    }
                }
                _ => {
                    live += 1;
                    let t = w.shm.get(1);
                    let cpu = cpu_of(w.ch.id());
                    if t != w.tick { w.tick = t; w.since = Instant::now(); w.cpu0 = cpu; }
                    else if cpu - w.cpu0 > cpu_limit || w.since.elapsed() > Duration::from_secs(stall_limit) {
                        let c = w.shm.get(0);
                        fails.push((c.saturating_sub(1), format!("no progress: this case used {:.0}s CPU / {:.0}s wall without finishing", cpu - w.cpu0, w.since.elapsed().as_secs_f64()), String::new()));
                        let _ = w.ch.kill();
                        let _ = w.ch.wait();
                        w.done = Some("hang".into());
                    }
                }
            }
        }
        if !fails.is_empty() {
            for w in ws.iter_mut() { if w.done.is_none() { std::thread::sleep(Duration::from_millis(50)); } }
        }
        if live == 0 || (!fails.is_empty()) { break; }
        std::thread::sleep(Duration::from_millis(20));
    }
    for w in ws.iter_mut() { if w.done.is_none() { let _ = w.ch.kill(); let _ = w.ch.wait(); } }
    let mut obs = Obs::default();
    let mut capped = false;
    for w in &ws {
        let Ok(s) = std::fs::read_to_string(&w.out) else { continue };
        for l in s.lines() {
            let mut it = l.split(' ');
            match it.next() {
                Some("E") => obs.evals += it.next().and_then(|x| x.parse::<u64>().ok()).unwrap_or(0),
                Some("T") => capped = true,
                Some("C") => {
                    let v: u64 = it.next().and_then(|x| x.parse().ok()).unwrap_or(0);
                    *obs.counters.entry(unhexs(it.next().unwrap_or(""))).or_default() += v;
                }
                Some("K") => {
                    let v: u64 = it.next().and_then(|x| x.parse().ok()).unwrap_or(0);
                    *obs.known.entry(unhexs(it.next().unwrap_or(""))).or_default() += v;
                }
                Some("D") => { if let Ok(h) = u64::from_str_radix(it.next().unwrap_or(""), 16) { obs.distinct.insert(h); } }
                Some("S") => obs.samples.push(unhexs(it.next().unwrap_or(""))),
                Some("F") => {
                    let c = it.next().and_then(|x| x.parse().ok()).unwrap_or(0);
                    let m = unhexs(it.next().unwrap_or(""));
                    let tr = unhexs(it.next().unwrap_or(""));
                    fails.push((c, m, tr));
                }
                _ => {}
            }
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    fails.sort();
    // known findings: printed for every listed one; unlisted signature = violation
    let mut viol = 0;
    for (sig, what) in known { println!("KNOWN-FINDING: property={} {} (observed {} times)", p.id, what, obs.known.get(sig).copied().unwrap_or(0)); }
    for (sig, _) in obs.known.iter() {
        if !known.iter().any(|(s, _)| s == sig) { fails.push((u64::MAX, format!("unlisted finding {sig}"), String::new())); }
    }
    let _ = std::fs::create_dir_all(evidence_dir);
    if let Some((c, m, tr)) = fails.first() {
        viol = fails.len();
        let rp = format!("{evidence_dir}/replay-{}.txt", p.id);
        let body = format!("property={} seed={seed} case={c} tier={}\nreplay: VERIF_SEED={seed} VERIF_TIER={} /verif/check.sh {} --case {c}\n\n{m}\n\ntrace:\n{tr}\n",
            p.id, if thorough { "thorough" } else { "quick" }, if thorough { "thorough" } else { "quick" }, p.id);
        let _ = std::fs::write(&rp, body);
        println!("{}: case {c}: {}", p.id, m.chars().take(1500).collect::<String>());
        println!("VIOLATION property={} replay={rp}", p.id);
    }
    let mut j = String::new();
    j.push_str("{\n");
    j.push_str(&format!(" \"property\": {},\n \"tier\": \"{}\",\n \"seed\": {seed},\n \"level\": \"exploration\",\n", esc(p.id), if thorough { "thorough" } else { "quick" }));
    j.push_str(" \"coverage\": {\n");
    j.push_str(&format!("  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n", obs.evals, obs.distinct.len(), esc(p.rule)));
    j.push_str(&format!("  \"planned_cases\": {total},\n  \"stopped_by_time_cap\": {capped},\n  \"exhaustive\": false,\n"));
    let c: Vec<String> = obs.counters.iter().map(|(k, v)| format!("   {}: {v}", esc(k))).collect();
    j.push_str(&format!("  \"monitor_events\": {{\n{}\n  }},\n", c.join(",\n")));
    let s: Vec<String> = obs.samples.iter().take(4).map(|s| format!("   {}", esc(s))).collect();
    j.push_str(&format!("  \"samples\": [\n{}\n  ]\n }},\n", s.join(",\n")));
    let mut asm: Vec<String> = p.assumptions.iter().map(|a| esc(a)).collect();
    asm.push(esc("workers are built with overflow checks and debug assertions on; a panic, abort, stack overflow, OOM or 60 s CPU stall inside a case is a violation"));
    j.push_str(&format!(" \"assumptions\": [{}],\n \"wall_s\": {:.2},\n \"violations\": {viol}\n}}\n", asm.join(", "), t0.elapsed().as_secs_f64()));
    std::fs::write(format!("{evidence_dir}/{}.json", p.id), j).unwrap();
    println!("{}: {} cases, {} distinct observations, {} violations, {:.1}s", p.id, obs.evals, obs.distinct.len(), viol, t0.elapsed().as_secs_f64());
    if viol > 0 { 1 } else { 0 }
}
