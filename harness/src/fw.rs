//! The runner: executes groups of generated cases on all cores, collects what
//! the monitors observed, and turns it into a verdict and an evidence file.
//!
//! Verdicts. A monitor reports a violation explicitly. A panic whose location
//! lies outside this crate is a crash of the code under test on input the
//! property covers, hence a violation. A panic located in this crate is an
//! error of the harness: exit code 2, no verdict. A case that has used two
//! minutes of CPU (cases take milliseconds) is reported as non-termination.

use crate::rng::{hash_str, mix, Rng};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::Instant;

pub struct Viol { pub group: String, pub idx: u64, pub msg: String }

#[derive(Default)]
pub struct Rec {
    pub cases: u64,
    pub events: BTreeMap<String, u64>,
    pub sigs: HashSet<u64>,
    pub samples: Vec<(u64, String)>,
    pub viols: Vec<Viol>,
    pub known: BTreeMap<String, (u64, String)>,
    pub harness_errors: Vec<String>,
}

impl Rec {
    fn merge(&mut self, o: Rec) {
        self.cases += o.cases;
        for (k, v) in o.events { *self.events.entry(k).or_insert(0) += v; }
        self.sigs.extend(o.sigs);
        self.samples.extend(o.samples);
        self.samples.sort();
        self.samples.truncate(40);
        self.viols.extend(o.viols);
        for (k, v) in o.known {
            let e = self.known.entry(k).or_insert((0, v.1.clone()));
            e.0 += v.0;
        }
        self.harness_errors.extend(o.harness_errors);
    }
}

struct CaseAbort;

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = RefCell::new(None);
}

/// Take the (location, message) of the last panic on this thread
pub fn take_panic() -> Option<(String, String)> {
    LAST_PANIC.with(|p| p.borrow_mut().take())
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_else(|| "?".to_string());
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() { s.to_string() }
            else if let Some(s) = info.payload().downcast_ref::<String>() { s.clone() }
            else { "panic".to_string() };
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((loc, msg)));
    }));
}

pub fn is_harness_location(loc: &str) -> bool {
    loc.starts_with("src/") || loc.contains("/verif/harness/src/")
}

/// leave out long lists of holidays
fn compact(s: &str) -> String {
    let mut out = String::new();
    let mut rest = s;
    while let Some(i) = rest.find("Hols([") {
        out.push_str(&rest[..i + 6]);
        rest = &rest[i + 6..];
        let end = rest.find(']').unwrap_or(rest.len());
        if end > 40 { out.push_str("..") } else { out.push_str(&rest[..end]) }
        rest = &rest[end..];
    }
    out.push_str(rest);
    out
}

pub struct Case<'a> {
    pub rng: Rng,
    pub idx: u64,
    pub group: &'a str,
    pub thorough: bool,
    rec: &'a mut Rec,
    note: String,
}

impl<'a> Case<'a> {
    /// count one observation by a monitor
    pub fn ev(&mut self, name: &str) { self.evn(name, 1) }
    pub fn evn(&mut self, name: &str, n: u64) {
        if let Some(e) = self.rec.events.get_mut(name) { *e += n; return; }
        self.rec.events.insert(name.to_string(), n);
    }
    /// describe the inputs of this case; shown with any violation
    pub fn note<S: Into<String>>(&mut self, s: S) { self.note = s.into(); }
    pub fn add_note<S: AsRef<str>>(&mut self, s: S) {
        if self.note.len() < 20000 { self.note.push_str("; "); self.note.push_str(s.as_ref()); }
    }
    pub fn fail<S: Into<String>>(&mut self, msg: S) {
        let mut m: String = msg.into();
        if !self.note.is_empty() { m = format!("{} [{}]", m, compact(&self.note)); }
        if self.rec.viols.len() < 20 {
            self.rec.viols.push(Viol { group: self.group.to_string(), idx: self.idx, msg: m });
        } else { self.rec.viols.truncate(20); }
    }
    /// fail and stop this case
    pub fn abort<S: Into<String>>(&mut self, msg: S) -> ! {
        self.fail(msg);
        resume_unwind(Box::new(CaseAbort))
    }
    /// stop this case quietly (workload not applicable)
    pub fn skip(&mut self, why: &str) -> ! {
        self.ev(&format!("skipped: {}", why));
        resume_unwind(Box::new(CaseAbort))
    }
    pub fn check<F: FnOnce() -> String>(&mut self, event: &str, ok: bool, msg: F) {
        self.ev(event);
        if !ok { let m = msg(); self.fail(format!("{}: {}", event, m)); }
    }
    /// a call that must succeed
    pub fn ok<T, E: std::fmt::Display>(&mut self, what: &str, r: Result<T, E>) -> T {
        match r { Ok(v) => v, Err(e) => self.abort(format!("{} failed: {}", what, e)) }
    }
    /// the bits of a number that may not be there
    pub fn ok2<E>(&self, r: Result<f64, E>) -> Option<u64> { r.ok().map(|v| v.to_bits()) }
    pub fn close(&mut self, event: &str, got: f64, want: f64, rel: f64, abs: f64) {
        let ok = close(got, want, rel, abs);
        self.check(event, ok, || format!("got {:e} want {:e} diff {:e}", got, want, got - want));
    }
    pub fn known<S: Into<String>>(&mut self, key: &str, what: S) {
        let e = self.rec.known.entry(key.to_string()).or_insert((0, what.into()));
        e.0 += 1;
    }
    /// mark the case as non-trivial, identified by its contents
    pub fn sig(&mut self, s: &str) {
        if self.rec.sigs.len() < 4_000_000 { self.rec.sigs.insert(mix(hash_str(self.group), hash_str(s))); }
    }
    pub fn sig_u(&mut self, h: u64) {
        if self.rec.sigs.len() < 4_000_000 { self.rec.sigs.insert(mix(hash_str(self.group), h)); }
    }
    pub fn sample(&mut self, s: String) {
        if self.idx < 3 { self.rec.samples.push((self.idx, format!("{}#{}: {}", self.group, self.idx, s))); }
    }
    /// run a piece of the code under test that is allowed to panic; returns
    /// the panic message if it did
    pub fn catch<T, F: FnOnce() -> T>(&mut self, f: F) -> Result<T, String> {
        match catch_unwind(AssertUnwindSafe(f)) {
            Ok(v) => Ok(v),
            Err(p) => {
                if p.is::<CaseAbort>() { resume_unwind(p) }
                match take_panic() {
                    Some((l, m)) => {
                        if is_harness_location(&l) { resume_unwind(p) }
                        Err(format!("{} at {}", m, l))
                    }
                    None => Err("panic".to_string())
                }
            }
        }
    }
}

pub fn close(got: f64, want: f64, rel: f64, abs: f64) -> bool {
    if got == want { return true }
    if !got.is_finite() || !want.is_finite() { return false }
    (got - want).abs() <= abs + rel * want.abs().max(got.abs())
}

pub struct Ctx {
    pub prop: String,
    pub thorough: bool,
    pub seed: u64,
    pub replay: Option<(String, u64)>,
    pub rec: Rec,
    pub start: Instant,
    pub soft_limit_s: f64,
    pub threads: usize,
    pub extra: BTreeMap<String, Value>,
    /// which build this is: plain, or one with a sanitizer
    pub part: String,
    /// fraction of the usual number of cases
    pub scale: f64,
}

struct Slot { busy: AtomicBool, idx: AtomicU64, cpu0: AtomicU64, clock: AtomicU64 }

fn thread_clock() -> libc::clockid_t {
    let mut id: libc::clockid_t = 0;
    unsafe { libc::pthread_getcpuclockid(libc::pthread_self(), &mut id); }
    id
}

fn read_clock(id: libc::clockid_t) -> u64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(id, &mut ts); }
    ts.tv_sec as u64 * 1000 + ts.tv_nsec as u64 / 1_000_000
}

impl Ctx {
    /// Run `quick` (or `thorough`) cases of a group.
    pub fn group<F>(&mut self, name: &str, quick: u64, thorough: u64, f: F)
        where F: Fn(&mut Case) + Sync {
        let t = self.threads;
        self.group_t(name, quick, thorough, t, 120_000, f)
    }

    pub fn group_t<F>(&mut self, name: &str, quick: u64, thorough: u64, threads: usize, cpu_limit_ms: u64, f: F)
        where F: Fn(&mut Case) + Sync {

        let n = if self.thorough { thorough } else { quick };
        let n = ((n as f64 * self.scale) as u64).max(1);
        let (lo, hi) = match self.replay {
            Some((ref g, i)) => { if g != name { return } (i, i + 1) }
            None => (0, n)
        };
        if self.rec.viols.len() >= 20 { return }
        let base = mix(mix(self.seed, hash_str(&self.prop)), hash_str(name));
        let next = AtomicU64::new(lo);
        let stop = AtomicBool::new(false);
        let done = AtomicBool::new(false);
        let results: Mutex<Vec<Rec>> = Mutex::new(Vec::new());
        let threads = threads.max(1).min((hi - lo).max(1) as usize);
        let slots: Vec<Slot> = (0..threads).map(|_| Slot { busy: AtomicBool::new(false),
            idx: AtomicU64::new(0), cpu0: AtomicU64::new(0), clock: AtomicU64::new(0) }).collect();
        let thorough_flag = self.thorough;
        let start = self.start;
        let soft = self.soft_limit_s;
        let me = (self.prop.clone(), self.seed);
        let running = AtomicU64::new(threads as u64);
        crash::group(name);

        std::thread::scope(|s| {
            for (number, slot) in slots.iter().enumerate() {
                let (next, stop, results, f, running) = (&next, &stop, &results, &f, &running);
                std::thread::Builder::new().stack_size(16 << 20).spawn_scoped(s, move || {
                    let clk = thread_clock();
                    slot.clock.store(clk as i64 as u64, Ordering::SeqCst);
                    let mut rec = Rec::default();
                    loop {
                        let i = next.fetch_add(1, Ordering::SeqCst);
                        if i >= hi || stop.load(Ordering::SeqCst) { break }
                        if start.elapsed().as_secs_f64() > soft { break }
                        slot.idx.store(i, Ordering::SeqCst);
                        slot.cpu0.store(read_clock(clk), Ordering::SeqCst);
                        slot.busy.store(true, Ordering::SeqCst);
                        crash::busy(number, i);
                        let mut case = Case { rng: Rng::new(mix(base, i)), idx: i, group: name,
                            thorough: thorough_flag, rec: &mut rec, note: String::new() };
                        let r = catch_unwind(AssertUnwindSafe(|| f(&mut case)));
                        slot.busy.store(false, Ordering::SeqCst);
                        crash::idle(number);
                        if let Err(p) = r {
                            if !p.is::<CaseAbort>() {
                                let (loc, msg) = take_panic().unwrap_or(("?".into(), "?".into()));
                                if is_harness_location(&loc) {
                                    let m = format!("{}#{}: harness panic at {}: {} [{}]", name, i, loc, msg, case.note);
                                    rec.harness_errors.push(m);
                                } else {
                                    case.fail(format!("the library panicked at {}: {}", loc, msg));
                                }
                            }
                        }
                        rec.cases += 1;
                        if rec.viols.len() >= 10 || rec.harness_errors.len() > 3 { stop.store(true, Ordering::SeqCst); }
                    }
                    results.lock().unwrap().push(rec);
                    running.fetch_sub(1, Ordering::SeqCst);
                }).expect("spawn");
            }
            // watchdog
            let (slots, done, running) = (&slots, &done, &running);
            let me = &me;
            s.spawn(move || {
                while running.load(Ordering::SeqCst) > 0 {
                    for _ in 0..20 {
                        if running.load(Ordering::SeqCst) == 0 { return }
                        std::thread::sleep(std::time::Duration::from_millis(10));
                    }
                    for slot in slots.iter() {
                        if !slot.busy.load(Ordering::SeqCst) { continue }
                        let i = slot.idx.load(Ordering::SeqCst);
                        let c0 = slot.cpu0.load(Ordering::SeqCst);
                        let now = read_clock(slot.clock.load(Ordering::SeqCst) as i64 as libc::clockid_t);
                        if slot.idx.load(Ordering::SeqCst) == i && slot.busy.load(Ordering::SeqCst)
                            && now > c0 + cpu_limit_ms && !done.load(Ordering::SeqCst) {
                            let msg = format!("does not terminate: case {}#{} used {} ms of CPU", name, i, now - c0);
                            let path = write_replay(&me.0, me.1, name, i, &msg);
                            loud();
                            println!("{}", msg);
                            println!("VIOLATION property={} replay={}", me.0, path);
                            write_evidence_min(&me.0, me.1, &msg);
                            std::process::exit(1);
                        }
                    }
                }
            });
        });
        let _ = &done;
        for r in results.into_inner().unwrap() { self.rec.merge(r); }
        self.rec.viols.sort_by(|a, b| (a.idx).cmp(&b.idx));
    }
}

pub fn verif_dir() -> String {
    std::env::var("QMV_DIR").unwrap_or_else(|_| "/verif".to_string())
}

pub fn write_replay(prop: &str, seed: u64, group: &str, idx: u64, msg: &str) -> String {
    let dir = format!("{}/replays", verif_dir());
    let _ = std::fs::create_dir_all(&dir);
    let g: String = group.chars().map(|c| if c.is_ascii_alphanumeric() { c } else { '_' }).collect();
    let path = format!("{}/{}-{}-{}-{}.json", dir, prop, seed, g, idx);
    let part = std::env::var("QMV_PART").unwrap_or_else(|_| "plain".into());
    let v = json!({"property": prop, "seed": seed, "group": group, "index": idx, "part": part, "what": msg});
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap());
    path
}

pub fn write_evidence_min(prop: &str, seed: u64, msg: &str) {
    let v = json!({"property": prop, "tier": "quick", "seed": seed, "level": "exploration",
        "coverage": {"evaluations": 1, "distinct_nontrivial": 0, "rule": "stopped by the termination or crash monitor", "samples": [msg]},
        "wall_s": 0.0, "violations": 1});
    let _ = std::fs::create_dir_all(format!("{}/evidence", verif_dir()));
    let _ = std::fs::write(format!("{}/evidence/{}.json", verif_dir(), prop), serde_json::to_string_pretty(&v).unwrap());
}

pub struct Prop {
    pub id: &'static str,
    /// how cases are made and what counts as non-trivial
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    /// (event, minimum count) that a run must have observed to be believed
    pub need: &'static [(&'static str, u64)],
    pub run: fn(&mut Ctx),
}

pub fn run_prop(p: &Prop, thorough: bool, seed: u64, replay: Option<(String, u64)>) -> i32 {
    install_panic_hook();
    let threads = std::env::var("QMV_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    let soft = std::env::var("QMV_SOFT_S").ok().and_then(|s| s.parse().ok())
        .unwrap_or(if thorough { 3000.0 } else { 300.0 });
    let mut ctx = Ctx { prop: p.id.to_string(), thorough, seed, replay: replay.clone(), rec: Rec::default(),
        start: Instant::now(), soft_limit_s: soft, threads, extra: BTreeMap::new(),
        part: std::env::var("QMV_PART").unwrap_or_else(|_| "plain".into()),
        scale: std::env::var("QMV_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0) };
    (p.run)(&mut ctx);
    loud();
    // what the other builds of this check observed
    if ctx.part == "plain" && replay.is_none() {
        for part in ["asan", "tsan", "miri"] {
            let name = format!("{}/work/{}-{}.json", verif_dir(), p.id, part);
            if let Some(v) = std::fs::read_to_string(&name).ok().and_then(|t| serde_json::from_str::<Value>(&t).ok()) {
                ctx.extra.insert(format!("{}_run", part), json!({"evaluations": v["coverage"]["evaluations"], "observed_events": v["coverage"]["observed_events"], "wall_s": v["wall_s"], "violations": v["violations"]}));
                let _ = std::fs::remove_file(&name);
            }
        }
    }
    let wall = ctx.start.elapsed().as_secs_f64();
    let mut viols = ctx.rec.viols;

    // known findings
    let kf = std::fs::read_to_string(format!("{}/known_findings.json", verif_dir())).unwrap_or_else(|_| "{}".into());
    let kf: Value = serde_json::from_str(&kf).expect("known_findings.json");
    let mut listed = HashSet::new();
    if let Some(a) = kf["findings"].as_array() {
        for f in a {
            if f["property"] == p.id { listed.insert(f["key"].as_str().unwrap_or("").to_string()); }
        }
    }
    let mut known_out = Vec::new();
    for (k, (n, what)) in ctx.rec.known.iter() {
        if listed.contains(k) {
            println!("KNOWN-FINDING: property={} {} ({} observations) {}", p.id, k, n, what);
            known_out.push(json!({"key": k, "observations": n, "example": what}));
        } else {
            viols.push(Viol { group: "known".into(), idx: 0, msg: format!("{}: {}", k, what) });
        }
    }

    println!("{} tier={} seed={} cases={} distinct_nontrivial={} wall={:.1}s", p.id,
        if thorough { "thorough" } else { "quick" }, seed, ctx.rec.cases, ctx.rec.sigs.len(), wall);
    for (k, v) in ctx.rec.events.iter() { println!("  observed {:>10}  {}", v, k); }

    // When sanitizer runs contribute, run.sh passes QMV_PART so that parts
    // do not overwrite each other; the main part writes the evidence file.
    let mut coverage = json!({
        "evaluations": ctx.rec.cases,
        "distinct_nontrivial": ctx.rec.sigs.len(),
        "rule": p.rule,
        "samples": ctx.rec.samples.iter().map(|s| s.1.clone()).collect::<Vec<_>>(),
        "observed_events": ctx.rec.events,
        "known_findings_observed": known_out,
    });
    for (k, v) in ctx.extra.iter() { coverage[k] = v.clone(); }
    let ev = json!({
        "property": p.id, "tier": if thorough { "thorough" } else { "quick" }, "seed": seed,
        "level": "exploration", "coverage": coverage, "assumptions": p.assumptions,
        "wall_s": wall, "violations": viols.len(),
    });
    if replay.is_none() {
        let dir = format!("{}/evidence", verif_dir());
        let _ = std::fs::create_dir_all(&dir);
        let name = match std::env::var("QMV_PART") {
            Ok(part) => format!("{}/work/{}-{}.json", verif_dir(), p.id, part),
            Err(_) => format!("{}/{}.json", dir, p.id)
        };
        if std::env::var("QMV_PART").is_ok() { let _ = std::fs::create_dir_all(format!("{}/work", verif_dir())); }
        std::fs::write(&name, serde_json::to_string_pretty(&ev).unwrap()).expect("write evidence");
    }

    if !viols.is_empty() {
        let v = &viols[0];
        for v in viols.iter().take(8) {
            let m: String = v.msg.chars().take(if std::env::var("QMV_LONG").is_ok() { 50000 } else { 3000 }).collect();
            println!("  violation in {}#{}: {}", v.group, v.idx, m);
        }
        let path = write_replay(p.id, seed, &v.group, v.idx, &v.msg);
        println!("VIOLATION property={} replay={}", p.id, path);
        return 1
    }
    if !ctx.rec.harness_errors.is_empty() {
        for e in ctx.rec.harness_errors.iter().take(5) { println!("HARNESS ERROR {}", e); }
        return 2
    }
    if replay.is_none() && std::env::var("QMV_PART").is_err() {
        for (k, n) in p.need {
            let got = *ctx.rec.events.get(*k).unwrap_or(&0);
            if got < *n {
                println!("NOT ENOUGH OBSERVED: {} = {} (need {}); no verdict", k, got, n);
                return 2
            }
        }
        if ctx.rec.cases == 0 { println!("NOTHING RAN; no verdict"); return 2 }
    }
    0
}

// The C interface writes to standard output; keep that out of the results.
static SAVED_OUT: std::sync::atomic::AtomicI32 = std::sync::atomic::AtomicI32::new(-1);

pub fn quiet() {
    if SAVED_OUT.load(Ordering::SeqCst) >= 0 { return }
    unsafe {
        let s = libc::dup(1);
        let n = libc::open(b"/dev/null\0".as_ptr() as *const libc::c_char, libc::O_WRONLY);
        if s < 0 || n < 0 { return }
        libc::dup2(n, 1);
        libc::close(n);
        SAVED_OUT.store(s, Ordering::SeqCst);
    }
}

pub fn loud() {
    use std::io::Write;
    let s = SAVED_OUT.swap(-1, Ordering::SeqCst);
    if s < 0 { return }
    let _ = std::io::stdout().flush();
    unsafe { libc::dup2(s, 1); libc::close(s); }
}

/// The check runs in a child process. When that dies by a signal or with the
/// exit code of a sanitizer, the parent finds out from a shared page which
/// cases were running, and runs each of them again to find the one to blame.
pub mod crash {
    use super::*;
    use std::os::unix::process::ExitStatusExt;
    use std::process::Command;
    use std::sync::atomic::AtomicPtr;

    pub const SANITIZER: i32 = 86;
    pub const UNABLE: i32 = 87;
    const SLOTS: usize = 16;
    static PAGE: AtomicPtr<u8> = AtomicPtr::new(std::ptr::null_mut());

    fn words() -> Option<&'static [AtomicU64]> {
        let p = PAGE.load(Ordering::SeqCst);
        if p.is_null() { None } else { Some(unsafe { std::slice::from_raw_parts(p as *const AtomicU64, 512) }) }
    }

    /// in the child: map the page
    pub fn attach(path: &str) {
        use std::os::unix::io::AsRawFd;
        if let Ok(f) = std::fs::OpenOptions::new().read(true).write(true).open(path) {
            let p = unsafe { libc::mmap(std::ptr::null_mut(), 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0) };
            unsafe { libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL); }
            if p != libc::MAP_FAILED { PAGE.store(p as *mut u8, Ordering::SeqCst) }
        }
    }
    pub fn group(name: &str) {
        if let Some(w) = words() {
            for x in w.iter() { x.store(0, Ordering::SeqCst) }
            for (i, b) in name.bytes().take(256).enumerate() { w[64 + i].store(b as u64, Ordering::SeqCst) }
        }
    }
    pub fn busy(slot: usize, idx: u64) { if slot < SLOTS { if let Some(w) = words() { w[slot].store(idx + 1, Ordering::SeqCst) } } }
    pub fn idle(slot: usize) { if slot < SLOTS { if let Some(w) = words() { w[slot].store(0, Ordering::SeqCst) } } }

    fn died(st: &std::process::ExitStatus) -> bool {
        match st.signal() { Some(s) => s != libc::SIGKILL && s != libc::SIGTERM && s != libc::SIGINT, None => st.code() == Some(SANITIZER) }
    }

    fn child(args: &[String], page: &str, log: &str, replay: Option<(&str, &str, u64, u64)>) -> std::io::Result<std::process::ExitStatus> {
        let mut c = Command::new(std::env::current_exe()?);
        match replay {
            None => { c.args(args); }
            Some((prop, group, seed, idx)) => { c.args(["case", prop, group, &seed.to_string(), &idx.to_string()]); }
        }
        c.env("QMV_CHILD", page).stderr(std::fs::File::create(log)?);
        c.status()
    }

    fn tail(log: &str) -> String {
        let t = String::from_utf8_lossy(&std::fs::read(log).unwrap_or_default()).to_string();
        t.lines().filter(|l| !l.trim().is_empty()).take(40).collect::<Vec<_>>().join("\n")
    }

    /// in the parent
    pub fn supervise(prop: &str, seed: u64, args: &[String]) -> i32 {
        let dir = format!("{}/work", verif_dir());
        let _ = std::fs::create_dir_all(&dir);
        let me = std::process::id();
        let page = format!("{}/page-{}", dir, me);
        let log = format!("{}/stderr-{}", dir, me);
        let done = |code: i32| { let _ = std::fs::remove_file(&page); let _ = std::fs::remove_file(&log); code };
        for attempt in 0..3 {
            if std::fs::write(&page, vec![0u8; 4096]).is_err() { return done(2) }
            let st = match child(args, &page, &log, None) { Ok(s) => s, Err(e) => { println!("cannot start: {}", e); return done(2) } };
            if !died(&st) {
                let t = tail(&log);
                if !t.is_empty() { eprintln!("{}", t) }
                return done(st.code().unwrap_or(2))
            }
            let how = format!("{}", st);
            let text = tail(&log);
            println!("the process died: {}\n{}", how, text);
            // not about the program: the sanitizer itself cannot work here
            if text.contains("LeakSanitizer has encountered a fatal error") { println!("no leak detection here"); std::env::set_var("ASAN_OPTIONS", format!("exitcode={}:detect_leaks=0", SANITIZER)); continue }
            if text.contains("FATAL: ThreadSanitizer") || text.contains("ReserveShadowMemoryRange failed") || text.contains("Shadow memory range interleaves") { println!("the sanitizer cannot run here"); return done(UNABLE) }
            // running out of memory says nothing, unless no machine could have that much
            let asked = text.split("memory allocation of ").nth(1).map(|s| s.chars().take_while(|c| c.is_ascii_digit()).collect::<String>().parse::<f64>().unwrap_or(0.0));
            if asked.map_or(false, |n| n < 1e14) { println!("out of memory; no verdict"); return done(2) }
            let data = std::fs::read(&page).unwrap_or_default();
            let word = |i: usize| data.get(8 * i..8 * i + 8).map(|b| u64::from_le_bytes([b[0], b[1], b[2], b[3], b[4], b[5], b[6], b[7]])).unwrap_or(0);
            let group: String = (0..256).map(|i| word(64 + i) as u8).take_while(|b| *b != 0).map(|b| b as char).collect();
            let busy: Vec<u64> = (0..SLOTS).map(word).filter(|x| *x > 0).map(|x| x - 1).collect();
            for i in busy.iter() {
                let again = child(args, &page, &log, Some((prop, &group, seed, *i)));
                if let Ok(s) = again { if died(&s) {
                    let msg = format!("the process died: {} in case {}#{}\n{}", s, group, i, tail(&log));
                    let path = write_replay(prop, seed, &group, *i, &msg);
                    write_evidence_min(prop, seed, &msg);
                    println!("{}\nVIOLATION property={} replay={}", msg, prop, path);
                    return done(1)
                } }
            }
            // a sanitizer saw something that depends on more than one case
            if st.code() == Some(SANITIZER) || attempt == 2 {
                let msg = format!("the process died: {} in {} running {:?}\n{}", how, group, busy, text);
                let path = write_replay(prop, seed, &group, busy.first().cloned().unwrap_or(0), &msg);
                write_evidence_min(prop, seed, &msg);
                println!("VIOLATION property={} replay={}", prop, path);
                return done(1)
            }
            println!("not seen again; repeating the run");
        }
        done(2)
    }
}
