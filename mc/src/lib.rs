//! Shared machinery of the bounded exhaustive explorers.
//!
//! A check enumerates a finite, stated space of executions of the real code
//! (`/repo`), compares every one with a reference model or an invariant, counts
//! what it visited and reports the first failing case in enumeration order
//! (simplest first).
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::Instant;

pub mod probe;
pub mod pty;
pub mod term;

thread_local! {
    static PANIC_MSG: RefCell<String> = const { RefCell::new(String::new()) };
}

/// Install a quiet panic hook that remembers the message and place.
pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info
            .location()
            .map(|l| format!(" at {}:{}", l.file(), l.line()))
            .unwrap_or_default();
        PANIC_MSG.with(|m| *m.borrow_mut() = format!("{msg}{loc}"));
    }));
}

/// Run `f`, turning a panic into `Err("panic: ...")`.
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f))
        .map_err(|_| format!("panic: {}", PANIC_MSG.with(|m| m.borrow().clone())))
}

pub fn hash_of<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

/// A single case that runs this long is reported as not terminating.
const HANG_MS: u64 = 100_000;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Clone, Debug)]
struct Violation {
    phase: usize,
    index: u64,
    case: String,
    detail: String,
}

/// Per-worker counters; merged when the worker ends.
#[derive(Default)]
pub struct W {
    pub states: HashSet<u64>,
    pub transitions: u64,
    pub traces: u64,
    pub outcomes: HashSet<u64>,
}

impl W {
    /// Record a visited state by its canonical value.
    pub fn state<T: Hash + ?Sized>(&mut self, t: &T) {
        if self.states.len() < 4_000_000 {
            self.states.insert(hash_of(t));
        }
    }
    pub fn step(&mut self) {
        self.transitions += 1;
    }
    pub fn steps(&mut self, n: u64) {
        self.transitions += n;
    }
    pub fn outcome<T: Hash + ?Sized>(&mut self, t: &T) {
        if self.outcomes.len() < 4_000_000 {
            self.outcomes.insert(hash_of(t));
        }
    }
}

pub struct Ctx {
    pub property: String,
    pub tier: Tier,
    pub seed: i64,
    only: Option<String>,
    start: Instant,
    cap_s: u64,
    phases: Mutex<Vec<(String, u64, u64)>>,
    violations: Mutex<Vec<Violation>>,
    found: AtomicBool,
    capped: AtomicBool,
    cases: AtomicU64,
    merged: Mutex<W>,
    samples: Mutex<Vec<String>>,
    assumptions: Mutex<Vec<String>>,
    extra: Mutex<BTreeMap<String, serde_json::Value>>,
    known: Vec<(String, String)>,
    known_hit: Mutex<BTreeMap<String, String>>,
}

fn verif_dir() -> std::path::PathBuf {
    std::env::var_os("VERIF_DIR")
        .map(Into::into)
        .unwrap_or_else(|| "/verif".into())
}

impl Ctx {
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }
    /// `q` in the quick tier, `t` in the thorough one.
    pub fn pick<T>(&self, q: T, t: T) -> T {
        if self.thorough() {
            t
        } else {
            q
        }
    }
    pub fn assume(&self, s: &str) {
        self.assumptions.lock().unwrap().push(s.to_string());
    }
    pub fn note(&self, k: &str, v: serde_json::Value) {
        self.extra.lock().unwrap().insert(k.to_string(), v);
    }
    pub fn over_time(&self) -> bool {
        if self.start.elapsed().as_secs() >= self.cap_s {
            self.capped.store(true, Ordering::Relaxed);
            true
        } else {
            false
        }
    }

    fn report(&self, phase: usize, index: u64, case: String, detail: String) {
        for (k, what) in &self.known {
            if *k == case {
                self.known_hit.lock().unwrap().insert(k.clone(), what.clone());
                return;
            }
        }
        self.found.store(true, Ordering::Relaxed);
        let mut v = self.violations.lock().unwrap();
        if v.len() < 4000 {
            v.push(Violation { phase, index, case, detail });
        }
    }

    /// Explore every index of `0..total` (a finite space decoded by `f`), in parallel.
    /// `f` returns the case's name lazily and its verdict.
    pub fn explore<F, N>(&self, name: &str, total: u64, case_name: N, f: F)
    where
        F: Fn(u64, &mut W) -> Result<(), String> + Sync,
        N: Fn(u64) -> String + Sync,
    {
        let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4);
        self.explore_on(threads, name, total, case_name, f)
    }

    pub fn explore_on<F, N>(&self, threads: usize, name: &str, total: u64, case_name: N, f: F)
    where
        F: Fn(u64, &mut W) -> Result<(), String> + Sync,
        N: Fn(u64) -> String + Sync,
    {
        let phase = {
            let mut p = self.phases.lock().unwrap();
            p.push((name.to_string(), total, 0));
            p.len() - 1
        };
        if let Some(only) = &self.only {
            for i in 0..total {
                let full = format!("{name}: {}", case_name(i));
                if full == *only {
                    let mut w = W::default();
                    let r = catch(|| f(i, &mut w)).and_then(|r| r);
                    self.cases.fetch_add(1, Ordering::Relaxed);
                    self.merge(w);
                    if let Err(d) = r {
                        self.report(phase, i, full, d);
                    }
                }
            }
            return;
        }
        if self.found.load(Ordering::Relaxed) || total == 0 {
            return;
        }
        // Samples: first, middle and last case of the phase.
        for i in [0, total / 2, total - 1] {
            let s = catch(|| case_name(i)).unwrap_or_default();
            let mut g = self.samples.lock().unwrap();
            let s = format!("{name}: {s}");
            if g.len() < 60 && !g.contains(&s) {
                g.push(s);
            }
        }
        let next = AtomicU64::new(0);
        let chunk = (total / (threads as u64 * 16)).clamp(1, 256);
        let done = AtomicU64::new(0);
        let stop_at = AtomicU64::new(u64::MAX);
        let nviol = AtomicU64::new(0);
        // What every worker is doing (index + 1, start in ms), for the watchdog.
        let slots: Vec<(AtomicU64, AtomicU64)> = (0..threads).map(|_| Default::default()).collect();
        let running = AtomicU64::new(threads as u64);
        std::thread::scope(|s| {
            s.spawn(|| {
                while running.load(Ordering::Relaxed) > 0 {
                    std::thread::sleep(std::time::Duration::from_millis(2));
                    let now = self.start.elapsed().as_millis() as u64;
                    for (i, t) in &slots {
                        let (i, t) = (i.load(Ordering::Relaxed), t.load(Ordering::Relaxed));
                        if i > 0 && now > t + HANG_MS {
                            self.hang(format!("{name}: {}", case_name(i - 1)));
                        }
                    }
                }
            });
            for k in 0..threads {
                let (slots, running, next, stop_at, nviol, done, f, case_name) =
                    (&slots, &running, &next, &stop_at, &nviol, &done, &f, &case_name);
                s.spawn(move || {
                    let mut w = W::default();
                    let mut n = 0u64;
                    'outer: loop {
                        let a = next.fetch_add(chunk, Ordering::Relaxed);
                        if a >= total || a > stop_at.load(Ordering::Relaxed) {
                            break;
                        }
                        if self.over_time() {
                            break;
                        }
                        for i in a..(a + chunk).min(total) {
                            slots[k].1.store(self.start.elapsed().as_millis() as u64, Ordering::Relaxed);
                            slots[k].0.store(i + 1, Ordering::Relaxed);
                            let r = catch(|| f(i, &mut w)).and_then(|r| r);
                            slots[k].0.store(0, Ordering::Relaxed);
                            n += 1;
                            if let Err(d) = r {
                                let full = format!("{name}: {}", case_name(i));
                                let before = self.violations.lock().unwrap().len();
                                self.report(phase, i, full, d);
                                if self.violations.lock().unwrap().len() > before {
                                    // Keep going only below this index, so that the
                                    // reported case is the first of the enumeration
                                    // (and stop early after many failures).
                                    if nviol.fetch_add(1, Ordering::Relaxed) > 200 {
                                        stop_at.store(0, Ordering::Relaxed);
                                        break 'outer;
                                    }
                                    if std::env::var_os("MC_ALL").is_none() {
                                        stop_at.fetch_min(i, Ordering::Relaxed);
                                        break 'outer;
                                    }
                                }
                            }
                        }
                    }
                    done.fetch_add(n, Ordering::Relaxed);
                    self.merge(w);
                    running.fetch_sub(1, Ordering::Relaxed);
                });
            }
        });
        let d = done.load(Ordering::Relaxed);
        self.cases.fetch_add(d, Ordering::Relaxed);
        self.phases.lock().unwrap()[phase].2 = d;
    }

    /// As `explore`, but in forked processes: for code that writes to the process's
    /// standard output. In each child fd 1 is a private memory file (`grab_stdout`).
    pub fn explore_procs<F, N>(&self, name: &str, total: u64, case_name: N, f: F)
    where
        F: Fn(u64, &mut W) -> Result<(), String>,
        N: Fn(u64) -> String,
    {
        let phase = {
            let mut p = self.phases.lock().unwrap();
            p.push((name.to_string(), total, 0));
            p.len() - 1
        };
        if self.only.is_none() && (self.found.load(Ordering::Relaxed) || total == 0) {
            return;
        }
        let procs = if self.only.is_some() { 1 } else { std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8) as u64 };
        if self.only.is_none() {
            for i in [0, total / 2, total - 1] {
                self.sample(format!("{name}: {}", case_name(i)));
            }
        }
        use std::io::{Read, Write};
        let _ = std::io::stdout().flush();
        let mut kids = vec![];
        let cur = unsafe {
            let p = libc::mmap(std::ptr::null_mut(), 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0);
            assert!(p != libc::MAP_FAILED);
            p as *mut u64
        };
        for k in 0..procs {
            let mut fds = [0i32; 2];
            unsafe { assert_eq!(libc::pipe(fds.as_mut_ptr()), 0) };
            let pid = unsafe { libc::fork() };
            assert!(pid >= 0);
            if pid == 0 {
                unsafe {
                    libc::close(fds[0]);
                    libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                }
                redirect_stdout();
                let mut w = W::default();
                let mut n = 0u64;
                let mut bad: Vec<(u64, String, String)> = vec![];
                let mut capped = false;
                let mut i = k;
                while i < total {
                    if n % 64 == 0 && self.start.elapsed().as_secs() >= self.cap_s {
                        capped = true;
                        break;
                    }
                    if let Some(o) = &self.only {
                        if format!("{name}: {}", case_name(i)) != *o { i += procs; continue; }
                    }
                    n += 1;
                    unsafe {
                        cur.add(k as usize).write_volatile(i);
                        libc::alarm((HANG_MS / 1000) as u32);
                    }
                    if let Err(d) = catch(|| f(i, &mut w)).and_then(|r| r) {
                        bad.push((i, case_name(i), d));
                        if bad.len() > 20 || std::env::var_os("MC_ALL").is_none() && self.known.is_empty() { break; }
                    }
                    i += procs;
                }
                let j = serde_json::json!({"n": n, "bad": bad, "transitions": w.transitions, "traces": w.traces, "capped": capped,
                    "states": w.states.iter().collect::<Vec<_>>(), "outcomes": w.outcomes.iter().collect::<Vec<_>>()});
                let mut file: std::fs::File = unsafe { std::os::fd::FromRawFd::from_raw_fd(fds[1]) };
                let _ = file.write_all(j.to_string().as_bytes());
                drop(file);
                unsafe { libc::_exit(0) };
            }
            unsafe { libc::close(fds[1]) };
            kids.push((pid, fds[0]));
        }
        let mut done = 0;
        for (k, (pid, fd)) in kids.into_iter().enumerate() {
            let mut file: std::fs::File = unsafe { std::os::fd::FromRawFd::from_raw_fd(fd) };
            let mut s = String::new();
            let _ = file.read_to_string(&mut s);
            let mut st = 0;
            unsafe { libc::waitpid(pid, &mut st, 0) };
            let j: serde_json::Value = match serde_json::from_str(&s) {
                Ok(j) => j,
                Err(_) => {
                    let i = unsafe { cur.add(k).read_volatile() };
                    let sig = libc::WTERMSIG(st);
                    assert!(sig != libc::SIGKILL, "worker was killed");
                    let why = if sig == libc::SIGALRM { "does not terminate".to_string() } else { format!("the process died (signal {sig})") };
                    self.report(phase, i, format!("{name}: {}", case_name(i)), why);
                    continue;
                }
            };
            let mut w = W { transitions: j["transitions"].as_u64().unwrap(), traces: j["traces"].as_u64().unwrap(), ..Default::default() };
            w.states.extend(j["states"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()));
            w.outcomes.extend(j["outcomes"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()));
            done += j["n"].as_u64().unwrap();
            if j["capped"] == true { self.capped.store(true, Ordering::Relaxed); }
            self.merge(w);
            for b in j["bad"].as_array().unwrap() {
                self.report(phase, b[0].as_u64().unwrap(), format!("{name}: {}", b[1].as_str().unwrap()), b[2].as_str().unwrap().to_string());
            }
        }
        self.cases.fetch_add(done, Ordering::Relaxed);
        self.phases.lock().unwrap()[phase].2 = done;
    }

    /// A single named case (used by breadth-first searches, which count for themselves).
    pub fn single<F>(&self, name: &str, f: F)
    where
        F: FnOnce(&mut W) -> Result<(), (String, String)>,
    {
        let phase = {
            let mut p = self.phases.lock().unwrap();
            p.push((name.to_string(), 1, 1));
            p.len() - 1
        };
        if self.only.is_none() && self.found.load(Ordering::Relaxed) {
            return;
        }
        let mut w = W::default();
        let r = catch(|| f(&mut w)).unwrap_or_else(|e| Err(("explorer".into(), e)));
        self.cases.fetch_add(1, Ordering::Relaxed);
        self.merge(w);
        if let Err((case, d)) = r {
            self.report(phase, 0, format!("{name}: {case}"), d);
        }
    }

    /// A case that never ends: report it and leave at once.
    fn hang(&self, case: String) -> ! {
        let dir = verif_dir().join("evidence");
        let _ = std::fs::create_dir_all(&dir);
        let rp = dir.join(format!("replay-{}.json", self.property));
        let detail = format!("still running after {} s", HANG_MS / 1000);
        let _ = std::fs::write(&rp, serde_json::json!({"property": self.property, "case": case, "detail": detail}).to_string() + "\n");
        println!("  case   {case}\n  detail {detail}");
        println!("VIOLATION property={} replay={}", self.property, rp.display());
        use std::io::Write;
        let _ = std::io::stdout().flush();
        unsafe { libc::_exit(1) }
    }

    pub fn sample(&self, s: String) {
        let mut g = self.samples.lock().unwrap();
        if g.len() < 60 {
            g.push(s);
        }
    }

    fn merge(&self, w: W) {
        let mut m = self.merged.lock().unwrap();
        if m.states.len() < 40_000_000 {
            m.states.extend(w.states);
        }
        if m.outcomes.len() < 40_000_000 {
            m.outcomes.extend(w.outcomes);
        }
        m.transitions += w.transitions;
        m.traces += w.traces;
    }

    fn finish(self) -> i32 {
        let wall = self.start.elapsed().as_secs_f64();
        let mut v = self.violations.into_inner().unwrap();
        v.sort_by(|a, b| (a.phase, a.index, &a.case).cmp(&(b.phase, b.index, &b.case)));
        let m = self.merged.into_inner().unwrap();
        let cases = self.cases.into_inner();
        let capped = self.capped.into_inner();
        let phases: Vec<_> = self
            .phases
            .into_inner()
            .unwrap()
            .into_iter()
            .map(|(n, t, d)| serde_json::json!({"space": n, "size": t, "explored": d}))
            .collect();
        let traces = if m.traces > 0 { m.traces } else { cases };
        let mut cov = serde_json::json!({
            "states": m.states.len().max(m.outcomes.len()),
            "transitions": m.transitions.max(cases),
            "traces_validated_against_impl": traces,
            "evaluations": cases,
            "distinct_outcomes": m.outcomes.len(),
            "samples": self.samples.into_inner().unwrap(),
            "spaces": phases,
            "exhaustive": !capped && v.is_empty() && self.only.is_none(),
            "capped": capped,
        });
        for (k, x) in self.extra.into_inner().unwrap() {
            cov[k] = x;
        }
        let ev = serde_json::json!({
            "property": self.property,
            "tier": if self.tier == Tier::Quick { "quick" } else { "thorough" },
            "seed": self.seed,
            "level": "model_checking",
            "coverage": cov,
            "assumptions": self.assumptions.into_inner().unwrap(),
            "wall_s": wall,
            "violations": v.len(),
        });
        let dir = verif_dir().join("evidence");
        let _ = std::fs::create_dir_all(&dir);
        let path = dir.join(format!("{}.json", self.property));
        std::fs::write(&path, serde_json::to_string_pretty(&ev).unwrap() + "\n").expect("evidence");
        for (k, what) in self.known_hit.into_inner().unwrap() {
            println!("KNOWN-FINDING: property={} {} [{}]", self.property, what, k);
        }
        println!(
            "{}: {} cases, {} states, {} transitions, {} outcomes, {:.1}s{}",
            self.property,
            cases,
            m.states.len(),
            m.transitions,
            m.outcomes.len(),
            wall,
            if capped { " (time cap reached: not exhaustive)" } else { "" }
        );
        if let Some(first) = v.first() {
            let rp = dir.join(format!("replay-{}.json", self.property));
            let r = serde_json::json!({
                "property": self.property,
                "case": first.case,
                "detail": first.detail,
                "replay": format!("/verif/run.sh {} --tier {} --replay {}", self.property,
                    if self.tier == Tier::Quick { "quick" } else { "thorough" }, rp.display()),
                "others": v.iter().skip(1).take(20).map(|x| x.case.clone()).collect::<Vec<_>>(),
            });
            let _ = std::fs::write(&rp, serde_json::to_string_pretty(&r).unwrap() + "\n");
            let shown = if std::env::var_os("MC_ALL").is_some() { 60 } else { 3 };
            for x in v.iter().take(shown) {
                println!("  case   {}", x.case);
                println!("  detail {}", x.detail);
            }
            println!("VIOLATION property={} replay={}", self.property, rp.display());
            return 1;
        }
        0
    }
}

pub type Check = fn(&Ctx);

/// Entry point of every checker binary.
pub fn main_with(checks: &[(&str, Check)]) -> ! {
    quiet_panics();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let mut property = String::new();
    let mut tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let mut only = None;
    let mut it = args.into_iter();
    while let Some(a) = it.next() {
        match a.as_str() {
            "--tier" => {
                tier = match it.next().as_deref() {
                    Some("thorough") => Tier::Thorough,
                    _ => Tier::Quick,
                }
            }
            "--replay" => {
                let p = it.next().expect("--replay FILE");
                let j: serde_json::Value =
                    serde_json::from_str(&std::fs::read_to_string(p).expect("replay file")).unwrap();
                only = Some(j["case"].as_str().unwrap().to_string());
            }
            _ => property = a,
        }
    }
    let Some((_, f)) = checks.iter().find(|(n, _)| *n == property) else {
        eprintln!("unknown property {property}");
        std::process::exit(2);
    };
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let known = std::fs::read_to_string(verif_dir().join("known_findings.json"))
        .ok()
        .and_then(|s| serde_json::from_str::<serde_json::Value>(&s).ok())
        .map(|j| {
            j["findings"]
                .as_array()
                .cloned()
                .unwrap_or_default()
                .into_iter()
                .filter(|f| f["property"] == property.as_str())
                .flat_map(|f| {
                    let what = f["what"].as_str().unwrap_or("").to_string();
                    f["cases"]
                        .as_array()
                        .cloned()
                        .unwrap_or_default()
                        .into_iter()
                        .map(move |c| (c.as_str().unwrap_or("").to_string(), what.clone()))
                })
                .collect::<Vec<_>>()
        })
        .unwrap_or_default();
    let ctx = Ctx {
        property: property.clone(),
        tier,
        seed,
        only,
        start: Instant::now(),
        cap_s: if tier == Tier::Quick { 420 } else { 3 * 3600 },
        phases: Default::default(),
        violations: Default::default(),
        found: AtomicBool::new(false),
        capped: AtomicBool::new(false),
        cases: AtomicU64::new(0),
        merged: Default::default(),
        samples: Default::default(),
        assumptions: Default::default(),
        extra: Default::default(),
        known,
        known_hit: Default::default(),
    };
    // Run on a big stack: some explorers recurse.
    let code = std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn_scoped(s, move || {
                let r = catch(|| f(&ctx));
                if let Err(e) = r {
                    if e.contains("/repo/crates/") {
                        // The code under test panicked while the explorer prepared a space.
                        ctx.report(0, 0, "setup".into(), e);
                        return ctx.finish();
                    }
                    eprintln!("checker failure: {e}");
                    return 2;
                }
                ctx.finish()
            })
            .unwrap()
            .join()
            .unwrap_or(2)
    });
    std::process::exit(code);
}

// ---------------------------------------------------------------------------
// Capturing what the code writes to standard output.

fn redirect_stdout() {
    unsafe {
        let fd = libc::memfd_create(c"mc-stdout".as_ptr(), 0);
        assert!(fd >= 0);
        assert!(libc::dup2(fd, 1) == 1);
        libc::close(fd);
    }
}

/// Everything written to (redirected) standard output by `f`.
pub fn grab_stdout<T>(f: impl FnOnce() -> T) -> (T, Vec<u8>) {
    unsafe {
        libc::ftruncate(1, 0);
        libc::lseek(1, 0, libc::SEEK_SET);
    }
    let r = f();
    use std::io::Write;
    let _ = std::io::stdout().flush();
    let n = unsafe { libc::lseek(1, 0, libc::SEEK_CUR) };
    let mut buf = vec![0u8; n.max(0) as usize];
    unsafe {
        libc::pread(1, buf.as_mut_ptr() as *mut _, buf.len(), 0);
    }
    (r, buf)
}

// ---------------------------------------------------------------------------
// Finite spaces as index ranges.

/// Number of sequences over an alphabet of `a` symbols of length `0..=max`.
pub fn seq_count(a: u64, max: u32) -> u64 {
    (0..=max).map(|k| a.pow(k)).sum()
}

/// The `i`-th sequence, shortest first, in lexicographic order within a length.
pub fn seq_at(mut i: u64, a: u64, max: u32) -> Vec<usize> {
    for k in 0..=max {
        let n = a.pow(k);
        if i < n {
            let mut v = vec![0usize; k as usize];
            for d in (0..k as usize).rev() {
                v[d] = (i % a) as usize;
                i /= a;
            }
            return v;
        }
        i -= n;
    }
    panic!("sequence index out of range");
}

/// Mixed-radix decoder.
pub struct Mix(pub u64);
impl Mix {
    pub fn pick(&mut self, n: u64) -> usize {
        let r = self.0 % n;
        self.0 /= n;
        r as usize
    }
    pub fn of<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.pick(v.len() as u64)]
    }
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !$c { return Err(format!($($t)*)); } };
}
