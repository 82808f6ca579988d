//! Runs workloads, watches the calls into the code under test, and reports.

use crate::{rng, Rng};
use std::any::Any;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;

/// What became of a case: held, or violated with a description.
pub type Verdict = Result<(), String>;

thread_local! {
    static SLOT: std::cell::Cell<usize> = const { std::cell::Cell::new(SLOTS) };
    static IN_SUT: RefCell<bool> = const { RefCell::new(false) };
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

fn payload(p: Box<dyn Any + Send>) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "unknown panic".to_string()
    }
}

/// Which workers do what must answer for this property, whatever the rest.
static BLAME: [AtomicBool; SLOTS] = [const { AtomicBool::new(false) }; SLOTS];

/// From here on (until the case ends, or this is taken back) it violates the
/// property if there is no answer.
pub fn must_answer(yes: bool) {
    let slot = SLOT.with(|s| s.get());
    if slot < SLOTS {
        BLAME[slot].store(yes, Ordering::Relaxed);
    }
}

/// Notices when all threads of the process wait for one another.
pub struct Stall {
    samples: u32,
    used: f64,
    own: f64,
    at: std::time::Instant,
}

/// Seconds in a row without any thread running before a process has stalled.
const STALL: u32 = 30;

impl Stall {
    #[allow(clippy::new_without_default)]
    pub fn new() -> Self {
        Stall { samples: 0, used: cpu(PROCESS), own: cpu(THREAD), at: std::time::Instant::now() }
    }
    /// To be called often by a thread which does nothing else.
    pub fn look(&mut self) -> bool {
        if self.at.elapsed().as_secs() < 1 {
            return false;
        }
        self.at = std::time::Instant::now();
        let (used, own) = (cpu(PROCESS), cpu(THREAD));
        let others = (used - self.used) - (own - self.own);
        (self.used, self.own) = (used, own);
        // A thread which waits for a core is not waiting for another thread.
        let asleep = || {
            let Ok(tasks) = std::fs::read_dir("/proc/self/task") else { return false };
            let awake = tasks.flatten().filter(|t| {
                std::fs::read_to_string(t.path().join("stat"))
                    .ok()
                    .and_then(|s| Some(s.rsplit_once(')')?.1.trim_start().chars().next()? != 'S'))
                    .unwrap_or(false)
            });
            // This thread is.
            awake.count() <= 1
        };
        self.samples = if others < 0.002 && asleep() { self.samples + 1 } else { 0 };
        self.samples >= STALL
    }
}

/// Calls the code under test; a panic there is a description of a violation.
pub fn sut<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    let before = IN_SUT.with(|v| v.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    IN_SUT.with(|v| *v.borrow_mut() = before);
    r.map_err(|p| {
        let m = payload(p);
        let at = LAST_PANIC.with(|l| l.borrow().clone());
        format!("panicked: {m} {at}")
    })
}

thread_local! {
    static AT_END: RefCell<Option<AtEnd>> = const { RefCell::new(None) };
}

struct AtEnd(Option<Box<dyn FnOnce()>>);

impl Drop for AtEnd {
    fn drop(&mut self) {
        if let Some(f) = self.0.take() {
            f();
        }
    }
}

/// Has a thread run `before`, and `then` as it ends: when its thread-local
/// variables are destroyed, those first which were first used in `before`.
pub fn at_thread_end<R: Send>(before: impl FnOnce() + Send, then: impl FnOnce() -> R + Send) -> R {
    let slot = Mutex::new(None);
    std::thread::scope(|s| {
        let slot = &slot;
        let h = std::thread::Builder::new().stack_size(8 << 20).spawn_scoped(s, move || {
            // What is used by then must outlast it.
            LAST_PANIC.with(|_| ());
            #[cfg(rescan_verif = "trace")]
            rescan::verif::trace::take();
            let job: Box<dyn FnOnce() + '_> = Box::new(move || *slot.lock().unwrap() = Some(then()));
            // It has run when this thread is joined.
            let job: Box<dyn FnOnce()> = unsafe { std::mem::transmute(job) };
            AT_END.with(|e| *e.borrow_mut() = Some(AtEnd(Some(job))));
            before();
        });
        h.expect("starting a thread").join().expect("joining");
    });
    slot.into_inner().unwrap().expect("nothing was done at the end of a thread")
}

/// Whether a call panics, for the documented panics.
pub fn panics<R>(f: impl FnOnce() -> R) -> bool {
    sut(f).is_err()
}

/// What a worker observed.
#[derive(Default)]
pub struct Obs {
    pub counts: BTreeMap<&'static str, u64>,
    pub max: BTreeMap<&'static str, u64>,
    distinct: HashSet<u64>,
    seen: BTreeMap<&'static str, HashSet<u64>>,
    samples: Vec<String>,
    want_samples: usize,
    evaluations: u64,
}

impl Obs {
    /// Counts `n` observed events.
    pub fn add(&mut self, what: &'static str, n: u64) {
        *self.counts.entry(what).or_insert(0) += n;
    }
    pub fn max(&mut self, what: &'static str, n: u64) {
        let e = self.max.entry(what).or_insert(0);
        *e = (*e).max(n);
    }
    /// Notes a non-trivial case, by its hash.
    pub fn distinct(&mut self, h: u64) {
        if self.distinct.len() < 3_000_000 {
            self.distinct.insert(h);
        }
    }
    /// Notes one of a kind of event, by its hash: different ones are counted.
    pub fn seen(&mut self, what: &'static str, h: u64) {
        let set = self.seen.entry(what).or_default();
        if set.len() < 1_000_000 {
            set.insert(h);
        }
    }
    pub fn distinct_of<T: std::hash::Hash + ?Sized>(&mut self, t: &T) {
        self.distinct(rng::hash_of(t));
    }
    pub fn distinct_count(&self) -> usize {
        self.distinct.len()
    }
    /// Keeps a few cases, written out.
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < self.want_samples {
            let s: String = f().chars().take(400).collect();
            self.samples.push(s);
        }
    }
    /// More evaluations than the one the runner counts for a case.
    pub fn extra(&mut self, n: u64) {
        self.evaluations += n;
    }
}

struct Violation {
    phase: String,
    idx: u64,
    what: String,
}

pub struct Ctx {
    pub property: String,
    pub seed: u64,
    pub thorough: bool,
    pub profile: String,
    pub threads: usize,
    only: Option<(String, u64)>,
    out: Option<String>,
    progress: Option<Progress>,
    phases: Vec<(String, u64)>,
    obs: Obs,
    violations: Vec<Violation>,
    harness_errors: Vec<String>,
    /// CPU seconds a case may take.
    pub cpu_limit: f64,
    /// Taking longer is a violation of this property (else it is no answer).
    pub cpu_is_violation: bool,
    /// Whether the threads of this process never all wait for another process.
    pub watch_stall: bool,
    pub mem_cap: i64,
    pub stack: usize,
}

/// Where each worker is, in a file which survives a crash.
#[derive(Clone, Copy)]
struct Progress(*mut u64);
unsafe impl Send for Progress {}
unsafe impl Sync for Progress {}

const SLOTS: usize = 64;
const PROCESS: i32 = 2;
const THREAD: i32 = 3;

/// How many times the least number of cases the quick checks try.
const QUICK: u64 = 4;

#[repr(C)]
#[derive(Clone, Copy)]
struct Timespec {
    sec: i64,
    nsec: i64,
}

extern "C" {
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn pthread_self() -> usize;
    fn pthread_getcpuclockid(t: usize, c: *mut i32) -> i32;
    fn clock_gettime(c: i32, t: *mut Timespec) -> i32;
}

fn cpu(clock: i32) -> f64 {
    let mut t = Timespec { sec: 0, nsec: 0 };
    if unsafe { clock_gettime(clock, &mut t) } != 0 {
        return 0.0;
    }
    t.sec as f64 + t.nsec as f64 / 1e9
}

/// Seconds of CPU time of this process so far.
pub fn process_cpu() -> f64 {
    cpu(PROCESS)
}

/// Seconds of CPU time of this thread so far.
pub fn thread_cpu() -> f64 {
    cpu(THREAD)
}

fn cpu_ns(clock: i32) -> u64 {
    (cpu(clock) * 1e9) as u64
}

impl Ctx {
    /// Reads the command line: `--seed N --tier T --profile P --out FILE
    /// --progress FILE --only PHASE:N`.
    pub fn new(property: &str) -> Self {
        let args: Vec<String> = std::env::args().collect();
        let get = |k: &str| {
            args.iter()
                .position(|a| a == k)
                .and_then(|i| args.get(i + 1))
                .cloned()
        };
        let prev = std::panic::take_hook();
        std::panic::set_hook(Box::new(move |info| {
            let quiet = IN_SUT.with(|v| *v.borrow());
            if quiet {
                let at = info
                    .location()
                    .map(|l| format!("at {}:{}", l.file(), l.line()))
                    .unwrap_or_default();
                LAST_PANIC.with(|l| *l.borrow_mut() = at);
            } else {
                prev(info);
            }
        }));
        let progress = get("--progress").and_then(|p| {
            use std::os::fd::AsRawFd;
            let f = std::fs::OpenOptions::new()
                .read(true)
                .write(true)
                .create(true)
                .truncate(true)
                .open(p)
                .ok()?;
            f.set_len((SLOTS * 16) as u64).ok()?;
            let p = unsafe { mmap(std::ptr::null_mut(), SLOTS * 16, 3, 1, f.as_raw_fd(), 0) };
            if p as isize == -1 {
                None
            } else {
                Some(Progress(p as *mut u64))
            }
        });
        Ctx {
            property: property.to_string(),
            seed: get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1),
            thorough: get("--tier").as_deref() == Some("thorough"),
            profile: get("--profile").unwrap_or_else(|| "checked".into()),
            threads: get("--threads")
                .and_then(|s| s.parse().ok())
                .unwrap_or_else(|| std::thread::available_parallelism().map_or(4, |n| n.get()).min(SLOTS)),
            only: get("--only").and_then(|s| {
                let (a, b) = s.rsplit_once(':')?;
                Some((a.to_string(), b.parse().ok()?))
            }),
            out: get("--out"),
            progress,
            phases: Vec::new(),
            obs: Obs::default(),
            violations: Vec::new(),
            harness_errors: Vec::new(),
            cpu_limit: 60.0,
            cpu_is_violation: false,
            watch_stall: true,
            mem_cap: 8 << 30,
            stack: 8 << 20,
        }
    }

    /// `quick` cases, or `thorough` ones.
    pub fn scale(&self, quick: u64, thorough: u64) -> u64 {
        if self.thorough {
            thorough.max(quick * QUICK)
        } else {
            quick * QUICK
        }
    }

    /// Runs the cases `0..n` of a phase on all cores.
    pub fn phase<F>(&mut self, name: &str, n: u64, f: F)
    where
        F: Fn(u64, &mut Rng, &mut Obs) -> Verdict + Sync,
    {
        let phase_no = self.phases.len() as u64 + 1;
        let (lo, hi) = match &self.only {
            Some((p, i)) if p == name || *p == format!("#{phase_no}") => (*i, *i + 1),
            Some(_) => {
                self.phases.push((name.to_string(), 0));
                return;
            }
            None => (0, n),
        };
        let threads = if hi - lo < self.threads as u64 {
            (hi - lo).max(1) as usize
        } else {
            self.threads
        };
        let next = AtomicU64::new(lo);
        let stop = AtomicBool::new(false);
        let done = AtomicU64::new(0);
        let seed = self.seed;
        let name_hash = rng::hash_of(name);
        let found: Mutex<Vec<(u64, String)>> = Mutex::new(Vec::new());
        let errors: Mutex<Vec<String>> = Mutex::new(Vec::new());
        let merged: Mutex<Obs> = Mutex::new(std::mem::take(&mut self.obs));
        let clocks: Vec<(AtomicU64, AtomicU64, AtomicU64)> = (0..threads)
            .map(|_| (AtomicU64::new(u64::MAX), AtomicU64::new(0), AtomicU64::new(0)))
            .collect();
        let finished = AtomicU64::new(0);
        let progress = self.progress;
        let mem_cap = self.mem_cap;
        let chunk = ((hi - lo) / (threads as u64 * 64)).clamp(1, 256);
        let samples = 2usize;
        let slow: Mutex<Option<(usize, u64, String)>> = Mutex::new(None);
        std::thread::scope(|s| {
            for t in 0..threads {
                let (next, stop, done, found, errors, merged, clocks, f, finished) = (
                    &next, &stop, &done, &found, &errors, &merged, &clocks, &f, &finished,
                );
                std::thread::Builder::new()
                    .stack_size(self.stack)
                    .spawn_scoped(s, move || {
                        crate::alloc::set_cap(mem_cap);
                        SLOT.with(|s| s.set(t));
                        let mut clock = 0;
                        unsafe { pthread_getcpuclockid(pthread_self(), &mut clock) };
                        let mut obs = Obs {
                            want_samples: if t == 0 { samples } else { 0 },
                            ..Obs::default()
                        };
                        'work: loop {
                            let a = next.fetch_add(chunk, Ordering::Relaxed);
                            if a >= hi {
                                break;
                            }
                            for i in a..(a + chunk).min(hi) {
                                if stop.load(Ordering::Relaxed) {
                                    break 'work;
                                }
                                if let Some(p) = progress {
                                    unsafe {
                                        p.0.add(t * 2 + 1).write_volatile(i);
                                        p.0.add(t * 2).write_volatile(phase_no);
                                    }
                                }
                                clocks[t].1.store(cpu_ns(clock), Ordering::Relaxed);
                                clocks[t].2.store(i, Ordering::Relaxed);
                                clocks[t].0.store(clock as u32 as u64, Ordering::Release);
                                let mut rng = Rng::of(&[seed, name_hash, i]);
                                let r = catch_unwind(AssertUnwindSafe(|| f(i, &mut rng, &mut obs)));
                                obs.evaluations += 1;
                                BLAME[t].store(false, Ordering::Relaxed);
                                clocks[t].0.store(u64::MAX, Ordering::Release);
                                done.fetch_add(1, Ordering::Relaxed);
                                match r {
                                    Ok(Ok(())) => {}
                                    Ok(Err(w)) => {
                                        let mut v = found.lock().unwrap();
                                        v.push((i, w));
                                        if v.len() >= 5 {
                                            stop.store(true, Ordering::Relaxed);
                                        }
                                    }
                                    Err(p) => {
                                        errors.lock().unwrap().push(format!(
                                            "case {i}: harness panicked: {}",
                                            payload(p)
                                        ));
                                        stop.store(true, Ordering::Relaxed);
                                    }
                                }
                                if let Some(p) = progress {
                                    unsafe { p.0.add(t * 2).write_volatile(0) }
                                }
                            }
                        }
                        let mut m = merged.lock().unwrap();
                        for (k, v) in obs.counts {
                            *m.counts.entry(k).or_insert(0) += v;
                        }
                        for (k, v) in obs.max {
                            let e = m.max.entry(k).or_insert(0);
                            *e = (*e).max(v);
                        }
                        m.distinct.extend(obs.distinct);
                        for (k, v) in obs.seen {
                            m.seen.entry(k).or_default().extend(v);
                        }
                        m.samples.extend(obs.samples);
                        m.evaluations += obs.evaluations;
                        drop(m);
                        finished.fetch_add(1, Ordering::Release);
                    })
                    .expect("spawning a worker");
            }
            // Watch the CPU time each case takes, with the threads it starts, and
            // whether any thread runs at all.
            let limit = self.cpu_limit;
            let mut naps = 0u32;
            let mut stall = Stall::new();
            let (mut last, mut since) = ((0, 0), cpu(PROCESS));
            while finished.load(Ordering::Acquire) < threads as u64 {
                naps += 1;
                std::thread::sleep(std::time::Duration::from_millis(if naps < 100 { 2 } else { 50 }));
                let under_way = |t: usize| clocks[t].0.load(Ordering::Acquire) != u64::MAX;
                for (t, c) in clocks.iter().enumerate() {
                    let clock = c.0.load(Ordering::Acquire);
                    if clock != u64::MAX {
                        let case = c.2.load(Ordering::Relaxed);
                        let start = c.1.load(Ordering::Relaxed);
                        let now = cpu_ns(clock as u32 as i32);
                        if now > start
                            && (now - start) as f64 / 1e9 > limit
                            && c.0.load(Ordering::Acquire) == clock
                            && c.2.load(Ordering::Relaxed) == case
                            && c.1.load(Ordering::Relaxed) == start
                        {
                            let what = format!("no answer within {limit} s of CPU time");
                            *slow.lock().unwrap() = Some((t, case, what));
                        }
                    }
                }
                let progress = (done.load(Ordering::Relaxed), finished.load(Ordering::Relaxed));
                if std::mem::replace(&mut last, progress) != progress {
                    since = cpu(PROCESS);
                }
                let stalled = stall.look();
                let busy = cpu(PROCESS) - since > limit * 8.0;
                if stalled && self.watch_stall || busy {
                    let what = if stalled {
                        format!("no answer: for {STALL} s all threads have waited for one another")
                    } else {
                        format!("no answer within {} s of CPU time of all threads", limit * 8.0)
                    };
                    let blamed = |&t: &usize| BLAME[t].load(Ordering::Relaxed) && under_way(t);
                    if let Some(t) = (0..threads).find(blamed).or_else(|| (0..threads).find(|&t| under_way(t))) {
                        *slow.lock().unwrap() = Some((t, clocks[t].2.load(Ordering::Relaxed), what));
                    }
                }
                if slow.lock().unwrap().is_some() {
                    break;
                }
            }
            let stuck = slow.lock().unwrap().take();
            if let Some((t, i, what)) = stuck {
                // The worker cannot be stopped: report from here and leave.
                self.obs = std::mem::take(&mut *merged.lock().unwrap());
                self.phases.push((name.to_string(), done.load(Ordering::Relaxed)));
                if self.cpu_is_violation || BLAME[t].load(Ordering::Relaxed) {
                    self.violations.push(Violation {
                        phase: name.to_string(),
                        idx: i,
                        what,
                    });
                } else {
                    self.harness_errors.push(format!("{name}:{i}: {what}"));
                }
                self.report_and_exit();
            }
        });
        self.obs = merged.into_inner().unwrap();
        self.phases
            .push((name.to_string(), done.load(Ordering::Relaxed)));
        let mut found = found.into_inner().unwrap();
        found.sort();
        for (idx, what) in found {
            self.violations.push(Violation {
                phase: name.to_string(),
                idx,
                what,
            });
        }
        for e in errors.into_inner().unwrap() {
            self.harness_errors.push(format!("{name}: {e}"));
        }
        if !self.violations.is_empty() || !self.harness_errors.is_empty() {
            self.report_and_exit();
        }
    }

    /// Requires that an event was observed at least `n` times.
    pub fn require(&mut self, what: &'static str, n: u64) {
        if self.only.is_none() {
            let seen = self.obs.seen.get(what).map_or(0, |s| s.len() as u64);
            let got = self.obs.counts.get(what).copied().unwrap_or(seen);
            if got < n {
                self.harness_errors
                    .push(format!("observed {got} of {what}, expected at least {n}"));
            }
        }
    }

    fn report_and_exit(&mut self) -> ! {
        for (k, v) in std::mem::take(&mut self.obs.seen) {
            self.obs.add(k, v.len() as u64);
        }
        let mut o = String::from("{");
        let _ = write!(
            o,
            "\"property\":{},\"seed\":{},\"profile\":{},\"evaluations\":{},\"distinct\":{}",
            json(&self.property),
            self.seed,
            json(&self.profile),
            self.obs.evaluations,
            self.obs.distinct.len()
        );
        let map = |m: &BTreeMap<&'static str, u64>| {
            let v: Vec<String> = m.iter().map(|(k, v)| format!("{}:{}", json(k), v)).collect();
            format!("{{{}}}", v.join(","))
        };
        let _ = write!(o, ",\"counts\":{},\"max\":{}", map(&self.obs.counts), map(&self.obs.max));
        let v: Vec<String> = self
            .phases
            .iter()
            .map(|(n, k)| format!("[{},{}]", json(n), k))
            .collect();
        let _ = write!(o, ",\"phases\":[{}]", v.join(","));
        let v: Vec<String> = self.obs.samples.iter().map(|s| json(s)).collect();
        let _ = write!(o, ",\"samples\":[{}]", v.join(","));
        let v: Vec<String> = self
            .violations
            .iter()
            .map(|v| {
                format!(
                    "{{\"phase\":{},\"case\":{},\"what\":{}}}",
                    json(&v.phase),
                    v.idx,
                    json(&v.what)
                )
            })
            .collect();
        let _ = write!(o, ",\"violations\":[{}]", v.join(","));
        let v: Vec<String> = self.harness_errors.iter().map(|s| json(s)).collect();
        let _ = write!(o, ",\"errors\":[{}]}}", v.join(","));
        match &self.out {
            Some(p) => std::fs::write(p, &o).expect("writing the result"),
            None => println!("{o}"),
        }
        std::process::exit(if !self.violations.is_empty() {
            1
        } else if !self.harness_errors.is_empty() {
            3
        } else {
            0
        })
    }

    pub fn finish(mut self) -> ! {
        self.report_and_exit()
    }
}

pub fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
