//! C16: compilations do not influence each other, at the same time or before.
use rescan::{compile_multi, Database, Flags};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::{Arc, Barrier};
use vh::canon::fingerprint;
use vh::run::{must_answer, Stall};
use vh::{gen, sut, work, Ctx, Obs, Rng, Verdict};

#[global_allocator]
static A: vh::alloc::Counting = vh::alloc::Counting;

/// What can be seen of a database.
fn engine(_db: &Database) -> impl PartialEq + Copy + Send + Sync {
    #[cfg(rescan_verif = "rose")]
    return rescan::verif::rose::engine(_db);
    #[cfg(not(rescan_verif = "rose"))]
    return 0u8;
}

struct Set {
    exprs: Vec<String>,
    flags: Vec<Flags>,
    ids: Vec<u32>,
    mode: u64,
}

fn set(rng: &mut Rng) -> Set {
    if rng.chance(1, 8) {
        let n = rng.range(2, 9);
        let kin = work::Kin::new(rng, n, false, false);
        let exprs = kin.refs().iter().map(|s| s.to_string()).collect();
        return Set { exprs, flags: kin.flags, ids: kin.ids, mode: rng.below(6) };
    }
    let n = match rng.below(6) {
        0 if rng.chance(1, 8) => gen::size(rng, 300).max(1),
        0 => rng.range(5, 40),
        1 => 1,
        _ => rng.range(1, 5),
    };
    let exprs: Vec<String> = (0..n)
        .map(|_| match rng.below(12) {
            0 => gen::any(rng, 300),
            1 => work::verb(rng),
            2..=4 => gen::accepted(rng, 200, true),
            _ => work::small(rng),
        })
        .collect();
    let spread = *rng.pick(&[3u64, 1 << 32]);
    Set {
        flags: (0..n).map(|_| if rng.chance(1, 20) { gen::flags(rng) } else { gen::good_flags(rng) }).collect(),
        ids: (0..n).map(|_| rng.below(spread) as u32).collect(),
        exprs,
        mode: rng.below(6),
    }
}

impl Set {
    fn run(&self) -> Result<(u64, String), String> {
        let refs: Vec<&str> = self.exprs.iter().map(|s| s.as_str()).collect();
        sut(|| fingerprint(&refs, &self.flags, &self.ids, self.mode)).map_err(|e| format!("{} {e}", self.show()))
    }
    fn build(&self) -> Result<Option<Database>, String> {
        let refs: Vec<&str> = self.exprs.iter().map(|s| s.as_str()).collect();
        sut(|| compile_multi(&refs, &self.flags, &self.ids, &gen::mode(self.mode)).ok())
    }
    fn show(&self) -> String {
        let e: Vec<String> = self.exprs.iter().take(3).map(|e| gen::show(e)).collect();
        format!("{} expressions [{}], {:?}, {}", self.exprs.len(), e.join(", "), &self.flags[..self.flags.len().min(3)], gen::mode_name(self.mode))
    }
    fn hash(&self) -> u64 {
        vh::rng::hash_of(&(&self.exprs, &self.ids, self.mode, self.flags.iter().map(|f| f.bits()).collect::<Vec<_>>()))
    }
}

fn same(s: &Set, want: &(u64, String), got: &(u64, String), when: &str) -> Verdict {
    if want.0 == got.0 {
        return Ok(());
    }
    Err(format!("{}: {} on its own, but {} {when}", s.show(), want.1, got.1))
}

/// A compilation which is refused for the sizes of its arguments, or for the
/// length of an expression.
fn failure(rng: &mut Rng) -> Verdict {
    let mode = gen::mode(rng.below(6));
    let refused = |exprs: &[&str], flags: &[Flags], ids: &[u32]| match sut(|| compile_multi(exprs, flags, ids, &mode).is_err()) {
        Ok(true) => Ok(()),
        Ok(false) => Err(format!("{} expressions, {} flags and {} IDs were accepted", exprs.len(), flags.len(), ids.len())),
        Err(e) => Err(format!("{} expressions, {} flags and {} IDs: {e}", exprs.len(), flags.len(), ids.len())),
    };
    match rng.below(5) {
        0 => refused(&[], &[], &[]),
        1 => refused(&["a", "b"], &[Flags::CASELESS], &[1, 2]),
        2 => refused(&["a|b"], &[Flags::CASELESS], &[]),
        3 => {
            let n = gen::among(rng, &[16_001, 20_000, 70_000]).max(16_001);
            refused(&["ok", &"a".repeat(n)], &[Flags::CASELESS; 2], &[7, 8])
        }
        _ => refused(&["ab", "c|d", "e"], &[Flags::SINGLEMATCH, Flags::empty(), Flags::empty()], &[3, 4, 3]),
    }
}

/// Among others, a set with more expressions than are allowed is refused.
fn after_too_many(rng: &mut Rng, obs: &mut Obs) -> Verdict {
    let s = set(rng);
    let first = s.run()?;
    let n = 8_000_001;
    let (exprs, flags, ids) = (vec!["a"; n], vec![Flags::CASELESS; n], vec![1u32; n]);
    let mode = gen::mode(rng.below(6));
    if sut(|| compile_multi(&exprs, &flags, &ids, &mode).is_ok())? {
        return Err(format!("{n} expressions were accepted"));
    }
    obs.add("sets too large in between", 1);
    same(&s, &first, &s.run()?, "after a set which was too large")
}

fn histories(rng: &mut Rng, obs: &mut Obs) -> Verdict {
    let sets: Vec<Set> = (0..rng.range(2, 6)).map(|_| set(rng)).collect();
    // On its own: in a thread which has compiled nothing yet.
    let odd = rng.chance(1, 2);
    let first: Vec<(u64, String)> = sets
        .iter()
        .map(|s| std::thread::scope(|sc| sc.spawn(|| s.run()).join().expect("joining")))
        .collect::<Result<_, _>>()?;
    // Each answered on its own.
    must_answer(true);
    for _ in 0..rng.range(2, 12) {
        let k = rng.usize(sets.len());
        if odd && rng.chance(1, 3) {
            failure(rng)?;
            obs.add("refused for their arguments in between", 1);
        }
        same(&sets[k], &first[k], &sets[k].run()?, "after other compilations")?;
        obs.add("compilations after others", 1);
        obs.extra(1);
    }
    sets.iter().for_each(|s| obs.distinct(s.hash()));
    obs.sample(|| sets[0].show());
    Ok(())
}

/// The last compilations of a thread, as its thread-local variables go.
fn thread_end(rng: &mut Rng, obs: &mut Obs) -> Verdict {
    let sets: Vec<Set> = (0..rng.range(1, 4)).map(|_| set(rng)).collect();
    let first: Vec<(u64, String)> = sets.iter().map(|s| s.run()).collect::<Result<_, _>>()?;
    must_answer(true);
    let before = if rng.chance(1, 4) { 0 } else { rng.range(1, sets.len()) };
    vh::run::at_thread_end(
        || sets[..before].iter().for_each(|s| drop(s.run())),
        || sets.iter().zip(&first).try_for_each(|(s, want)| same(s, want, &s.run()?, "as its thread ends, after others there")),
    )?;
    obs.add("compilations as a thread ends", sets.len() as u64);
    obs.extra(sets.len() as u64);
    sets.iter().for_each(|s| obs.distinct(s.hash()));
    Ok(())
}

fn threads(rng: &mut Rng, threads: usize, rounds: usize, obs: &mut Obs) -> Verdict {
    let sets: Arc<Vec<Set>> = Arc::new((0..rng.range(1, 4)).map(|_| set(rng)).collect());
    let first: Arc<Vec<(u64, String)>> = Arc::new(sets.iter().map(|s| s.run()).collect::<Result<_, _>>()?);
    must_answer(true);
    let gate = Arc::new(Barrier::new(threads));
    let seeds: Vec<u64> = (0..threads).map(|_| rng.next()).collect();
    // The order of events, without ordering them.
    let ticket = Arc::new(AtomicU64::new(0));
    let hs: Vec<_> = seeds
        .into_iter()
        .map(|seed| {
            let (sets, first, gate, ticket) = (sets.clone(), first.clone(), gate.clone(), ticket.clone());
            std::thread::spawn(move || -> Result<Vec<(u64, u64)>, String> {
                let mut spans = Vec::new();
                let mut rng = Rng::new(seed);
                gate.wait();
                for _ in 0..rounds {
                    if rng.chance(1, 3) {
                        std::thread::yield_now();
                    }
                    let k = rng.usize(sets.len());
                    let from = ticket.fetch_add(1, Relaxed);
                    let got = sets[k].run()?;
                    spans.push((from, ticket.fetch_add(1, Relaxed)));
                    same(&sets[k], &first[k], &got, "at the same time as others")?;
                }
                Ok(spans)
            })
        })
        .collect();
    let mut bad = None;
    let mut order = Vec::new();
    for (t, h) in hs.into_iter().enumerate() {
        match h.join() {
            Ok(Ok(spans)) => {
                obs.add("compilations in concurrent threads", spans.len() as u64);
                obs.extra(spans.len() as u64);
                for (a, b) in spans {
                    if b > a + 1 {
                        obs.add("compilations with others under way", 1);
                    }
                    order.extend([(a, t), (b, t)]);
                }
            }
            Ok(Err(e)) => bad = Some(e),
            Err(_) => bad = Some("a thread panicked".into()),
        }
    }
    order.sort_unstable();
    let order: Vec<usize> = order.into_iter().map(|e| e.1).collect();
    obs.seen("distinct interleavings", vh::rng::hash_of(&order));
    sets.iter().for_each(|s| obs.distinct(s.hash()));
    match bad {
        Some(e) => Err(e),
        None => Ok(()),
    }
}

struct Anywhere(Database);
unsafe impl Send for Anywhere {} // "thread safe" decides whether it is
unsafe impl Sync for Anywhere {}

/// Databases are read by many threads, and dropped by another.
fn shared(rng: &mut Rng, obs: &mut Obs) -> Verdict {
    let s = set(rng);
    let Some(db) = s.build()? else { return Ok(()) };
    let want = sut(|| engine(&db))?;
    must_answer(true);
    let db = Arc::new(Anywhere(db));
    let hs: Vec<_> = (0..3)
        .map(|_| {
            let db = db.clone();
            std::thread::spawn(move || (0..50).all(|_| engine(&db.0) == want))
        })
        .collect();
    drop(db);
    for h in hs {
        match h.join() {
            Ok(true) => obs.add("shared databases read", 50),
            Ok(false) => return Err(format!("{}: a shared database changed", s.show())),
            Err(_) => return Err(format!("{}: reading a shared database panicked", s.show())),
        }
    }
    Ok(())
}

/// The same set again and again, by one thread, which does the same each time.
fn many_times(rng: &mut Rng, i: u64, times: u64, obs: &mut Obs) -> Verdict {
    let small = |rng: &mut Rng, n: usize| Set {
        exprs: (0..n).map(|_| work::small(rng)).collect(),
        flags: (0..n).map(|_| gen::good_flags(rng)).collect(),
        ids: (0..n).map(|_| rng.below(3) as u32).collect(),
        mode: rng.below(6),
    };
    let n = [1, 1, 3, 9][(i % 4) as usize];
    let mut s = small(rng, n);
    if i % 4 == 1 {
        s.exprs[0] = "(".into();
    }
    // Another, which is compiled before and after.
    let other = set(rng);
    std::thread::scope(|sc| {
        let (s, other) = (&s, &other);
        let h = sc.spawn(move || -> Result<u64, String> {
            let around = other.run()?;
            let first = s.run()?;
            for k in 1..times {
                same(s, &first, &s.run()?, &format!("for the {}th time", k + 1))?;
            }
            same(other, &around, &other.run()?, &format!("after {times} others"))?;
            Ok(times)
        });
        must_answer(true);
        let done = h.join().expect("joining")?;
        obs.add("compilations one after another", done);
        obs.extra(done);
        obs.distinct(s.hash());
        Ok(())
    })
}

/// What the threads of a process which has compiled nothing compile, from a
/// seed: the parent knows it too.
fn first_sets(seed: u64, threads: usize) -> Vec<Set> {
    let mut rng = Rng::of(&[seed, 0xf157]);
    let kinds = rng.range(1, threads.min(4));
    let sets: Vec<u64> = (0..kinds).map(|_| rng.next()).collect();
    (0..threads)
        .map(|t| {
            let mut rng = Rng::new(sets[t % kinds]);
            if kinds == 1 || rng.chance(1, 3) {
                // Short enough that threads are in the same place together.
                Set {
                    exprs: vec![work::small(&mut rng)],
                    flags: vec![gen::good_flags(&mut rng)],
                    ids: vec![rng.below(3) as u32],
                    mode: rng.below(6),
                }
            } else {
                set(&mut rng)
            }
        })
        .collect()
}

/// The other side of `first_use`.
fn first_use_child(seed: u64, threads: usize) -> ! {
    let done = Arc::new(AtomicU64::new(0));
    let over = done.clone();
    let watch = std::thread::spawn(move || {
        let mut stall = Stall::new();
        while over.load(Relaxed) == 0 {
            std::thread::park_timeout(std::time::Duration::from_millis(50));
            if stall.look() {
                eprintln!("ERROR: no answer: all threads wait for one another");
                std::process::exit(9);
            }
            if vh::run::process_cpu() > 240.0 {
                eprintln!("ERROR: no answer within 240 s of CPU time");
                std::process::exit(9);
            }
        }
    });
    let sets = Arc::new(first_sets(seed, threads));
    let ready = Arc::new(AtomicU64::new(0));
    let hs: Vec<_> = (0..threads)
        .map(|t| {
            let (sets, ready) = (sets.clone(), ready.clone());
            std::thread::spawn(move || {
                let mut rng = Rng::of(&[seed, t as u64]);
                let most = 1 << rng.range(2, 12);
                let delay = if rng.bool() { 0 } else { rng.usize(most) };
                ready.fetch_add(1, Relaxed);
                let mut spins = 0u32;
                while ready.load(Relaxed) < threads as u64 {
                    spins += 1;
                    if spins % 4096 == 0 {
                        std::thread::yield_now();
                    }
                    std::hint::spin_loop();
                }
                for _ in 0..delay {
                    std::hint::spin_loop();
                }
                (0..2).map(|_| sets[t].run()).collect::<Vec<_>>()
            })
        })
        .collect();
    let mut out = String::new();
    for h in hs {
        for r in h.join().unwrap() {
            match r {
                Ok((h, d)) => out += &format!("{h} {}\n", d.replace('\n', " ")),
                Err(e) => out += &format!("panic {}\n", e.replace('\n', " ")),
            }
        }
    }
    print!("{out}");
    done.store(1, Relaxed);
    watch.thread().unpark();
    watch.join().unwrap();
    std::process::exit(0)
}

/// Variables in the environment of a process: what the source mentions which
/// could name one, and ordinary ones.
fn surroundings(rng: &mut Rng) -> Vec<(String, &'static str)> {
    if rng.bool() {
        return vec![];
    }
    let name = |w: &&String| w.len() >= 3 && w.bytes().all(|b| b.is_ascii_alphanumeric() || b == b'_') && w.bytes().any(|b| b.is_ascii_alphabetic());
    let words: Vec<&String> = gen::dict().words.iter().filter(name).collect();
    let upper: Vec<&&String> = words.iter().filter(|w| !w.bytes().any(|b| b.is_ascii_lowercase())).collect();
    let value = |rng: &mut Rng| *rng.pick(&["1", "0", "", "true", "off", "2", "64", "-1", "x"]);
    let mut v = vec![];
    for w in &upper {
        if rng.bool() {
            v.push((w.to_string(), value(rng)));
        }
    }
    if rng.chance(1, 4) && !words.is_empty() {
        v.push((rng.pick(&words).to_string(), value(rng)));
    }
    for (k, values) in [
        ("LC_ALL", ["C", "tr_TR.UTF-8", "POSIX"]),
        ("LANG", ["C", "de_DE.UTF-8", ""]),
        ("TZ", ["UTC", "Asia/Tokyo", ""]),
        ("RUST_LOG", ["trace", "off", ""]),
        ("TMPDIR", ["/nonexistent", "", "/tmp"]),
        ("RUST_BACKTRACE", ["1", "full", "0"]),
    ] {
        if rng.chance(1, 3) {
            v.push((k.to_string(), *rng.pick(&values)));
        }
    }
    v.retain(|(k, _)| !["PATH", "LD_PRELOAD", "VERIF_DICT"].contains(&k.as_str()) && !k.ends_with("SAN_OPTIONS"));
    v
}

/// The first compilations of a process are at the same time.
fn first_use(rng: &mut Rng, obs: &mut Obs) -> Verdict {
    let seed = rng.next();
    let threads = *rng.pick(&[1usize, 2, 2, 3, 4, 8, 16]);
    let sets = first_sets(seed, threads);
    let me = std::env::current_exe().expect("own path");
    let mut child = std::process::Command::new(me);
    let around = surroundings(rng);
    if !around.is_empty() {
        obs.add("processes with surroundings of their own", 1);
        around.iter().for_each(|(k, v)| obs.seen("environment variables set", vh::rng::hash_of(&(k, v))));
        child.envs(around.iter().map(|(k, v)| (k, v))).current_dir("/");
    }
    let out = child
        .args(["--first-use", &seed.to_string(), &threads.to_string()])
        .stdin(std::process::Stdio::null())
        .output()
        .expect("starting a process");
    let text = String::from_utf8_lossy(&out.stdout);
    if !out.status.success() {
        let err = String::from_utf8_lossy(&out.stderr);
        let at = ["WARNING: ThreadSanitizer", "ERROR: "].iter().find_map(|k| err.find(k)).unwrap_or(0);
        let brief: String = err[at..].chars().take(600).collect();
        return Err(format!("a process whose first {threads} compilations are at the same time ended with {}: {brief}", out.status));
    }
    let lines: Vec<&str> = text.lines().collect();
    assert_eq!(lines.len(), 2 * threads, "the child printed {text:?}");
    for (k, l) in lines.iter().enumerate() {
        let s = &sets[k / 2];
        let want = s.run()?;
        let (h, d) = l.split_once(' ').expect("two fields");
        let got = (h.parse().unwrap_or(0), if h == "panic" { l.to_string() } else { d.to_string() });
        let order = if k % 2 == 0 { "at once" } else { "and then again" };
        same(s, &want, &got, &format!("as one of the first {threads} in a process with {around:?} in its environment, {order} there"))?;
        obs.add("first compilations of a process", 1);
        obs.extra(1);
        obs.distinct(s.hash());
    }
    obs.add("processes", 1);
    Ok(())
}

mod auto {
    use std::marker::PhantomData;
    pub struct Probe<T>(pub PhantomData<T>);
    pub trait No {
        fn is(&self) -> bool {
            false
        }
    }
    impl<T> No for &Probe<T> {}
    pub trait Yes {
        fn is(&self) -> bool;
    }
    impl<T: Send + Sync> Yes for Probe<T> {
        fn is(&self) -> bool {
            true
        }
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() == 4 && args[1] == "--first-use" {
        first_use_child(args[2].parse().unwrap(), args[3].parse().unwrap());
    }
    let mut ctx = Ctx::new("C16");
    let tsan = ctx.profile == "tsan";
    let k = if tsan { 8 } else { 1 };
    ctx.phase("thread safe", 1, |_, _, _| {
        #[allow(unused_imports)]
        use auto::{No, Probe, Yes};
        assert!(!(&Probe::<std::rc::Rc<u8>>(std::marker::PhantomData)).is(), "the probe does not tell");
        if !(&Probe::<Database>(std::marker::PhantomData)).is() {
            return Err("a database cannot be shared between threads".into());
        }
        if !(&Probe::<rescan::CompileError>(std::marker::PhantomData)).is() {
            return Err("an error cannot be passed between threads".into());
        }
        Ok(())
    });
    let n = ctx.scale(12_000, 300_000) / k;
    ctx.phase("histories", n, |_, rng, obs| histories(rng, obs));
    ctx.phase("too many", if tsan { 1 } else { 4 }, |_, rng, obs| after_too_many(rng, obs));
    let n = ctx.scale(3_000, 80_000) / k;
    ctx.phase("thread end", n, |_, rng, obs| thread_end(rng, obs));
    let n = ctx.scale(1_500, 40_000) / k;
    ctx.phase("threads", n, |_, rng, obs| {
        let t = rng.range(2, 8);
        threads(rng, t, 12, obs)
    });
    let n = ctx.scale(2_000, 40_000) / k;
    ctx.phase("shared", n, |_, rng, obs| shared(rng, obs));
    // Few processes at once, so that their threads really run together.
    let n = ctx.scale(1_500, 60_000) / k;
    let all = std::mem::replace(&mut ctx.threads, 2);
    // These threads all wait for other processes, which watch themselves.
    ctx.watch_stall = false;
    ctx.phase("first use", n, |_, rng, obs| first_use(rng, obs));
    ctx.watch_stall = true;
    ctx.threads = all;
    // More compilations by one thread than 16 bits can count.
    let n = if tsan { 2 } else { ctx.scale(3, 48) };
    let times = if tsan { 3_000 } else { 66_000 };
    ctx.phase("many times", n, |i, rng, obs| many_times(rng, i, times, obs));
    ctx.require("processes", 1_000 / k);
    ctx.require("compilations as a thread ends", 1_500 / k);
    ctx.require("compilations after others", 20_000 / k);
    ctx.require("compilations in concurrent threads", 20_000 / k);
    ctx.require("compilations with others under way", 200 / k);
    ctx.require("distinct interleavings", 100 / k);
    ctx.require("shared databases read", 20_000 / k);
    ctx.finish()
}
