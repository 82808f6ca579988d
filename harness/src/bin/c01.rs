//! C01: compilation always answers.
use rescan::{compile, compile_multi, Flags};
use vh::{gen, sut, work, Ctx, Obs, Rng, Verdict};

#[global_allocator]
static A: vh::alloc::Counting = vh::alloc::Counting;

fn one(expr: &str, flags: Flags, mode: u64, obs: &mut Obs) -> Verdict {
    let r = sut(|| match compile(expr, flags, &gen::mode(mode)) {
        Ok(db) => {
            drop(db);
            None
        }
        Err(e) => Some((e.to_string(), format!("{e:?}").len())),
    })
    .map_err(|e| format!("compile({}, {flags:?}, {}) {e}", gen::show(expr), gen::mode_name(mode)))?;
    match r {
        None => obs.add("accepted", 1),
        Some((text, _)) => {
            obs.add("refused", 1);
            if text.trim().is_empty() {
                return Err(format!("compile({}, {flags:?}) gave an empty error", gen::show(expr)));
            }
        }
    }
    obs.max("longest expression", expr.len() as u64);
    if work::interesting(expr) {
        obs.distinct(work::shape(expr, flags));
    }
    obs.sample(|| format!("{} {flags:?} {}", gen::show(expr), gen::mode_name(mode)));
    Ok(())
}

fn set(rng: &mut Rng, n: usize, obs: &mut Obs) -> Verdict {
    let exprs: Vec<String> = (0..n)
        .map(|_| if rng.chance(1, 50) { work::any(rng) } else { work::small(rng) })
        .collect();
    let refs: Vec<&str> = exprs.iter().map(|s| s.as_str()).collect();
    let cut = |rng: &mut Rng| match rng.below(6) {
        0 => rng.usize(n + 3),
        _ => n,
    };
    let (a, b) = (cut(rng), cut(rng));
    let flags: Vec<Flags> = (0..a).map(|_| gen::flags(rng)).collect();
    let ids: Vec<u32> = (0..b).map(|_| gen::id(rng)).collect();
    let m = rng.below(6);
    let r = sut(|| match compile_multi(&refs, &flags, &ids, &gen::mode(m)) {
        Ok(_) => None,
        Err(e) => Some((e.to_string(), format!("{e:?}"))),
    })
    .map_err(|e| {
        format!("compile_multi of {n} expressions, {a} flags, {b} ids {e}: {:?}", &refs[..n.min(5)])
    })?;
    obs.add(if r.is_some() { "sets refused" } else { "sets accepted" }, 1);
    obs.max("largest set", n as u64);
    obs.distinct_of(&(exprs, ids));
    Ok(())
}

/// Nested groups of several forms.
fn nested(form: u64, depth: usize) -> String {
    let d = depth;
    match form {
        0 => "(".repeat(d) + &")".repeat(d),
        1 => "(|".repeat(d) + &")".repeat(d),
        2 => "(".repeat(d) + &"|)".repeat(d),
        3 => "(a".repeat(d) + &")".repeat(d),
        _ => "(a|".repeat(d) + &")".repeat(d),
    }
}

const SPAWNED: usize = 2 << 20;

/// The other side of "spawned thread".
fn nested_child(form: u64, depth: usize) -> ! {
    let h = std::thread::Builder::new().stack_size(SPAWNED).spawn(move || {
        let r = compile(&nested(form, depth), Flags::empty(), &rescan::Mode::Block);
        if let Err(e) = r {
            std::hint::black_box(format!("{e} {e:?}"));
        }
    });
    let ok = h.expect("starting a thread").join().is_ok();
    println!("{}", if ok { "answered" } else { "panicked" });
    std::process::exit(0)
}

/// Whether a compilation in a spawned thread answers, in a process of its own.
fn in_spawned_thread(form: u64, depth: usize) -> Result<(), String> {
    let out = std::process::Command::new(std::env::current_exe().expect("own path"))
        .args(["--nested", &form.to_string(), &depth.to_string()])
        .stdin(std::process::Stdio::null())
        .output()
        .expect("starting a process");
    if String::from_utf8_lossy(&out.stdout).trim() == "answered" {
        return Ok(());
    }
    let err = String::from_utf8_lossy(&out.stderr);
    let text: String = nested(form, depth).chars().take(8).collect();
    Err(format!("compiling {depth} nested groups {text:?}... in a thread with a stack of 2 MiB: {} {}", out.status, err.trim()))
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() == 4 && args[1] == "--nested" {
        nested_child(args[2].parse().unwrap(), args[3].parse().unwrap());
    }
    let mut ctx = Ctx::new("C01");
    ctx.cpu_is_violation = true;
    let debug = ctx.profile == "debug";
    let k = if debug { 8 } else { 1 };

    let n = gen::strings(6, if ctx.thorough { 8 } else { 6 }) / k;
    ctx.phase("short", n, |i, rng, obs| {
        one(&gen::nth_string(&['(', ')', '|', 'a', '*', 'é'], i), gen::flags(rng), i, obs)
    });
    ctx.phase("pairs", work::PAIRS / k, |i, rng, obs| {
        one(&work::pair(i * k), gen::flags(rng), i, obs)
    });
    let n = ctx.scale(60_000, 3_000_000) / k;
    ctx.phase("random", n, |i, rng, obs| {
        let s = work::any(rng);
        one(&s, gen::flags(rng), i, obs)
    });
    let n = ctx.scale(1_500, 40_000) / k;
    ctx.phase("long", n, |i, rng, obs| {
        let s = work::long(rng);
        one(&s, gen::flags(rng), i, obs)
    });
    // The deepest nesting a legal expression can have, on an ordinary stack.
    let deep: Vec<String> = [16_000usize, 15_999, 15_998, 15_997, 8_000, 4_096, 1_000]
        .iter()
        .flat_map(|&n| {
            let m = n / 2;
            let t = n / 3;
            let q = n / 4;
            vec![
                "(".repeat(m) + &")".repeat(m),
                "(|".repeat(t) + &")".repeat(t),
                "(".repeat(t) + &"|)".repeat(t),
                "(a".repeat(t) + &")".repeat(t),
                "(".repeat(t) + &"a)".repeat(t),
                "(a|".repeat(q) + &")".repeat(q),
                "(|a".repeat(q) + &")".repeat(q),
                "(a".repeat(q) + &"|)".repeat(q),
                "(".repeat(n),
                ")".repeat(n),
                "|".repeat(n),
                "(|".repeat(n / 2),
                "()".repeat(n / 2),
                "(".repeat(n - 1) + "é",
                "(a|".repeat(n / 3) + "é",
                "(|".repeat(t) + &")".repeat(t - 1),
                "(|".repeat(t) + &")".repeat(t + 1),
            ]
        })
        .collect();
    ctx.phase("deep", deep.len() as u64 * 3, |i, _, obs| {
        let f = [Flags::empty(), Flags::CASELESS, Flags::PREFILTER][(i % 3) as usize];
        obs.add("deep expressions", 1);
        one(&deep[(i / 3) as usize], f, i, obs)
    });
    // The stack of a thread which Rust starts is smaller. Without optimization
    // it does not last for the deepest nesting: that is a known finding, and
    // any nesting which is less deep is not part of it.
    let depths: &[usize] = if debug { &[1_000, 1_500, 2_000, 16_000] } else { &[1_000, 2_500, 5_000] };
    ctx.watch_stall = false;
    ctx.phase("spawned thread", depths.len() as u64 * 5, |i, _, obs| {
        let (form, depth) = (i % 5, depths[(i / 5) as usize]);
        let per = [2, 3, 3, 3, 4][form as usize];
        let most = depth.min(16_000 / per);
        obs.add("nestings in spawned threads", 1);
        match in_spawned_thread(form, most) {
            Err(_) if debug && depth == 16_000 => obs.add("finding:deep-nesting-unoptimized-2MiB-stack", 1),
            r => r?,
        }
        Ok(())
    });
    ctx.watch_stall = true;
    let n = ctx.scale(40, 200) / if debug { 4 } else { 1 };
    ctx.phase("huge", n, |i, rng, obs| {
        let n = gen::among(rng, &[1 << 17, (1 << 20) - 1, 1 << 20, 3 << 20, 16_001, 70_000]);
        let unit = *rng.pick(&["(", ")", "a", "|", "é", "()", "(*UCP)"]);
        one(&unit.repeat(n / unit.len()), gen::flags(rng), i, obs)
    });
    let exprs = ["a", "(", "()", "a|b", "", "(*UTF8)a", "(*ANY)", "é", "aB1", "(a)"];
    ctx.phase("flags", 2048 * 6, |i, rng, obs| {
        let f = Flags::from_bits_truncate((i / 6) as u16);
        one(*rng.pick(&exprs), f, i % 6, obs)
    });
    let n = ctx.scale(3_000, 100_000) / k;
    ctx.phase("sets", n, |_, rng, obs| {
        let n = rng.usize(12);
        set(rng, n, obs)
    });
    let n = ctx.scale(60, 2_000) / k;
    ctx.phase("large sets", n, |_, rng, obs| {
        let n = gen::among(rng, &[100, 255, 256, 257, 1_000, 4_096, 10_000, 10_001, 20_000]);
        set(rng, n, obs)
    });
    // Refused far into a set, and sets whose members resemble each other.
    let n = ctx.scale(24, 400) / if debug { 4 } else { 1 };
    ctx.phase("far members", n, |i, rng, obs| {
        let n = gen::among(rng, &[255, 256, 257, 32_768, 65_535, 65_536, 65_537, 70_000, 131_073]);
        let at = match i % 3 {
            0 => n - 1,
            1 => rng.usize(n),
            _ => gen::among(rng, &[127, 128, 255, 256, 32_767, 32_768, 65_535, 65_536]) % n,
        };
        let mut exprs = vec!["a"; n];
        exprs[at] = *rng.pick(&["(", ")", "a)", "é", "(*ANY)", "(*x)", "a(", "a|b"]);
        let flags = vec![*rng.pick(&[Flags::empty(), Flags::CASELESS]); n];
        let single = rng.bool();
        let mut flags = flags;
        if single {
            flags[at] |= Flags::SINGLEMATCH;
        }
        let ids = vec![gen::id(rng); n];
        let m = rng.below(6);
        let r = sut(|| match compile_multi(&exprs, &flags, &ids, &gen::mode(m)) {
            Ok(_) => None,
            Err(e) => Some((e.to_string(), format!("{e:?}"))),
        })
        .map_err(|e| format!("compile_multi of {n} expressions, {} at {at}, {e}", gen::show(exprs[at])))?;
        obs.add(if r.is_some() { "sets refused" } else { "sets accepted" }, 1);
        obs.max("largest set", n as u64);
        obs.distinct_of(&(n, at, i));
        Ok(())
    });
    let n = ctx.scale(3_000, 100_000) / k;
    ctx.phase("kin", n, |_, rng, obs| {
        let n = rng.range(2, 12);
        let kin = work::Kin::new(rng, n, false, false);
        let m = rng.below(6);
        let r = sut(|| match compile_multi(&kin.refs(), &kin.flags, &kin.ids, &gen::mode(m)) {
            Ok(_) => None,
            Err(e) => Some((e.to_string(), format!("{e:?}"))),
        })
        .map_err(|e| format!("compile_multi({:?}, {:?}, {:?}) {e}", kin.refs(), kin.flags, kin.ids))?;
        obs.add(if r.is_some() { "sets refused" } else { "sets accepted" }, 1);
        Ok(())
    });
    // As a thread ends.
    let n = ctx.scale(4_000, 60_000) / k;
    ctx.phase("thread end", n, |i, rng, obs| {
        let (a, b) = (rng.next(), rng.next());
        let same = rng.bool();
        let done = |seed: u64, obs: &mut Obs| {
            let mut rng = Rng::new(seed);
            for k in 0..4 {
                let s = if rng.chance(1, 30) { work::long(&mut rng) } else { work::any(&mut rng) };
                one(&s, gen::flags(&mut rng), i + k, obs)?;
            }
            let n = rng.range(1, 12);
            set(&mut rng, n, obs)
        };
        let mut other = Obs::default();
        let r = vh::run::at_thread_end(
            || drop(done(a, &mut other)),
            || done(if same { a } else { b }, obs).map_err(|e| format!("as a thread ends: {e}")),
        );
        obs.add("compilations as a thread ends", 5);
        r
    });
    // One thread compiles more often than 16 bits can count.
    let n = ctx.scale(4, 64) / if debug { 4 } else { 1 };
    ctx.phase("many times", n, |i, rng, obs| {
        let times = if debug { 66_000 } else { 132_000 };
        let a = work::small(rng);
        let (exprs, what): (Vec<&str>, _) = match i % 4 {
            0 => (vec!["a"], "an expression"),
            1 => (vec!["("], "a refused expression"),
            2 => (vec!["ab", "c", "(a|)"], "a set"),
            _ => (vec![a.as_str(), "a"], "a set"),
        };
        let flags: Vec<Flags> = exprs.iter().map(|_| gen::good_flags(rng)).collect();
        let ids: Vec<u32> = exprs.iter().map(|_| gen::id(rng)).collect();
        let mode = gen::mode(i);
        let mut at = 0u64;
        // In a thread of its own, which ends here.
        let r = std::thread::scope(|s| {
            let at = &mut at;
            let h = std::thread::Builder::new().stack_size(8 << 20).spawn_scoped(s, || {
                sut(|| {
                    while *at < times {
                        let ok = compile_multi(&exprs, &flags, &ids, &mode).is_ok();
                        std::hint::black_box(ok);
                        *at += 1;
                    }
                })
            });
            h.expect("starting a thread").join().expect("joining")
        });
        obs.add("compilations one after another", at);
        obs.extra(at);
        obs.distinct_of(&(i, &exprs));
        r.map_err(|e| format!("compile_multi of {what} {exprs:?}, for the {}th time, {e}", at + 1))
    });
    ctx.require("compilations one after another", 132_000);
    ctx.require("compilations as a thread ends", 10_000 / k);
    ctx.require("accepted", 10_000 / k);
    ctx.require("refused", 10_000 / k);
    ctx.require("deep expressions", 100);
    ctx.finish()
}
