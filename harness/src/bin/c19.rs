//! C19: compilation holds on to no memory, and needs it in proportion.
use rescan::{compile_multi, Flags};
use vh::{alloc, gen, sut, work, Ctx, Obs, Rng, Verdict};

#[global_allocator]
static A: vh::alloc::Counting = vh::alloc::Counting;

/// Bytes per byte of the expressions, per expression, and at all: several
/// times what the unchanged code needs.
const PER_BYTE: i64 = 3_000;
const PER_EXPR: i64 = 6_000;
const BASE: i64 = 200_000;

/// Bytes a thread may keep in all, whatever it has compiled.
const KEPT: i64 = 64 << 10;

thread_local! {
    static SUM: std::cell::Cell<i64> = const { std::cell::Cell::new(0) };
}

/// The most memory one compilation has at once.
fn peak_of(exprs: &[&str], flags: &[Flags], ids: &[u32], mode: u64) -> Result<i64, String> {
    let before = alloc::live().0;
    alloc::reset_peak();
    sut(|| drop(compile_multi(exprs, flags, ids, &gen::mode(mode))))?;
    Ok(alloc::peak() - before)
}

/// Sixteen times the input takes about sixteen times the memory, whatever it
/// is made of: a power of two of capacity more or less aside.
fn growth(rng: &mut Rng, i: u64, obs: &mut Obs) -> Verdict {
    let unit = match rng.below(6) {
        0 => work::small(rng),
        1 => gen::accepted(rng, 12, false),
        _ => (*rng.pick(&["a", "|", "()", "a|", "(a)", "ab|", "(|)", "(a|b)", "aB1", "(())"])).to_string(),
    };
    if unit.is_empty() || unit.starts_with("(*") {
        return Ok(());
    }
    let f = if rng.chance(1, 4) { gen::flags(rng) } else { gen::good_flags(rng) };
    let mode = rng.below(6);
    let (small, large, what) = if i % 2 == 0 {
        let nest = rng.chance(1, 3);
        let tail = if rng.chance(1, 4) { *rng.pick(&["(", ")", "é"]) } else { "" };
        let text = |n: usize| {
            if nest {
                let k = n / (unit.len() + 2);
                "(".repeat(k) + &unit.repeat(k) + &")".repeat(k) + tail
            } else {
                unit.repeat(n / unit.len()) + tail
            }
        };
        let (a, b) = (text(990), text(15_840));
        let what = format!("{}{}{tail:?}, {f:?}", gen::show(&unit), if nest { " nested, " } else { " again and again, " });
        (peak_of(&[&a], &[f], &[1], mode), peak_of(&[&b], &[f], &[1], mode), what)
    } else {
        let m = *rng.pick(&[500usize, 1_000, 4_000]);
        let last = if rng.chance(1, 4) { *rng.pick(&["(", ")", "é"]) } else { unit.as_str() };
        let spread = rng.bool();
        let peak = |n: usize| {
            let mut e = vec![unit.as_str(); n];
            e[n - 1] = last;
            let ids: Vec<u32> = (0..n as u32).map(|k| if spread { k } else { 7 }).collect();
            peak_of(&e, &vec![f; n], &ids, mode)
        };
        (peak(m), peak(m * 16), format!("{m} and sixteen times as many of {}, {f:?}", gen::show(&unit)))
    };
    let (small, large) = (small.map_err(|e| format!("{what} {e}"))?, large.map_err(|e| format!("{what} {e}"))?);
    obs.add("growths measured", 1);
    obs.max("growth in percent of sixteenfold", (large * 100 / (16 * small + 100_000)) as u64);
    obs.distinct_of(&(&unit, f.bits(), i % 2));
    if large > 26 * small + 100_000 {
        return Err(format!("{what}: needs {small} bytes, but {large} for sixteen times as much"));
    }
    Ok(())
}

fn one(exprs: &[&str], flags: &[Flags], ids: &[u32], mode: u64, obs: &mut Obs) -> Verdict {
    let n = exprs.len();
    let bytes: usize = exprs.iter().map(|e| e.len().min(16_001)).sum();
    let show = || {
        let e: Vec<String> = exprs.iter().take(4).map(|e| gen::show(e)).collect();
        format!("compile_multi of {n} expressions of {bytes} bytes [{}], {}", e.join(", "), gen::mode_name(mode))
    };
    let mut held = [0i64; 3];
    let mut blocks = [0i64; 3];
    let mut peak = 0;
    let mut ok = false;
    // Memory which is kept from one compilation to the next may be kept once,
    // but not again and again.
    for k in 0..3 {
        let before = alloc::live();
        alloc::reset_peak();
        let r = sut(|| {
            let r = compile_multi(exprs, flags, ids, &gen::mode(mode));
            let ok = r.is_ok();
            if let Err(e) = &r {
                let _ = e.to_string();
            }
            drop(r);
            ok
        })
        .map_err(|e| format!("{} {e}", show()))?;
        ok = r;
        peak = alloc::peak() - before.0;
        let after = alloc::live();
        held[k] = after.0 - before.0;
        blocks[k] = after.1 - before.1;
        let sum = SUM.with(|s| {
            s.set(s.get() + held[k]);
            s.get()
        });
        if sum > KEPT {
            return Err(format!("{}: with what others before left, {sum} bytes are held on to, {} by this one", show(), held[k]));
        }
        if held[k] == 0 && blocks[k] == 0 {
            break;
        }
        if k == 2 {
            return Err(format!("{}: holds on to {held:?} bytes in {blocks:?} blocks, each time", show()));
        }
    }
    obs.add(if ok { "compilations" } else { "refused compilations" }, 1);
    obs.max("peak bytes", peak as u64);
    let limit = BASE + PER_BYTE * bytes as i64 + PER_EXPR * n as i64;
    obs.max("peak in percent of the limit", (peak * 100 / limit) as u64);
    if bytes > 1000 {
        obs.max("peak per byte of long expressions", (peak / bytes as i64) as u64);
    }
    if peak > limit {
        return Err(format!("{}: needs {peak} bytes, more than {limit}", show()));
    }
    Ok(())
}

fn single(e: &str, rng: &mut Rng, mode: u64, obs: &mut Obs) -> Verdict {
    let f = gen::flags(rng);
    obs.sample(|| format!("{} {f:?}", gen::show(e)));
    if work::interesting(e) {
        obs.distinct(work::shape(e, f));
    }
    one(&[e], &[f], &[gen::id(rng)], mode, obs)
}

/// Threads which compile and end leave nothing behind, however many they are.
fn threads(rng: &mut Rng, obs: &mut Obs) -> Verdict {
    use std::sync::atomic::Ordering::SeqCst;
    let exprs: Vec<String> = (0..40).map(|_| if rng.chance(1, 3) { work::any(rng) } else { work::small(rng) }).collect();
    let flags: Vec<Flags> = (0..40).map(|_| gen::flags(rng)).collect();
    let mut go = |n: usize| -> Result<i64, String> {
        alloc::GLOBAL_ON.store(true, SeqCst);
        let before = alloc::GLOBAL_LIVE.load(SeqCst);
        let mut bad = None;
        for k in 0..n / 4 {
            let hs: Vec<_> = (0..4)
                .map(|t| {
                    let (e, f) = (exprs[(k + t) % 40].clone(), flags[(k * 4 + t) / 3 % 40]);
                    std::thread::spawn(move || sut(|| drop(compile_multi(&[&e, &e], &[f, f], &[1, 2], &gen::mode(k as u64)))))
                })
                .collect();
            for h in hs {
                if let Err(e) = h.join().unwrap_or_else(|_| Err("a thread panicked".into())) {
                    bad = Some(e);
                }
            }
        }
        alloc::GLOBAL_ON.store(false, SeqCst);
        obs.add("threads which compiled and ended", n as u64);
        match bad {
            Some(e) => Err(e),
            None => Ok(alloc::GLOBAL_LIVE.load(SeqCst) - before),
        }
    };
    go(4_000)?;
    let more = go(12_000)?;
    obs.max("bytes kept by 12,000 threads", more.max(0) as u64);
    if more > 32 << 10 {
        return Err(format!("12,000 threads which compiled and ended leave {more} bytes"));
    }
    Ok(())
}

fn main() {
    let mut ctx = Ctx::new("C19");
    let n = gen::strings(5, if ctx.thorough { 8 } else { 6 });
    ctx.phase("grammar", n, |i, rng, obs| single(&gen::nth_string(&['a', '(', ')', '|', 'é'], i), rng, i, obs));
    let n = ctx.scale(40_000, 1_000_000);
    ctx.phase("random", n, |i, rng, obs| {
        let s = work::any(rng);
        single(&s, rng, i, obs)
    });
    let n = ctx.scale(2_000, 40_000);
    ctx.phase("long", n, |i, rng, obs| {
        let s = work::long(rng);
        single(&s, rng, i, obs)
    });
    let n = ctx.scale(20_000, 400_000);
    ctx.phase("sets", n, |i, rng, obs| {
        let n = rng.range(1, 30);
        let exprs: Vec<String> = (0..n).map(|_| if rng.chance(1, 30) { work::any(rng) } else { work::small(rng) }).collect();
        let refs: Vec<&str> = exprs.iter().map(|s| s.as_str()).collect();
        let flags: Vec<Flags> = (0..n).map(|_| gen::good_flags(rng)).collect();
        let ids: Vec<u32> = (0..n).map(|_| gen::id(rng)).collect();
        obs.distinct_of(&exprs);
        one(&refs, &flags, &ids, i, obs)
    });
    let n = ctx.scale(60, 800);
    ctx.phase("large sets", n, |i, rng, obs| {
        let n = gen::among(rng, &[256, 1_000, 9_999, 10_000, 10_001, 40_000, 131_073]);
        let pool: Vec<String> = (0..100).map(|_| work::small(rng)).collect();
        let refs: Vec<&str> = (0..n).map(|_| pool[rng.usize(100)].as_str()).collect();
        let flags: Vec<Flags> = match i % 3 {
            0 => vec![Flags::empty(); n],
            1 => vec![gen::good_flags(rng); n],
            _ => (0..n).map(|_| gen::good_flags(rng)).collect(),
        };
        let ids: Vec<u32> = (0..n as u32).collect();
        one(&refs, &flags, &ids, i, obs)
    });
    let n = ctx.scale(6_000, 100_000);
    ctx.phase("kin", n, |i, rng, obs| {
        let n = rng.range(2, 9);
        let kin = work::Kin::new(rng, n, false, false);
        obs.distinct_of(&(kin.refs(), &kin.ids));
        one(&kin.refs(), &kin.flags, &kin.ids, i, obs)
    });
    // Refused late, when much has been built.
    let n = ctx.scale(60, 800);
    ctx.phase("refused late", n, |i, rng, obs| {
        let n = gen::among(rng, &[256, 1_000, 10_001, 30_000]).max(2);
        let pool: Vec<String> = (0..100).map(|_| work::small(rng)).collect();
        let mut refs: Vec<&str> = (0..n).map(|_| pool[rng.usize(100)].as_str()).collect();
        let mut flags = vec![Flags::empty(); n];
        let mut ids: Vec<u32> = (0..n as u32).collect();
        match i % 3 {
            0 => refs[n - 1] = *rng.pick(&["(", ")", "é", "(*x)", "a|b)"]),
            1 => {
                ids[n - 1] = 0;
                flags[n - 1] = Flags::SINGLEMATCH;
            }
            _ => flags[n - 1] = Flags::QUIET | Flags::SOM_LEFTMOST,
        }
        obs.distinct_of(&(n, i));
        one(&refs, &flags, &ids, i, obs)
    });
    ctx.phase("threads", 1, |_, rng, obs| threads(rng, obs));
    ctx.require("threads which compiled and ended", 10_000);
    let n = ctx.scale(500, 10_000);
    ctx.phase("growth", n, |i, rng, obs| growth(rng, i, obs));
    ctx.require("growths measured", 1_000);
    ctx.require("compilations", 20_000);
    ctx.require("refused compilations", 10_000);
    ctx.finish()
}
