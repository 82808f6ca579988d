//! C03: an error says what is wrong and where.
use rescan::{compile, compile_multi, Flags};
use vh::{gen, model, sut, work, Ctx, Obs, Rng, Verdict};

#[global_allocator]
static A: vh::alloc::Counting = vh::alloc::Counting;

fn one(expr: &str, flags: Flags, mode: u64, obs: &mut Obs) -> Verdict {
    let Err(fail) = model::outcome(expr, flags) else {
        obs.add("accepted", 1);
        return Ok(());
    };
    let call = || format!("compile({}, {flags:?}, {})", gen::show(expr), gen::mode_name(mode));
    let got = sut(|| {
        compile(expr, flags, &gen::mode(mode))
            .map(|_| ())
            .map_err(|e| (e.to_string(), format!("{e:?}")))
    })
    .map_err(|e| format!("{} {e}", call()))?;
    let Err((display, debug)) = got else {
        return Err(format!("{} was accepted, expected {fail:?}", call()));
    };
    model::check_error(&display, &debug, &fail, 0).map_err(|e| format!("{}: {e}", call()))?;
    obs.add(work::fail_kind(&fail), 1);
    match fail {
        model::Fail::Missing(n) | model::Fail::NonAscii(n) => obs.max("furthest offset", n as u64),
        _ => {}
    }
    obs.distinct(work::shape(expr, flags));
    obs.sample(|| format!("{} -> {display}", call()));
    Ok(())
}

/// One bad expression among good ones.
fn among(rng: &mut Rng, n: usize, at: usize, obs: &mut Obs) -> Verdict {
    let (bad, f) = loop {
        let e = work::any(rng);
        let f = gen::flags(rng);
        if model::outcome(&e, f).is_err() {
            break (e, f);
        }
    };
    let good: Vec<String> = (0..16).map(|_| work::small(rng)).collect();
    let mut exprs: Vec<&str> = (0..n).map(|_| good[rng.usize(16)].as_str()).collect();
    exprs[at] = &bad;
    let mut flags: Vec<Flags> = (0..n)
        .map(|_| gen::good_flags(rng) & !Flags::SINGLEMATCH)
        .collect();
    flags[at] = f & !Flags::SINGLEMATCH;
    let ids: Vec<u32> = (0..n).map(|_| gen::id(rng)).collect();
    let Err(fail) = model::outcome(&bad, flags[at]) else {
        return Ok(());
    };
    let m = rng.below(6);
    let call = || format!("compile_multi of {n} expressions, {} at {at}", gen::show(&bad));
    let got = sut(|| {
        compile_multi(&exprs, &flags, &ids, &gen::mode(m))
            .map(|_| ())
            .map_err(|e| (e.to_string(), format!("{e:?}")))
    })
    .map_err(|e| format!("{} {e}", call()))?;
    let Err((display, debug)) = got else {
        return Err(format!("{} was accepted, expected {fail:?}", call()));
    };
    model::check_error(&display, &debug, &fail, at).map_err(|e| format!("{}: {e}", call()))?;
    obs.add("errors inside a set", 1);
    obs.max("furthest expression", at as u64);
    obs.distinct_of(&(n, at, bad.as_str()));
    Ok(())
}

fn main() {
    let mut ctx = Ctx::new("C03");
    let n = gen::strings(4, if ctx.thorough { 10 } else { 7 });
    ctx.phase("grammar", n, |i, rng, obs| {
        one(&gen::nth_string(&work::GRAMMAR, i), gen::flags(rng), i, obs)
    });
    let n = gen::strings(6, if ctx.thorough { 7 } else { 5 });
    ctx.phase("grammar and beyond", n, |i, rng, obs| {
        one(&gen::nth_string(&['a', '(', ')', '|', 'é', '🦀'], i), gen::flags(rng), i, obs)
    });
    let n = ctx.scale(40_000, 1_500_000);
    ctx.phase("verbs", n, |i, rng, obs| {
        let s = work::verb(rng);
        one(&s, gen::flags(rng), i, obs)
    });
    let n = ctx.scale(80_000, 3_000_000);
    ctx.phase("random", n, |i, rng, obs| {
        let s = work::any(rng);
        one(&s, gen::flags(rng), i, obs)
    });
    let n = ctx.scale(2_000, 60_000);
    ctx.phase("long", n, |i, rng, obs| {
        let s = work::long(rng);
        one(&s, gen::flags(rng), i, obs)
    });
    // Errors at every offset: a group left open behind closed ones, or a
    // character which is not ASCII.
    let n = ctx.scale(6_000, 100_000);
    ctx.phase("offsets", n, |i, rng, obs| {
        let at = if i < 2_000 { i as usize } else { rng.usize(15_990) };
        let mut s = gen::valid(rng, at);
        match rng.below(4) {
            0 => s.push(gen::non_ascii(rng)),
            1 => {
                s.push('(');
                let k = rng.usize(5);
                s.push_str(&gen::valid(rng, k));
            }
            2 => {
                let d = rng.range(1, 4);
                s.push_str(&"(".repeat(d));
                s.push_str(&")".repeat(rng.usize(d)));
            }
            _ => s.push(')'),
        }
        one(&s, Flags::empty(), i, obs)
    });
    let n = ctx.scale(20_000, 500_000);
    ctx.phase("sets", n, |_, rng, obs| {
        let n = rng.range(1, 20);
        let at = rng.usize(n);
        among(rng, n, at, obs)
    });
    let n = ctx.scale(60, 1_500);
    ctx.phase("large sets", n, |_, rng, obs| {
        let at = gen::among(rng, &[254, 255, 256, 257, 999, 4_095, 4_096, 32_767, 32_768, 65_534, 65_535, 65_536, 65_537, 70_000]);
        let n = at + rng.range(1, 10);
        among(rng, n, at, obs)
    });
    for k in [
        "refused: too long",
        "refused: QUIET with SOM_LEFTMOST",
        "refused: unsupported verb",
        "refused: unknown verb",
        "refused: unmatched parenthesis",
        "refused: non-ASCII",
        "refused: missing parenthesis",
    ] {
        ctx.require(k, 200);
    }
    ctx.require("errors inside a set", 1_000);
    ctx.finish()
}
