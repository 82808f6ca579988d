//! C02: exactly the documented language is accepted.
use rescan::{compile, Flags};
use vh::{gen, model, sut, work, Ctx, Obs, Verdict};

#[global_allocator]
static A: vh::alloc::Counting = vh::alloc::Counting;

fn one(expr: &str, flags: Flags, mode: u64, obs: &mut Obs) -> Verdict {
    let want = model::outcome(expr, flags);
    let got = sut(|| compile(expr, flags, &gen::mode(mode)).map(|_| ()).map_err(|e| e.to_string()));
    let call = || format!("compile({}, {flags:?}, {})", gen::show(expr), gen::mode_name(mode));
    let got = got.map_err(|e| format!("{} {e}", call()))?;
    match (&want, &got) {
        (Ok(p), Ok(())) => {
            obs.add("accepted", 1);
            obs.max("most groups", p.groups as u64);
            obs.max("most branches", p.alternations as u64 + 1);
        }
        (Err(f), Err(_)) => obs.add(work::fail_kind(f), 1),
        (Ok(_), Err(e)) => return Err(format!("{} was refused: {e}", call())),
        (Err(f), Ok(())) => return Err(format!("{} was accepted, expected {f:?}", call())),
    }
    if work::interesting(expr) {
        obs.distinct(work::shape(expr, flags));
    }
    obs.sample(|| format!("{} -> {}", call(), if got.is_ok() { "accepted" } else { "refused" }));
    Ok(())
}

fn main() {
    let mut ctx = Ctx::new("C02");
    let n = gen::strings(4, if ctx.thorough { 11 } else { 8 });
    ctx.phase("grammar", n, |i, rng, obs| {
        one(&gen::nth_string(&work::GRAMMAR, i), gen::flags(rng), i, obs)
    });
    let n = gen::strings(7, if ctx.thorough { 7 } else { 5 });
    ctx.phase("verb-like", n, |i, rng, obs| {
        one(&gen::nth_string(&work::VERBISH, i), gen::flags(rng), i, obs)
    });
    ctx.phase("pairs", work::PAIRS, |i, rng, obs| one(&work::pair(i), gen::flags(rng), i, obs));
    let n = ctx.scale(30_000, 1_000_000);
    ctx.phase("verbs", n, |i, rng, obs| {
        let s = work::verb(rng);
        one(&s, gen::flags(rng), i, obs)
    });
    let n = ctx.scale(60_000, 3_000_000);
    ctx.phase("random", n, |i, rng, obs| {
        let s = work::any(rng);
        one(&s, gen::flags(rng), i, obs)
    });
    let n = ctx.scale(2_000, 60_000);
    ctx.phase("long", n, |i, rng, obs| {
        let s = work::long(rng);
        one(&s, gen::flags(rng), i, obs)
    });
    // Every length near the limits, plain and in groups.
    ctx.phase("lengths", 4 * 300, |i, rng, obs| {
        let n = [15_900usize, 255, 4_000, 8_100][(i % 4) as usize] + (i / 4) as usize;
        let s = if rng.bool() { gen::valid(rng, n) } else { gen::literal(rng, n) };
        one(&s, gen::flags(rng), i, obs)
    });
    // Depth of nesting and numbers of groups and branches, one by one.
    let n = ctx.scale(1_200, 8_000);
    ctx.phase("counts", n * 4, |i, rng, obs| {
        let k = if i / 4 < 600 { i / 4 } else { rng.below(5_300) } as usize;
        let s = match i % 4 {
            0 => "(a".repeat(k) + &")".repeat(k),
            1 => "(a)".repeat(k),
            2 => "a|".repeat(k),
            _ => {
                let d = if rng.bool() { k + 1 } else { k.saturating_sub(1) };
                "(b".repeat(k) + &")".repeat(d)
            }
        };
        one(&s, gen::flags(rng), i, obs)
    });
    ctx.phase("flags", 2048 * 6, |i, rng, obs| {
        let f = Flags::from_bits_truncate((i / 6) as u16);
        let s = work::small(rng);
        one(&s, f, i % 6, obs)
    });
    // Scalar values beyond ASCII, alone and inside an expression.
    let step = if ctx.thorough { 1 } else { 37 };
    ctx.phase("unicode", 0x11_0000 / step, |i, rng, obs| {
        let Some(c) = char::from_u32((i * step + rng.below(step)) as u32) else {
            return Ok(());
        };
        let s = match i % 3 {
            0 => c.to_string(),
            1 => format!("a({c})b"),
            _ => format!("a|{c}"),
        };
        one(&s, gen::flags(rng), i, obs)
    });
    for k in [
        "accepted",
        "refused: too long",
        "refused: QUIET with SOM_LEFTMOST",
        "refused: unsupported verb",
        "refused: unknown verb",
        "refused: unmatched parenthesis",
        "refused: non-ASCII",
        "refused: missing parenthesis",
    ] {
        ctx.require(k, 200);
    }
    ctx.finish()
}

