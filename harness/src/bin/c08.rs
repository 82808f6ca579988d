//! C08: literals go to the literal matcher with their exact content.
use rescan::verif::trace::{self, Event};
use rescan::{compile_multi, Flags};
use vh::{gen, model, sut, work, Ctx, Obs, Rng, Verdict};

#[global_allocator]
static A: vh::alloc::Counting = vh::alloc::Counting;

fn check(exprs: &[&str], flags: &[Flags], ids: &[u32], mode: u64, obs: &mut Obs) -> Verdict {
    let n = exprs.len();
    let call = || {
        if n <= 4 {
            let e: Vec<String> = exprs.iter().map(|e| gen::show(e)).collect();
            format!("compile_multi([{}], {flags:?}, {ids:?}, {})", e.join(", "), gen::mode_name(mode))
        } else {
            format!("compile_multi of {n} expressions, {}", gen::mode_name(mode))
        }
    };
    trace::take();
    let ok = sut(|| compile_multi(exprs, flags, ids, &gen::mode(mode)).map(|_| ()).map_err(|e| e.to_string()))
        .map_err(|e| format!("{} {e}", call()))?;
    let events = trace::take();
    let mut it = events.iter();
    let mut shortest: Option<usize> = None;
    let mut refused = None;
    for i in 0..n {
        let p = match model::outcome(exprs[i], flags[i]) {
            Ok(p) => p,
            Err(f) => {
                refused = Some((i, f));
                break;
            }
        };
        let single = flags[i].contains(Flags::SINGLEMATCH);
        let quiet = flags[i].contains(Flags::QUIET);
        let bad = |what: String| Err(format!("{}: expression {i} ({}): {what}", call(), gen::show(exprs[i])));
        match it.next() {
            Some(Event::Literal { bytes, index, report, highlander, som, quiet: q }) => {
                if !p.is_literal() {
                    return bad(format!("taken for the literal {:?}, but it is not one", &bytes[..bytes.len().min(40)]));
                }
                let want = p.literal();
                if *bytes != want {
                    let at = bytes.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(want.len().min(bytes.len()));
                    return bad(format!(
                        "the literal has {} characters, expected {}; from {at} on it is {:?}, expected {:?}",
                        bytes.len(),
                        want.len(),
                        &bytes[at..bytes.len().min(at + 5)],
                        &want[at..want.len().min(at + 5)]
                    ));
                }
                if (*index as usize, *report, *highlander, *som, *q) != (i, ids[i], single, false, quiet) {
                    return bad(format!(
                        "the literal has index {index}, ID {report}, single match {highlander}, start of match {som}, quiet {q}"
                    ));
                }
                let k = want.len();
                shortest = Some(shortest.map_or(k, |s| s.min(k)));
                obs.add("literals", 1);
                obs.max("longest literal", k as u64);
                if want.iter().any(|e| e.1) {
                    obs.add("caseless literals", 1);
                }
            }
            Some(Event::Graph { expr, .. }) => {
                if p.is_literal() {
                    return bad("a literal, but a graph was built".into());
                }
                if (expr.index, expr.report, expr.highlander, expr.quiet) != (i, ids[i], single, quiet) {
                    return bad(format!("the graph has {expr:?}"));
                }
                obs.add("graphs", 1);
            }
            e => return bad(format!("expected a literal or a graph, got {e:?}")),
        }
    }
    match (&refused, &ok) {
        (None, Ok(())) => {}
        (Some(_), Err(_)) => {
            obs.add("sets refused", 1);
            return match it.next() {
                None => Ok(()),
                Some(e) => Err(format!("{}: refused, but then {e:?}", call())),
            };
        }
        (None, Err(e)) => return Err(format!("{} was refused: {e}", call())),
        (Some((i, f)), Ok(())) => return Err(format!("{} was accepted, expected {f:?} in {i}", call())),
    }
    match it.next() {
        Some(Event::Done { min_width, .. }) => {
            let want = shortest.map(|s| s as u32);
            if *min_width != want {
                return Err(format!("{}: the shortest literal has {want:?} characters, got {min_width:?}", call()));
            }
            obs.add("sets", 1);
        }
        e => return Err(format!("{}: more than one event for an expression: {e:?}", call())),
    }
    if it.next().is_some() {
        return Err(format!("{}: more events than expressions", call()));
    }
    obs.max("largest set", n as u64);
    Ok(())
}

fn one(expr: &str, flags: Flags, rng: &mut Rng, mode: u64, obs: &mut Obs) -> Verdict {
    if work::interesting(expr) {
        obs.distinct(work::shape(expr, flags));
    }
    obs.sample(|| format!("{} {flags:?}", gen::show(expr)));
    check(&[expr], &[flags], &[gen::id(rng)], mode, obs)
}

fn main() {
    let mut ctx = Ctx::new("C08");
    let n = gen::strings(4, if ctx.thorough { 10 } else { 7 });
    ctx.phase("grammar", n, |i, rng, obs| {
        let f = gen::flags(rng);
        one(&gen::nth_string(&work::GRAMMAR, i), f, rng, i, obs)
    });
    ctx.phase("characters", 128 * 2048, |i, rng, obs| {
        let c = (i % 128) as u8 as char;
        let f = Flags::from_bits_truncate((i / 128) as u16);
        let s = if rng.bool() { c.to_string() } else { format!("{}{c}", gen::ascii(rng)) };
        one(&s, f, rng, i, obs)
    });
    ctx.phase("pairs", 128 * 128 * 2, |i, rng, obs| {
        let (a, b) = ((i % 128) as u8 as char, (i / 128 % 128) as u8 as char);
        let f = if i >= 128 * 128 { Flags::CASELESS } else { Flags::empty() };
        one(&[a, b].iter().collect::<String>(), f, rng, i, obs)
    });
    let n = ctx.scale(40_000, 1_000_000);
    ctx.phase("random", n, |i, rng, obs| {
        let s = if rng.chance(1, 3) { work::any(rng) } else { gen::accepted(rng, 3000, true) };
        let f = gen::flags(rng);
        one(&s, f, rng, i, obs)
    });
    ctx.phase("lengths", 1_200, |i, rng, obs| {
        let n = if i < 800 { i as usize } else { gen::among(rng, &[999, 1_023, 1_024, 4_095, 4_096, 8_191, 8_192, 15_999, 16_000]) };
        let s = gen::literal(rng, n);
        let f = gen::good_flags(rng);
        one(&s, f, rng, i, obs)
    });
    let n = ctx.scale(30_000, 600_000);
    ctx.phase("sets", n, |i, rng, obs| {
        let n = rng.range(2, 12);
        let exprs: Vec<String> = (0..n)
            .map(|_| match rng.below(6) {
                0 => gen::accepted(rng, 400, true),
                1 if rng.chance(1, 10) => work::any(rng),
                _ => work::small(rng),
            })
            .collect();
        let refs: Vec<&str> = exprs.iter().map(|s| s.as_str()).collect();
        let base = gen::id(rng);
        let ids: Vec<u32> = (0..n as u32).map(|k| base.wrapping_add(k * 3)).collect();
        let flags: Vec<Flags> = (0..n).map(|_| if rng.chance(1, 60) { gen::flags(rng) } else { gen::good_flags(rng) }).collect();
        obs.distinct_of(&(exprs.clone(), ids.clone()));
        check(&refs, &flags, &ids, i, obs)
    });
    let n = ctx.scale(60, 1_000);
    ctx.phase("large sets", n, |i, rng, obs| {
        let n = gen::among(rng, &[256, 257, 1_000, 9_999, 10_000, 10_001, 65_536, 65_537, 70_000]);
        let least = rng.range(1, 5);
        let pool: Vec<String> = (0..200)
            .map(|_| {
                let k = least + rng.usize(30);
                if rng.chance(1, 4) { work::small(rng) } else { gen::literal(rng, k) }
            })
            .collect();
        let exprs: Vec<&str> = (0..n).map(|_| pool[rng.usize(pool.len())].as_str()).collect();
        let ids: Vec<u32> = (0..n as u32).map(|k| k.wrapping_mul(0x9e37_79b1)).collect();
        let flags: Vec<Flags> = (0..n).map(|_| gen::good_flags(rng)).collect();
        obs.distinct_of(&(n, i));
        check(&exprs, &flags, &ids, i, obs)
    });
    let n = ctx.scale(30_000, 600_000);
    ctx.phase("kin", n, |i, rng, obs| {
        let n = rng.range(2, 9);
        let valid = rng.chance(7, 8);
        let kin = work::Kin::new(rng, n, true, valid);
        let refs = kin.refs();
        obs.distinct_of(&(&refs, kin.flags.iter().map(|f| f.bits()).collect::<Vec<_>>(), &kin.ids));
        check(&refs, &kin.flags, &kin.ids, i, obs)
    });
    ctx.require("literals", 50_000);
    ctx.require("caseless literals", 5_000);
    ctx.require("graphs", 10_000);
    ctx.finish()
}
