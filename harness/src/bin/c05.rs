//! C05: SINGLEMATCH agrees among the expressions with a match ID.
use rescan::{compile_multi, Flags};
use std::collections::HashMap;
use vh::{gen, model, sut, work, Ctx, Obs, Rng, Verdict};

#[global_allocator]
static A: vh::alloc::Counting = vh::alloc::Counting;

enum Want {
    Accept,
    Refuse(usize, model::Fail),
    Conflict { at: usize, id: u32, single: bool, first: usize },
}

fn want(exprs: &[&str], flags: &[Flags], ids: &[u32]) -> Want {
    let mut seen: HashMap<u32, (bool, usize)> = HashMap::new();
    for (i, e) in exprs.iter().enumerate() {
        if let Err(f) = model::outcome(e, flags[i]) {
            return Want::Refuse(i, f);
        }
        let single = flags[i].contains(Flags::SINGLEMATCH);
        match seen.get(&ids[i]) {
            Some(&(s, first)) if s != single => {
                return Want::Conflict { at: i, id: ids[i], single, first };
            }
            Some(_) => {}
            None => {
                seen.insert(ids[i], (single, i));
            }
        }
    }
    Want::Accept
}

fn check(exprs: &[&str], flags: &[Flags], ids: &[u32], mode: u64, obs: &mut Obs) -> Verdict {
    let n = exprs.len();
    let call = || {
        if n <= 8 {
            format!("compile_multi({exprs:?}, {flags:?}, {ids:?}, {})", gen::mode_name(mode))
        } else {
            format!("compile_multi of {n} expressions, {}", gen::mode_name(mode))
        }
    };
    let got = sut(|| {
        compile_multi(exprs, flags, ids, &gen::mode(mode))
            .map(|_| ())
            .map_err(|e| (e.to_string(), format!("{e:?}")))
    })
    .map_err(|e| format!("{} {e}", call()))?;
    obs.max("largest set", n as u64);
    match (want(exprs, flags, ids), got) {
        (Want::Accept, Ok(())) => {
            obs.add("sets which agree", 1);
            Ok(())
        }
        (Want::Accept, Err((e, _))) => Err(format!("{} was refused: {e}", call())),
        (Want::Refuse(i, f), Err((t, d))) => {
            obs.add("sets with an invalid expression first", 1);
            model::check_error(&t, &d, &f, i).map_err(|e| format!("{}: {e}", call()))
        }
        (Want::Refuse(i, f), Ok(())) => Err(format!("{} was accepted, expected {f:?} in expression {i}", call())),
        (Want::Conflict { at, id, single, first }, Ok(())) => Err(format!(
            "{} was accepted, but expression {at} with ID {id} has SINGLEMATCH={single}, unlike expression {first}",
            call()
        )),
        (Want::Conflict { at, id, single, first }, Err((t, d))) => {
            obs.add("conflicts", 1);
            obs.max("furthest conflict", at as u64);
            obs.sample(|| format!("{} -> {t}", call()));
            let bad = |why: &str| {
                Err(format!(
                    "{}: {why}: expected expression {at} (SINGLEMATCH={single}) against {first} for ID {id}, got {t:?} ({d})",
                    call()
                ))
            };
            if !t.ends_with(&format!(" in expression {at}")) || !d.contains(&format!("index: Some({at})")) {
                return bad("the error does not name the expression");
            }
            if !model::names(&t, "match ID ", id as u64) {
                return bad("the error does not name the ID");
            }
            let Some((head, tail)) = t.split_once("whereas") else {
                return bad("the error does not contrast two expressions");
            };
            if !head.contains("SINGLEMATCH")
                || !model::names(head, "index ", at as u64)
                || !model::names(tail, "index ", first as u64)
            {
                return bad("the error does not name both expressions");
            }
            let not = |s: &str| s.split(|c: char| !c.is_alphanumeric()).any(|w| w == "not");
            if not(head) == single || not(tail) != single {
                return bad("the error has who specified SINGLEMATCH wrong");
            }
            Ok(())
        }
    }
}

/// Different IDs for different numbers, with no pattern in any of their bits.
fn spread(k: u32, by: u32) -> u32 {
    let mut x = k.wrapping_add(by);
    x = (x ^ x >> 16).wrapping_mul(0x85eb_ca6b);
    x = (x ^ x >> 13).wrapping_mul(0xc2b2_ae35);
    x ^ x >> 16
}

fn kinds(k: u64) -> &'static str {
    [
        "", "a", "()", "(a)", "a|b", "|", "abc1", "(*UTF8)xyz", "((a)|)", "(*UCP)(|)", "1", "aB",
        "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx",
    ][k as usize % 13]
}

fn random(rng: &mut Rng, n: usize, ids_of: &dyn Fn(&mut Rng) -> u32, obs: &mut Obs) -> Verdict {
    let exprs: Vec<String> = (0..n)
        .map(|_| match rng.below(12) {
            0 => gen::accepted(rng, 300, true),
            1 if rng.chance(1, 20) => work::any(rng),
            _ => work::small(rng),
        })
        .collect();
    let refs: Vec<&str> = exprs.iter().map(|s| s.as_str()).collect();
    let ids: Vec<u32> = (0..n).map(|_| ids_of(rng)).collect();
    let mut single: HashMap<u32, bool> = HashMap::new();
    let flip = rng.chance(2, 3).then(|| rng.usize(n));
    let flags: Vec<Flags> = (0..n)
        .map(|i| {
            let mut f = gen::good_flags(rng);
            let b = rng.bool();
            let s = *single.entry(ids[i]).or_insert(b);
            f.set(Flags::SINGLEMATCH, s != (flip == Some(i)));
            f
        })
        .collect();
    obs.distinct_of(&(exprs.clone(), ids.clone(), flags.iter().map(|f| f.bits()).collect::<Vec<_>>()));
    check(&refs, &flags, &ids, rng.below(6), obs)
}

fn main() {
    let mut ctx = Ctx::new("C05");
    // Every two sorts of expression, with and without SINGLEMATCH, for equal
    // and for different IDs.
    ctx.phase("pairs", 13 * 13 * 4 * 2 * 6, |i, rng, obs| {
        let (a, b) = (kinds(i % 13), kinds(i / 13 % 13));
        let k = i / 169;
        let f = |s: u64, rng: &mut Rng| {
            let mut f = gen::good_flags(rng);
            f.set(Flags::SINGLEMATCH, s == 1);
            f
        };
        let flags = [f(k & 1, rng), f(k >> 1 & 1, rng)];
        let id = gen::id(rng);
        let ids = [id, if k >> 2 & 1 == 1 { id } else { id ^ (1 << rng.below(32)) }];
        obs.distinct_of(&(a, b, k & 7));
        check(&[a, b], &flags, &ids, i / 1352, obs)
    });
    // Every bit of an ID counts.
    ctx.phase("id bits", 32 * 6 * 20, |i, rng, obs| {
        let base = gen::id(rng);
        let ids = [base, base ^ (1 << (i % 32)), base];
        let s = rng.bool();
        let f = |s: bool| if s { Flags::SINGLEMATCH } else { Flags::empty() };
        let third = rng.bool();
        obs.distinct_of(&(ids, s, third));
        let exprs = [kinds(rng.below(13)), kinds(rng.below(13)), kinds(rng.below(13))];
        check(&exprs, &[f(s), f(!s), f(third)], &ids, i, obs)
    });
    let n = ctx.scale(60_000, 2_000_000);
    ctx.phase("random", n, |_, rng, obs| {
        let n = rng.range(2, 12);
        match rng.below(3) {
            0 => random(rng, n, &|r| r.below(3) as u32, obs),
            1 => random(rng, n, &|r| r.below(3) as u32 * 65_536, obs),
            _ => random(rng, n, &|r| *r.pick(&[0, 1, 0x7fff_ffff, 0x8000_0000, u32::MAX - 1, u32::MAX]), obs),
        }
    });
    let n = ctx.scale(1_500, 30_000);
    ctx.phase("larger", n, |_, rng, obs| {
        let n = gen::among(rng, &[50, 128, 255, 256, 257, 300, 1_000]);
        let m = *rng.pick(&[1u64, 2, 16, 255, 256, 257, 1 << 32]);
        random(rng, n, &|r| r.below(m) as u32, obs)
    });
    // Two expressions far apart, with many IDs in between.
    let n = ctx.scale(48, 600);
    ctx.phase("far apart", n, |i, rng, obs| {
        let n = gen::among(rng, &[10_000, 32_768, 65_536, 65_537, 70_000, 100_000, 140_000]);
        let first = rng.usize(n / 2);
        let at = if i % 2 == 0 { n - 1 } else { rng.range(first + 1, n - 1) };
        let exprs: Vec<&str> = (0..n).map(|_| kinds(rng.below(13))).collect();
        let shift = gen::id(rng);
        let mut ids: Vec<u32> = (0..n as u32).map(|k| spread(k, shift)).collect();
        let mut flags: Vec<Flags> = (0..n).map(|k| if ids[k] & 4 == 0 { Flags::SINGLEMATCH } else { Flags::empty() }).collect();
        ids[at] = ids[first];
        flags[at] = flags[first] ^ Flags::SINGLEMATCH;
        if i % 8 == 7 {
            flags[at] = flags[first];
        }
        obs.distinct_of(&(n, first, at));
        check(&exprs, &flags, &ids, i, obs)
    });
    // The two at every power of two from each other, as a sum and as bits.
    let n = if ctx.thorough { 21 * 8 } else { 18 * 4 };
    ctx.phase("distances", n, |i, rng, obs| {
        let k = 1usize << (i % if n == 72 { 18 } else { 21 });
        let first = match rng.below(3) {
            0 => 0,
            1 => rng.usize(40),
            _ => rng.usize(70_000),
        };
        let first = if rng.bool() { first & !k } else { first };
        let at = first + k;
        let n = at + 1 + rng.usize(3);
        let exprs: Vec<&str> = (0..n).map(|_| kinds(rng.below(13))).collect();
        let shift = gen::id(rng);
        let mut ids: Vec<u32> = (0..n as u32).map(|k| spread(k, shift)).collect();
        let mut flags: Vec<Flags> = (0..n).map(|k| if ids[k] & 4 == 0 { Flags::SINGLEMATCH } else { Flags::empty() }).collect();
        ids[at] = ids[first];
        flags[at] = flags[first] ^ Flags::SINGLEMATCH;
        obs.distinct_of(&(n, first, at));
        check(&exprs, &flags, &ids, i, obs)
    });
    // More different IDs than 20 bits can count, or as many as there may be.
    let n = if ctx.thorough { 12 } else { 2 };
    let all = std::mem::replace(&mut ctx.threads, 2);
    ctx.phase("farthest", n, |i, rng, obs| {
        let n = if i >= 8 { 8_000_000 } else { (1 << 20) + 10 + rng.usize(1000) };
        let first = if i % 2 == 0 { rng.usize(3) } else { rng.usize(n / 2) };
        let exprs: Vec<&str> = vec![["a|b", "ab"][(i % 2) as usize]; n];
        let shift = gen::id(rng);
        let mut ids: Vec<u32> = (0..n as u32).map(|k| spread(k, shift)).collect();
        let mut flags: Vec<Flags> = (0..n).map(|k| if ids[k] & 4 == 0 { Flags::SINGLEMATCH } else { Flags::empty() }).collect();
        ids[n - 1] = ids[first];
        flags[n - 1] = flags[first] ^ Flags::SINGLEMATCH;
        obs.distinct_of(&(n, first));
        check(&exprs, &flags, &ids, i, obs)
    });
    ctx.threads = all;
    let n = ctx.scale(40_000, 800_000);
    ctx.phase("kin", n, |_, rng, obs| {
        let n = rng.range(2, 9);
        let kin = work::Kin::new(rng, n, false, false);
        let refs = kin.refs();
        obs.distinct_of(&(&refs, kin.flags.iter().map(|f| f.bits()).collect::<Vec<_>>(), &kin.ids));
        check(&refs, &kin.flags, &kin.ids, rng.below(6), obs)
    });
    ctx.require("conflicts", 5_000);
    ctx.require("sets which agree", 5_000);
    ctx.finish()
}
