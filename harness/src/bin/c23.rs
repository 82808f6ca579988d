//! C23: which positions are wired to which.
use rescan::verif::wiring::{connect, Pos, Successors, MULTILINE_START, MUST_FLOAT, NOFLOAT};
use std::collections::{BTreeMap, BTreeSet};
use vh::{gen, sut, Ctx, Obs, Rng, Verdict};

#[global_allocator]
static A: vh::alloc::Counting = vh::alloc::Counting;

type Item = (Pos, u32);
type Calls = Vec<(Vec<Item>, Vec<Item>)>;

fn map(s: &Successors) -> Result<BTreeMap<Pos, BTreeSet<Item>>, String> {
    let mut m = BTreeMap::new();
    for (from, to) in s {
        let set: BTreeSet<Item> = to.iter().copied().collect();
        if set.len() != to.len() {
            return Err(format!("{from:?} has a successor twice: {to:?}"));
        }
        if m.insert(*from, set).is_some() {
            return Err(format!("{from:?} is listed twice"));
        }
    }
    Ok(m)
}

/// What becomes of a successor.
#[derive(PartialEq)]
enum Fate {
    Wired,
    Dropped,
}

fn fate(from: Item, to: Item, asserts: &[u32]) -> Fate {
    let multiline = matches!(from.0, Pos::Plain(n) if asserts.get(n as usize).is_some_and(|f| f & MULTILINE_START != 0));
    if multiline && to.0 == Pos::AcceptEod {
        return Fate::Dropped;
    }
    match from.0 {
        Pos::StartDotStar if from.1 & NOFLOAT != 0 || to.1 & NOFLOAT != 0 => Fate::Dropped,
        Pos::Start if to.0 == Pos::Epsilon && to.1 == 0 => Fate::Dropped,
        Pos::Start if to.1 & MUST_FLOAT != 0 && to.1 & NOFLOAT != 0 => Fate::Dropped,
        _ => Fate::Wired,
    }
}

fn check(asserts: &[u32], calls: &Calls, obs: &mut Obs) -> Verdict {
    let what = || format!("positions with flags {asserts:?}, connecting {calls:?}");
    let states = sut(|| connect(asserts, calls)).map_err(|e| format!("{}: {e}", what()))?;
    if states.len() != calls.len() + 1 {
        return Err("harness: states".into());
    }
    let bad = |k: usize, e: String| format!("{}: after {k} calls: {e}", what());
    let mut before = map(&states[0]).map_err(|e| bad(0, e))?;
    let ds: BTreeSet<Item> = [(Pos::StartDotStar, 0)].into_iter().collect();
    let fresh: BTreeMap<_, _> = [(Pos::Start, ds.clone()), (Pos::StartDotStar, ds)].into_iter().collect();
    if before != fresh {
        return Err(bad(0, format!("a new state wires {before:?}")));
    }
    let mut seen: BTreeSet<u32> = (0..asserts.len() as u32).collect();
    for (k, (lasts, firsts)) in calls.iter().enumerate() {
        let after = map(&states[k + 1]).map_err(|e| bad(k + 1, e))?;
        // What each position must have gained, and how many positions which
        // stand in for accept.
        let mut must: BTreeMap<Pos, BTreeSet<Item>> = BTreeMap::new();
        let mut stand: BTreeMap<Pos, usize> = BTreeMap::new();
        for from in lasts {
            for to in firsts {
                let f = fate(*from, *to, asserts);
                if to.0 == Pos::Accept {
                    *stand.entry(from.0).or_default() += (f == Fate::Wired) as usize;
                    continue;
                }
                if f == Fate::Wired {
                    must.entry(from.0).or_default().insert(*to);
                }
                obs.add(
                    match f {
                        Fate::Wired => "wired",
                        Fate::Dropped => "dropped",
                    },
                    1,
                );
            }
        }
        let none = BTreeSet::new();
        for from in before.keys().chain(after.keys()).chain(must.keys()).collect::<BTreeSet<_>>() {
            let (b, a) = (before.get(from).unwrap_or(&none), after.get(from).unwrap_or(&none));
            if let Some(x) = b.difference(a).next() {
                return Err(bad(k + 1, format!("{from:?} lost {x:?}")));
            }
            if let Some(x) = must.get(from).unwrap_or(&none).difference(a).next() {
                return Err(bad(k + 1, format!("{from:?} is not wired to {x:?}")));
            }
            let mut new = 0;
            for x in a.difference(b) {
                if must.get(from).is_some_and(|m| m.contains(x)) {
                    continue;
                }
                match x {
                    (Pos::Plain(n), 0) if seen.insert(*n) => new += 1,
                    _ => return Err(bad(k + 1, format!("{from:?} is wired to {x:?}"))),
                }
            }
            let want = stand.get(from).copied().unwrap_or_default();
            if new != want {
                return Err(bad(k + 1, format!("{from:?} has {new} fresh positions instead of accept, expected {want}")));
            }
            obs.add("fresh positions instead of accept", new as u64);
        }
        before = after;
        obs.add("calls", 1);
    }
    Ok(())
}

fn main() {
    let mut ctx = Ctx::new("C23");
    // Every position with every flags, to every position with every flags.
    let froms = [Pos::Start, Pos::StartDotStar, Pos::Plain(0), Pos::Plain(1), Pos::Plain(2)];
    let tos = [Pos::Start, Pos::StartDotStar, Pos::Accept, Pos::AcceptEod, Pos::Epsilon, Pos::Plain(0), Pos::Plain(1)];
    let n = 5 * 8 * 7 * 8;
    ctx.phase("single", n, |i, _, obs| {
        let from = (froms[(i % 5) as usize], (i / 5 % 8) as u32);
        let to = (tos[(i / 40 % 7) as usize], (i / 280) as u32);
        obs.distinct(i);
        check(&[0, MULTILINE_START, MULTILINE_START | NOFLOAT], &vec![(vec![from], vec![to])], obs)
    });
    let item = |rng: &mut Rng, plain: usize, to: bool| {
        let p = match rng.below(if to { 8 } else { 4 }) {
            0 => Pos::Start,
            1 => Pos::StartDotStar,
            4 => Pos::AcceptEod,
            5 | 6 => Pos::Epsilon,
            _ if plain > 0 => Pos::Plain(rng.usize(plain) as u32),
            _ => Pos::StartDotStar,
        };
        let f = if rng.bool() { 0 } else { rng.below(8) as u32 };
        (p, f)
    };
    let n = ctx.scale(150_000, 4_000_000);
    ctx.phase("histories", n, |_, rng, obs| {
        let plain = rng.usize(6);
        let asserts: Vec<u32> = (0..plain).map(|_| rng.below(8) as u32).collect();
        let calls: Calls = (0..rng.range(1, 6))
            .map(|_| {
                let a = rng.usize(5);
                let b = rng.usize(7);
                let lasts = (0..a).map(|_| item(rng, plain, false)).collect();
                let mut firsts: Vec<Item> = (0..b).map(|_| item(rng, plain, true)).collect();
                // No more than one accept: what a second one is wired to is
                // not specified.
                if rng.bool() {
                    let at = rng.usize(firsts.len() + 1);
                    firsts.insert(at, (Pos::Accept, rng.below(8) as u32));
                }
                (lasts, firsts)
            })
            .collect();
        obs.distinct_of(&(asserts.clone(), calls.clone()));
        obs.sample(|| format!("{asserts:?} {calls:?}"));
        check(&asserts, &calls, obs)
    });
    let n = ctx.scale(60, 1_000);
    ctx.phase("large", n, |_, rng, obs| {
        let plain = gen::among(rng, &[100, 300, 1_000]);
        let asserts: Vec<u32> = (0..plain).map(|_| rng.below(8) as u32).collect();
        let calls: Calls = (0..3)
            .map(|_| {
                let lasts = (0..40).map(|_| item(rng, plain, false)).collect();
                let mut firsts: Vec<Item> = (0..150).map(|_| item(rng, plain, true)).collect();
                let at = rng.usize(firsts.len() + 1);
                firsts.insert(at, (Pos::Accept, 0));
                (lasts, firsts)
            })
            .collect();
        obs.distinct_of(&calls);
        check(&asserts, &calls, obs)
    });
    // Positions with many successors, connected again one by one.
    let n = ctx.scale(60, 1_000);
    ctx.phase("hubs", n, |_, rng, obs| {
        let plain = gen::among(rng, &[70, 130, 260, 520, 1_030, 2_050]);
        let asserts: Vec<u32> = (0..plain).map(|_| if rng.chance(1, 8) { rng.below(8) as u32 } else { 0 }).collect();
        let hub = item(rng, plain, false);
        let flag = |rng: &mut Rng| if rng.chance(1, 4) { rng.below(8) as u32 } else { 0 };
        let all: Vec<Item> = (0..plain as u32).map(|p| (Pos::Plain(p), flag(rng))).collect();
        let mut calls: Calls = Vec::new();
        for part in all.chunks(rng.range(1, plain).max(plain / 3)) {
            calls.push((vec![hub], part.to_vec()));
        }
        for _ in 0..4 {
            let mut to: Vec<Item> = (0..rng.range(1, 4)).map(|_| item(rng, plain, true)).collect();
            if rng.chance(1, 4) {
                to.push((Pos::Accept, 0));
            }
            calls.push((vec![(hub.0, flag(rng))], to));
        }
        obs.add("hubs", 1);
        obs.max("most first positions", plain as u64);
        obs.distinct_of(&calls);
        check(&asserts, &calls, obs)
    });
    ctx.require("calls", 100_000);
    ctx.require("dropped", 100_000);
    ctx.require("fresh positions instead of accept", 10_000);
    ctx.finish()
}
