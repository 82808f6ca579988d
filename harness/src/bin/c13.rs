//! C13: report bookkeeping.
#[cfg(rescan_verif = "report")]
use rescan::verif::report::with_manager;
#[cfg(rescan_verif = "trace_reports")]
use rescan::verif::trace::{self, Event};
use rescan::{compile_multi, Flags};
use std::collections::{BTreeMap, HashMap};
use vh::{gen, model, sut, work, Ctx, Obs, Rng, Verdict};

#[global_allocator]
static A: vh::alloc::Counting = vh::alloc::Counting;

#[cfg(rescan_verif = "report")]
/// A history of operations on a manager against maps.
fn history(rng: &mut Rng, limit: usize, len: usize, spread: u64, obs: &mut Obs) -> Verdict {
    let mut ids: HashMap<u64, u32> = HashMap::new();
    let mut reports: Vec<u64> = Vec::new();
    let mut external: BTreeMap<u32, (bool, u32)> = BTreeMap::new();
    let mut exhaust = true;
    let mut keys: HashMap<u32, u32> = HashMap::new();
    let polarity = rng.below(4);
    // Numbers which agree in all but a few bits, or in their low or high ones.
    let related = rng.bool();
    let base = rng.next();
    let step_bits = rng.below(64);
    let num = |rng: &mut Rng| -> u64 {
        if related {
            return match rng.below(4) {
                0 => base,
                1 => base ^ 1 << rng.below(64),
                2 => base ^ 1 << rng.below(32),
                _ => base.wrapping_add(rng.below(spread.min(8)) << step_bits),
            };
        }
        match rng.below(9) {
            8 => gen::num(rng),
            0 => *rng.pick(&[0, 1, u64::MAX, u32::MAX as u64, 1 << 32, i64::MAX as u64, 1 << 63]),
            _ => rng.below(spread),
        }
    };
    let r = sut(|| {
        with_manager(limit, |m| {
            for step in 0..len {
                match rng.below(8) {
                    0..=2 => {
                        let v = num(rng);
                        let got = m.internal_id(v);
                        obs.add("reports asked for", 1);
                        match (ids.get(&v), got) {
                            (Some(want), Ok(id)) if id == *want => {}
                            (None, Ok(id)) if reports.len() < limit => {
                                if id as usize != reports.len() {
                                    return Err(format!("step {step}: report {v} got ID {id}, the next is {}", reports.len()));
                                }
                                ids.insert(v, id);
                                reports.push(v);
                            }
                            (None, Err(e)) if reports.len() >= limit => {
                                if !e.to_lowercase().contains("limit") {
                                    return Err(format!("step {step}: the limit of {limit} gave {e:?}"));
                                }
                                obs.add("refused by the limit", 1);
                            }
                            (want, got) => {
                                return Err(format!(
                                    "step {step}: report {v} gave {got:?}, expected {want:?} with {} of {limit} reports",
                                    reports.len()
                                ))
                            }
                        }
                        obs.max("most reports", reports.len() as u64);
                    }
                    3..=5 => {
                        let id = num(rng) as u32;
                        let single = match polarity {
                            0 => true,
                            1 => rng.bool(),
                            2 => id & 1 == 0,
                            _ => rng.chance(31, 32),
                        };
                        let index = rng.next() as u32;
                        let got = m.register(id, single, index);
                        match external.get(&id).copied() {
                            None => {
                                external.insert(id, (single, index));
                                exhaust &= single;
                                if got.is_err() {
                                    return Err(format!("step {step}: new ID {id} was refused: {got:?}"));
                                }
                                obs.add("IDs registered", 1);
                            }
                            Some((s, _)) if s == single => {
                                if got.is_err() {
                                    return Err(format!("step {step}: ID {id} was refused: {got:?}"));
                                }
                                obs.add("IDs registered again", 1);
                            }
                            Some((s, first)) => {
                                let Err(e) = got else {
                                    return Err(format!("step {step}: ID {id} has SINGLEMATCH={s}, accepted {single}"));
                                };
                                if !model::names(&e, "index ", index as u64)
                                    || !model::names(&e, "index ", first as u64)
                                    || !model::names(&e, "match ID ", id as u64)
                                {
                                    return Err(format!("step {step}: conflict of {index} with {first} for ID {id} gave {e:?}"));
                                }
                                obs.add("IDs refused", 1);
                            }
                        }
                    }
                    6 => {
                        let id = num(rng) as u32;
                        let got = m.exhaustible_key(id);
                        let next = keys.len() as u32;
                        let want = *keys.entry(id).or_insert(next);
                        obs.add("exhaustion keys", 1);
                        if got != want {
                            return Err(format!("step {step}: the exhaustion key of {id} is {got}, expected {want}"));
                        }
                    }
                    _ => {
                        if rng.chance(1, 8) {
                            // Documented to panic.
                            let k = (reports.len() as u32).saturating_add(if rng.bool() { rng.below(8) as u32 } else { rng.next() as u32 });
                            let resolved = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| m.report(k)));
                            obs.add("IDs never given", 1);
                            if let Ok(v) = resolved {
                                return Err(format!("step {step}: of {} reports, number {k} is {v}", reports.len()));
                            }
                        }
                        if !reports.is_empty() {
                            let k = rng.usize(reports.len());
                            if m.report(k as u32) != reports[k] {
                                return Err(format!("step {step}: report {k} is {}, expected {}", m.report(k as u32), reports[k]));
                            }
                        }
                    }
                }
                if step % 16 == 0 || step + 1 == len {
                    let (ext, ex) = m.external();
                    let want: Vec<(u32, bool, u32)> = external.iter().map(|(k, v)| (*k, v.0, v.1)).collect();
                    if ext != want {
                        return Err(format!("step {step}: the IDs registered are {ext:?}, expected {want:?}"));
                    }
                    if ex != exhaust {
                        return Err(format!("step {step}: globally exhaustible is {ex}, expected {exhaust}"));
                    }
                    if m.num_reports() != reports.len() {
                        return Err(format!("step {step}: {} reports, expected {}", m.num_reports(), reports.len()));
                    }
                    for (k, v) in reports.iter().enumerate() {
                        if m.report(k as u32) != *v {
                            return Err(format!("step {step}: report {k} is {}, expected {v}", m.report(k as u32)));
                        }
                    }
                    obs.add("states compared", 1);
                }
            }
            Ok(())
        })
    });
    obs.distinct_of(&(reports, external.len(), limit));
    r.map_err(|e| format!("a history with limit {limit} {e}"))?
}

#[cfg(rescan_verif = "trace_reports")]
/// What a compilation registers.
fn set(rng: &mut Rng, n: usize, obs: &mut Obs) -> Verdict {
    let exprs: Vec<String> = (0..n).map(|_| work::small(rng)).collect();
    let refs: Vec<&str> = exprs.iter().map(|s| s.as_str()).collect();
    let m = *rng.pick(&[1u64, 3, 50, 1 << 32]);
    let (base, apart) = (rng.next() as u32, rng.bool());
    let ids: Vec<u32> = (0..n)
        .map(|_| if apart { base ^ 1 << rng.below(32) } else { rng.below(m) as u32 })
        .collect();
    let all = rng.below(3);
    let flags: Vec<Flags> = ids
        .iter()
        .map(|id| {
            let mut f = gen::good_flags(rng);
            f.set(Flags::SINGLEMATCH, all == 0 || all == 1 && id % 2 == 0);
            f
        })
        .collect();
    trace::take();
    let md = rng.below(6);
    let ok = sut(|| compile_multi(&refs, &flags, &ids, &gen::mode(md)).map(|_| ()).map_err(|e| e.to_string()))?;
    let events = trace::take();
    if let Err(e) = ok {
        return Err(format!("{refs:?} {flags:?} {ids:?} was refused: {e}"));
    }
    let mut want: BTreeMap<u32, (bool, u32)> = BTreeMap::new();
    for i in 0..n {
        want.entry(ids[i]).or_insert((flags[i].contains(Flags::SINGLEMATCH), i as u32));
    }
    let want: Vec<(u32, bool, u32)> = want.iter().map(|(k, v)| (*k, v.0, v.1)).collect();
    let exhaust = flags.iter().all(|f| f.contains(Flags::SINGLEMATCH));
    match events.last() {
        Some(Event::Done { external, num_reports, .. }) => {
            obs.add("compiled sets", 1);
            if external.0 != want {
                return Err(format!("{refs:?} {ids:?}: registered {:?}, expected {want:?}", external.0));
            }
            if external.1 != exhaust {
                return Err(format!("{refs:?} {flags:?}: globally exhaustible is {}, expected {exhaust}", external.1));
            }
            keys(&events, obs).map_err(|e| format!("{refs:?} {flags:?} {ids:?}: {e}"))?;
            let literals = events.iter().filter(|e| matches!(e, Event::Literal { .. })).count();
            if *num_reports > literals {
                return Err(format!("{refs:?}: {num_reports} reports for {literals} literals"));
            }
            Ok(())
        }
        e => Err(format!("{refs:?}: expected the end of a compilation, got {e:?}")),
    }
}

/// Literals of single-match IDs have exhaustion keys, consecutive ones; no other
/// IDs have.
#[cfg(rescan_verif = "trace_reports")]
#[allow(unused_variables)]
fn keys(events: &[Event], obs: &mut Obs) -> Result<(), String> {
    #[cfg(rescan_verif = "trace_keys")]
    {
        let keys: Vec<_> = events.iter().filter_map(|e| if let Event::Keys(k) = e { Some(k) } else { None }).collect();
        if keys.len() != 1 {
            return Err(format!("expected the keys at the end, got {keys:?}"));
        }
        obs.add("exhaustion keys of sets", keys[0].len() as u64);
        let mut single = std::collections::BTreeSet::new();
        let mut users = std::collections::BTreeSet::new();
        for e in events {
            match e {
                Event::Literal { bytes, report, highlander: true, .. } => {
                    users.insert(i64::from(*report));
                    // One of mixed sensitivity is no match for the literal matcher.
                    let alike = |up: bool| bytes.iter().all(|b| !b.0.is_ascii_alphabetic() || b.1 == up);
                    if alike(true) || alike(false) {
                        single.insert(i64::from(*report));
                    }
                }
                Event::Graph { expr, .. } if expr.highlander => {
                    users.insert(i64::from(expr.report));
                }
                _ => {}
            }
        }
        let have: std::collections::BTreeSet<i64> = keys[0].iter().map(|k| k.0).collect();
        if let Some(id) = single.difference(&have).next() {
            return Err(format!("single-match ID {id} has no exhaustion key"));
        }
        if let Some(id) = have.difference(&users).next() {
            return Err(format!("ID {id}, which is not single-match, has an exhaustion key"));
        }
        let mut numbers: Vec<u32> = keys[0].iter().map(|k| k.1).collect();
        numbers.sort_unstable();
        if keys[0].len() != have.len() || numbers.iter().enumerate().any(|(i, &n)| n != i as u32) {
            return Err(format!("exhaustion keys are {:?}", keys[0]));
        }
    }
    Ok(())
}

fn main() {
    let mut ctx = Ctx::new("C13");
    #[cfg(rescan_verif = "report")]
    managers(&mut ctx);
    #[cfg(rescan_verif = "trace_reports")]
    sets(&mut ctx);
    ctx.finish()
}

#[cfg(rescan_verif = "report")]
fn managers(ctx: &mut Ctx) {
    let n = ctx.scale(20_000, 500_000);
    ctx.phase("histories", n, |_, rng, obs| {
        let limit = match rng.below(6) {
            0 => rng.usize(3),
            1 => rng.usize(20),
            2 => gen::among(rng, &[255, 256, 257]),
            3 => *rng.pick(&[usize::MAX, 1 << 32, 1 << 31, (1 << 32) + 2, 1 << 63]),
            _ => 32_000_000,
        };
        let len = rng.range(1, 200);
        let spread = *rng.pick(&[2u64, 5, 20, 300, u64::MAX]);
        history(rng, limit, len, spread, obs)
    });
    let n = ctx.scale(40, 600);
    ctx.phase("long histories", n, |_, rng, obs| {
        let limit = gen::among(rng, &[255, 256, 1_000, 4_096, 65_536, 32_000_000]);
        let len = gen::among(rng, &[2_000, 20_000]);
        let spread = *rng.pick(&[300u64, 5_000, u64::MAX]);
        history(rng, limit, len, spread, obs)
    });
    // Limits met exactly.
    ctx.phase("limits", 400, |i, _, obs| {
        let limit = i as usize;
        obs.distinct(i);
        sut(|| {
            with_manager(limit, |m| {
                for k in 0..limit as u64 {
                    if m.internal_id(k * 7) != Ok(k as u32) {
                        return Err(format!("report {k} of {limit} was refused or misnumbered"));
                    }
                }
                for k in 0..3 {
                    if m.internal_id(u64::MAX - k).is_ok() {
                        return Err(format!("a report above the limit of {limit} was given an ID"));
                    }
                }
                for k in 0..limit as u64 {
                    if m.internal_id(k * 7) != Ok(k as u32) || m.report(k as u32) != k * 7 {
                        return Err(format!("report {k} changed at the limit of {limit}"));
                    }
                }
                obs.add("limits met", 1);
                Ok(())
            })
        })?
    });
    // More reports, keys and IDs than 16 bits, or 17, can count.
    let n = ctx.scale(4, 40);
    ctx.phase("many", n, |i, rng, obs| {
        let n = [65_536u64 + 70, (1 << 17) + 3, 300_000, 66_000][i as usize % 4];
        let step = rng.next() | 1;
        let at = |k: u64| k.wrapping_mul(step);
        let id = |k: u64| (k as u32).wrapping_mul(step as u32);
        obs.distinct(step);
        sut(|| {
            with_manager(32_000_000, |m| {
                for k in 0..n {
                    if m.internal_id(at(k)) != Ok(k as u32) {
                        return Err(format!("report {k} of {n} was refused or misnumbered"));
                    }
                    if m.exhaustible_key(id(k)) != k as u32 {
                        return Err(format!("exhaustion key {k} of {n} is another"));
                    }
                    if let Err(e) = m.register(id(k), k % 3 != 1, k as u32) {
                        return Err(format!("match ID {k} of {n} was refused: {e}"));
                    }
                }
                let mut probes: Vec<u64> = (0..200).map(|_| rng.below(n)).collect();
                probes.extend([0, 1, 255, 256, 65_535, 65_536, n - 1]);
                for k in probes {
                    if m.internal_id(at(k)) != Ok(k as u32) || m.report(k as u32) != at(k) {
                        return Err(format!("report {k} of {n} changed"));
                    }
                    if m.exhaustible_key(id(k)) != k as u32 {
                        return Err(format!("exhaustion key {k} of {n} changed"));
                    }
                    if m.register(id(k), k % 3 != 1, 9).is_err() {
                        return Err(format!("match ID {k} of {n} was refused once more"));
                    }
                    let Err(e) = m.register(id(k), k % 3 == 1, 9) else {
                        return Err(format!("match ID {k} of {n} was forgotten"));
                    };
                    if !model::names(&e, "index ", k) || !model::names(&e, "match ID ", id(k) as u64) {
                        return Err(format!("a conflict with match ID {k} of {n} gave {e:?}"));
                    }
                }
                let (ext, exhaust) = m.external();
                if ext.len() as u64 != n || exhaust || m.num_reports() as u64 != n {
                    return Err(format!("{} IDs and {} reports of {n}, globally exhaustible {exhaust}", ext.len(), m.num_reports()));
                }
                obs.add("numbers of many", 3 * n);
                Ok(())
            })
        })?
    });
    // Numbers which differ in one bit are different.
    ctx.phase("bits", 64 * 5, |i, rng, obs| {
        let bit = i % 64;
        let base = match i / 64 {
            0 => 0,
            1 => u64::MAX,
            _ => rng.next(),
        };
        sut(|| {
            with_manager(32_000_000, |m| {
                let (a, b) = (base, base ^ 1 << bit);
                for _ in 0..2 {
                    if m.internal_id(a) != Ok(0) || m.internal_id(b) != Ok(1) || m.report(0) != a || m.report(1) != b {
                        return Err(format!("reports {a:#x} and {b:#x} are not told apart"));
                    }
                }
                let (a, b) = if bit < 32 { (a as u32, b as u32) } else { ((a >> 32) as u32, (b >> 32) as u32) };
                for _ in 0..2 {
                    if m.exhaustible_key(a) != 0 || m.exhaustible_key(b) != 1 {
                        return Err(format!("exhaustion keys of {a:#x} and {b:#x} are not told apart"));
                    }
                }
                let (sa, sb) = (i % 2 == 0, i % 2 == 1);
                if m.register(a, sa, 7).is_err() || m.register(b, sb, 8).is_err() {
                    return Err(format!("match IDs {a:#x} and {b:#x} are not told apart"));
                }
                let mut want = vec![(a, sa, 7), (b, sb, 8)];
                want.sort();
                if m.external() != (want.clone(), false) {
                    return Err(format!("IDs {a:#x} and {b:#x} are registered as {:?}, expected {want:?}", m.external()));
                }
                obs.add("numbers told apart", 3);
                obs.distinct_of(&(a, b));
                Ok(())
            })
        })?
    });
    ctx.require("refused by the limit", 1_000);
    ctx.require("IDs refused", 1_000);
    ctx.require("exhaustion keys", 10_000);
    ctx.require("numbers told apart", 900);
}

#[cfg(rescan_verif = "trace_reports")]
fn sets(ctx: &mut Ctx) {
    let n = ctx.scale(20_000, 400_000);
    ctx.phase("sets", n, |_, rng, obs| {
        let n = rng.range(1, 12);
        set(rng, n, obs)
    });
    let n = ctx.scale(30, 400);
    ctx.phase("large sets", n, |_, rng, obs| {
        let n = gen::among(rng, &[300, 1_000, 10_001, 66_000]);
        set(rng, n, obs)
    });
    ctx.require("compiled sets", 10_000);
}
