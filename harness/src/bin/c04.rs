//! C04: compiling a set is compiling its members, in order.
use rescan::{compile, compile_multi, Flags};
use vh::{gen, sut, work, Ctx, Obs, Rng, Verdict};

#[global_allocator]
static A: vh::alloc::Counting = vh::alloc::Counting;

type Outcome = Result<(), (String, String)>;

fn multi(exprs: &[&str], flags: &[Flags], ids: &[u32], mode: u64) -> Result<Outcome, String> {
    sut(|| {
        compile_multi(exprs, flags, ids, &gen::mode(mode))
            .map(|_| ())
            .map_err(|e| (e.to_string(), format!("{e:?}")))
    })
}

/// What a member does on its own, as its error text without the index.
fn alone(expr: &str, flags: Flags, mode: u64) -> Result<Result<(), String>, String> {
    sut(|| compile(expr, flags, &gen::mode(mode)).map(|_| ()).map_err(|e| e.to_string()))
        .map_err(|e| format!("compile({}, {flags:?}) {e}", gen::show(expr)))
        .map(|r| {
            r.map_err(|e| match e.strip_suffix(" in expression 0") {
                Some(s) => s.to_string(),
                None => format!("(without its index) {e}"),
            })
        })
}

fn check(exprs: &[&str], flags: &[Flags], ids: &[u32], mode: u64, first: Option<(usize, String)>, got: Outcome) -> Verdict {
    let call = || {
        let head: Vec<String> = exprs.iter().take(6).map(|e| gen::show(e)).collect();
        format!(
            "compile_multi of {} expressions [{}...] with {:?}, ids {:?}, {}",
            exprs.len(),
            head.join(", "),
            &flags[..flags.len().min(6)],
            &ids[..ids.len().min(6)],
            gen::mode_name(mode)
        )
    };
    match (first, got) {
        (None, Ok(())) => Ok(()),
        (None, Err((e, _))) => Err(format!("{} was refused although each member is accepted: {e}", call())),
        (Some((at, e)), Ok(())) => Err(format!("{} was accepted although member {at} is refused: {e}", call())),
        (Some((at, e)), Err((got, debug))) => {
            let want = format!("{e} in expression {at}");
            if got == want && debug.contains(&format!("index: Some({at})")) {
                Ok(())
            } else {
                Err(format!("{} gave {got:?} ({debug}), expected {want:?}", call()))
            }
        }
    }
}

/// What the compilation of a set hands on for each of its members, and what is
/// known once all were added.
#[cfg(rescan_verif = "trace")]
mod events {
    use super::*;
    use rescan::verif::trace::{self, Event};

    fn of(call: impl FnOnce() -> Result<rescan::Database, rescan::CompileError>) -> Result<Option<Vec<Event>>, String> {
        trace::take();
        let ok = sut(|| call().is_ok());
        let events = trace::take();
        Ok(ok?.then_some(events))
    }

    /// `compile` against `compile_multi` of one with ID 0.
    pub fn single(e: &str, f: Flags, m: u64, obs: &mut Obs) -> Verdict {
        let one = of(|| compile(e, f, &gen::mode(m)))?;
        let set = of(|| compile_multi(&[e], &[f], &[0], &gen::mode(m)))?;
        obs.add("single expressions traced", one.is_some() as u64);
        if one == set {
            return Ok(());
        }
        Err(format!("compile({}, {f:?}) did {one:?}, as a set of one with ID 0 it does {set:?}", gen::show(e)))
    }

    /// The members of a set against each on its own.
    pub fn set(exprs: &[&str], flags: &[Flags], ids: &[u32], m: u64, obs: &mut Obs) -> Verdict {
        let Some(set) = of(|| compile_multi(exprs, flags, ids, &gen::mode(m)))? else { return Ok(()) };
        let mut it = set.into_iter().filter(|e| !matches!(e, Event::Done { .. }));
        for i in 0..exprs.len() {
            let one = of(|| compile_multi(&exprs[i..=i], &flags[i..=i], &ids[i..=i], &gen::mode(m)))?;
            let Some(one) = one else {
                return Err(format!("{exprs:?} {flags:?} {ids:?}: accepted, but member {i} on its own is not"));
            };
            for mut want in one.into_iter().filter(|e| !matches!(e, Event::Done { .. })) {
                match &mut want {
                    Event::Literal { index, .. } => *index = i as u32,
                    Event::Graph { expr, .. } => expr.index = i,
                    _ => {}
                }
                let got = it.next();
                if got.as_ref() != Some(&want) {
                    return Err(format!("{exprs:?} {flags:?} {ids:?}: member {i} does {got:?} in the set, {want:?} on its own"));
                }
                obs.add("members traced", 1);
            }
        }
        match it.next() {
            None => Ok(()),
            Some(e) => Err(format!("{exprs:?} {flags:?} {ids:?}: after all members, {e:?}")),
        }
    }
}

#[cfg(not(rescan_verif = "trace"))]
mod events {
    use super::*;

    pub fn single(_: &str, _: Flags, _: u64, _: &mut Obs) -> Verdict {
        Ok(())
    }

    pub fn set(_: &[&str], _: &[Flags], _: &[u32], _: u64, _: &mut Obs) -> Verdict {
        Ok(())
    }
}

/// IDs and flags for which no two members can disagree on SINGLEMATCH.
fn compatible(rng: &mut Rng, n: usize) -> (Vec<Flags>, Vec<u32>) {
    let mut flags: Vec<Flags> = (0..n).map(|_| gen::flags(rng)).collect();
    let ids: Vec<u32> = if rng.bool() {
        let base = gen::id(rng);
        (0..n as u32).map(|i| base.wrapping_add(i)).collect()
    } else {
        let single = rng.bool();
        for f in &mut flags {
            f.set(Flags::SINGLEMATCH, single);
        }
        (0..n).map(|_| gen::id(rng)).collect()
    };
    (flags, ids)
}

fn set(rng: &mut Rng, n: usize, bad: (u64, u64), obs: &mut Obs) -> Verdict {
    let exprs: Vec<String> = (0..n)
        .map(|_| if rng.chance(bad.0, bad.1) { work::any(rng) } else { work::small(rng) })
        .collect();
    let refs: Vec<&str> = exprs.iter().map(|s| s.as_str()).collect();
    let (mut flags, ids) = compatible(rng, n);
    if rng.chance(2, 3) {
        for f in &mut flags {
            f.remove(Flags::QUIET);
        }
    }
    let mode = rng.below(6);
    let mut first = None;
    for i in 0..n {
        if let Err(e) = alone(refs[i], flags[i], mode)? {
            first = Some((i, e));
            break;
        }
    }
    obs.add(if first.is_some() { "sets refused" } else { "sets accepted" }, 1);
    if let Some((at, _)) = &first {
        obs.max("furthest refused member", *at as u64);
    }
    obs.max("largest set", n as u64);
    obs.distinct_of(&(exprs.clone(), ids.clone()));
    let got = multi(&refs, &flags, &ids, mode).map_err(|e| format!("compile_multi({refs:?}, {flags:?}, {ids:?}) {e}"))?;
    if n <= 300 && first.is_none() {
        events::set(&refs, &flags, &ids, mode, obs)?;
    }
    obs.sample(|| format!("{refs:?} {flags:?} {ids:?} -> {got:?}"));
    check(&refs, &flags, &ids, mode, first, got)
}

fn main() {
    let mut ctx = Ctx::new("C04");
    ctx.mem_cap = 24 << 30;
    let n = ctx.scale(60_000, 1_500_000);
    ctx.phase("single", n, |_, rng, obs| {
        let e = work::any(rng);
        let f = gen::flags(rng);
        let m = rng.below(6);
        let id = gen::id(rng);
        let first = alone(&e, f, m)?.err().map(|e| (0, e));
        let got = multi(&[&e], &[f], &[id], m)?;
        obs.add("single expressions", 1);
        events::single(&e, f, m, obs)?;
        check(&[&e], &[f], &[id], m, first, got)
    });
    let n = ctx.scale(40_000, 1_000_000);
    ctx.phase("sets", n, |_, rng, obs| {
        let n = rng.range(1, 12);
        set(rng, n, (1, 8), obs)
    });
    let n = ctx.scale(400, 10_000);
    ctx.phase("larger sets", n, |_, rng, obs| {
        let n = gen::among(rng, &[64, 127, 128, 129, 255, 256, 257, 300, 1_000, 1_024, 4_097]);
        set(rng, n, (1, 2_000), obs)
    });
    // The refused member far in, behind numbers which do not fit small types.
    let n = ctx.scale(48, 600);
    ctx.phase("far members", n, |i, rng, obs| {
        let n = gen::among(rng, &[65_535, 65_536, 65_537, 66_000, 70_000, 100_000, 131_072, 150_000]);
        let at = match i % 4 {
            0 => n - 1,
            1 => *rng.pick(&[65_534usize, 65_535, 65_536.min(n - 1)]),
            2 => rng.usize(n),
            _ => n,
        };
        let pool: Vec<String> = (0..50).map(|_| work::small(rng)).collect();
        let mut exprs: Vec<&str> = (0..n).map(|_| pool[rng.usize(50)].as_str()).collect();
        let flags = vec![Flags::empty(); n];
        let ids: Vec<u32> = (0..n as u32).collect();
        let mut first = None;
        if at < n {
            exprs[at] = *rng.pick(&["(", ")", "a)", "é", "(*ANY)", "(*x)"]);
            first = Some((at, alone(exprs[at], flags[at], 0)?.err().unwrap_or_default()));
        }
        for e in &pool {
            if alone(e, Flags::empty(), 0)?.is_err() {
                return Ok(()); // cannot happen in a correct tree; C02 decides
            }
        }
        obs.max("largest set", n as u64);
        obs.max("furthest refused member", at as u64);
        obs.add("far members", 1);
        obs.distinct_of(&(n, at, i));
        let got = multi(&exprs, &flags, &ids, i)?;
        check(&exprs, &flags, &ids, i, first, got)
    });
    // Only the flags of the member itself matter.
    let n = ctx.scale(20_000, 400_000);
    ctx.phase("flags of members", n, |_, rng, obs| {
        let n = rng.range(2, 9);
        let exprs: Vec<String> = (0..n).map(|_| work::small(rng)).collect();
        let refs: Vec<&str> = exprs.iter().map(|s| s.as_str()).collect();
        let mut flags: Vec<Flags> = (0..n)
            .map(|_| {
                let f = gen::flags(rng);
                // Parts of the refused combination on their own are fine.
                match rng.below(4) {
                    0 => (f | Flags::QUIET) & !Flags::SOM_LEFTMOST,
                    1 => (f | Flags::SOM_LEFTMOST) & !Flags::QUIET,
                    _ => f & !(Flags::SOM_LEFTMOST | Flags::QUIET),
                }
            })
            .collect();
        let ids: Vec<u32> = (0..n as u32).collect();
        let mut first = None;
        if rng.bool() {
            let at = rng.usize(n);
            flags[at] |= Flags::QUIET | Flags::SOM_LEFTMOST;
            let e = alone(refs[at], flags[at], 0)?.err();
            let Some(e) = e else { return Err(format!("{:?} was accepted with {:?}", refs[at], flags[at])) };
            first = Some((at, e));
        }
        obs.add("flag sets", 1);
        obs.distinct_of(&(exprs.clone(), flags.iter().map(|f| f.bits()).collect::<Vec<_>>()));
        let m = rng.below(6);
        let got = multi(&refs, &flags, &ids, m)?;
        check(&refs, &flags, &ids, m, first, got)
    });
    // Members which resemble each other: the same text, even the same string,
    // the same match ID, flags which differ in a bit.
    let n = ctx.scale(30_000, 600_000);
    ctx.phase("kin", n, |_, rng, obs| {
        let n = rng.range(2, 9);
        let mut kin = work::Kin::new(rng, n, false, false);
        if rng.chance(3, 4) {
            let single = rng.bool();
            kin.flags.iter_mut().for_each(|f| f.set(Flags::SINGLEMATCH, single));
        } else {
            for i in 1..n {
                let first = kin.ids.iter().position(|d| *d == kin.ids[i]).unwrap();
                let single = kin.flags[first].contains(Flags::SINGLEMATCH);
                kin.flags[i].set(Flags::SINGLEMATCH, single);
            }
        }
        let (refs, mode) = (kin.refs(), rng.below(6));
        let mut first = None;
        for i in 0..n {
            if let Err(e) = alone(refs[i], kin.flags[i], mode)? {
                first = Some((i, e));
                break;
            }
        }
        obs.add(if first.is_some() { "kin refused" } else { "kin accepted" }, 1);
        obs.distinct_of(&(&refs, kin.flags.iter().map(|f| f.bits()).collect::<Vec<_>>(), &kin.ids));
        if first.is_none() {
            events::set(&refs, &kin.flags, &kin.ids, mode, obs)?;
        }
        let got = multi(&refs, &kin.flags, &kin.ids, mode).map_err(|e| format!("compile_multi({refs:?}, {:?}, {:?}) {e}", kin.flags, kin.ids))?;
        check(&refs, &kin.flags, &kin.ids, mode, first, got)
    });
    // Parameters which do not go together.
    let side = 9u64;
    ctx.phase("parameters", side * side * side * 4, |i, rng, obs| {
        let (e, f, d) = ((i % side) as usize, (i / side % side) as usize, (i / side / side % side) as usize);
        let scale = [1usize, 1, 32, 8_200][(i / (side * side * side)) as usize];
        let (e, f, d) = (e * scale, f * scale, d * scale);
        let pool: Vec<String> = (0..8).map(|_| if rng.chance(1, 30) { "(".into() } else { work::small(rng) }).collect();
        let exprs: Vec<&str> = (0..e).map(|k| pool[k % 8].as_str()).collect();
        let flags = vec![Flags::empty(); f];
        let ids: Vec<u32> = (0..d as u32).collect();
        let got = multi(&exprs, &flags, &ids, i)
            .map_err(|w| format!("compile_multi of {e} expressions, {f} flags, {d} ids {w}"))?;
        obs.distinct_of(&(e, f, d));
        if e == 0 || e != f || e != d {
            obs.add("bad parameters", 1);
            match got {
                Ok(()) => Err(format!("{e} expressions, {f} flags and {d} ids were accepted")),
                Err((t, _)) if t.contains(" in expression ") => {
                    Err(format!("{e} expressions, {f} flags and {d} ids: blamed on an expression: {t}"))
                }
                Err(_) => Ok(()),
            }
        } else {
            let mut first = None;
            for (k, x) in exprs.iter().enumerate() {
                if let Err(w) = alone(x, Flags::empty(), i)? {
                    first = Some((k, w));
                    break;
                }
            }
            check(&exprs, &flags, &ids, i, first, got)
        }
    });
    // Sets of more bytes in all than 24 to 28 (32 in thorough runs) bits count.
    let n = match (ctx.profile.as_str(), ctx.thorough) {
        ("release", false) => 5,
        ("release", true) => 9,
        (_, false) => 1,
        (_, true) => 3,
    };
    let (all, cpu) = (ctx.threads, ctx.cpu_limit);
    ctx.threads = 4;
    ctx.cpu_limit = 600.0;
    ctx.phase("bytes in all", n, |i, rng, obs| {
        let long = match rng.below(3) {
            0 => "a".repeat(16_000),
            1 => "ab(c)|".repeat(2_666),
            _ => "Xy".repeat(7_999) + "|",
        };
        let count = (1usize << (24 + i)) / long.len() + 2;
        let exprs = vec![&long[..]; count];
        let (flags, ids) = (vec![Flags::empty(); count], vec![rng.below(2) as u32; count]);
        obs.max("most bytes in all", (count * long.len()) as u64);
        obs.add("sets of many bytes", 1);
        match multi(&exprs, &flags, &ids, i)? {
            Ok(()) => Ok(()),
            Err((t, _)) => Err(format!("{count} expressions of {} bytes each were refused: {t}", long.len())),
        }
    });
    ctx.threads = all;
    ctx.cpu_limit = cpu;
    // The limit on the number of expressions.
    ctx.phase("limit", if ctx.profile == "checked" && !ctx.thorough { 1 } else { 2 }, |i, _, obs| {
        let max = 8_000_000usize;
        for n in if i == 0 { vec![max, max + 1] } else { vec![max - 1, max + 2] } {
            let mut exprs = vec!["a"; n];
            exprs[0] = "(";
            let flags = vec![Flags::empty(); n];
            let ids = vec![0u32; n];
            obs.max("largest set", n as u64);
            let (t, debug) = match multi(&exprs, &flags, &ids, 0)? {
                Ok(()) => return Err(format!("{n} expressions, the first invalid, were accepted")),
                Err(e) => e,
            };
            let blamed = t.ends_with(" in expression 0") && debug.contains("index: Some(0)");
            let none = debug.contains("index: None");
            if n <= max && !blamed {
                return Err(format!("{n} expressions, the first invalid: {t:?}"));
            }
            if n > max && !none {
                return Err(format!("{n} expressions are too many, yet: {t:?}"));
            }
            obs.add("sets around the limit", 1);
        }
        Ok(())
    });
    ctx.require("sets refused", 5_000);
    ctx.require("sets accepted", 5_000);
    ctx.require("kin refused", 2_000);
    ctx.require("kin accepted", 2_000);
    ctx.require("bad parameters", 1_000);
    ctx.require("sets around the limit", 2);
    ctx.finish()
}
