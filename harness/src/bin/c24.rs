//! C24: limits on resources are kept exactly.
use rescan::verif::grey::{compile_multi, Knobs};
use rescan::Flags;
use vh::{gen, model, sut, work, Ctx, Obs, Rng, Verdict};

#[global_allocator]
static A: vh::alloc::Counting = vh::alloc::Counting;

/// How many reports a set needs, where no limit stands in the way.
#[cfg(rescan_verif = "trace")]
fn needed(exprs: &[&str], flags: &[Flags], ids: &[u32], mode: u64) -> Option<usize> {
    use rescan::verif::trace::{self, Event};
    trace::take();
    let ok = sut(|| compile_multi(exprs, flags, ids, &gen::mode(mode), &Knobs::default()).is_ok());
    let events = trace::take();
    match events.last() {
        Some(Event::Done { num_reports, .. }) if ok == Ok(true) => Some(*num_reports),
        _ => None,
    }
}

#[cfg(not(rescan_verif = "trace"))]
fn needed(_: &[&str], _: &[Flags], _: &[u32], _: u64) -> Option<usize> {
    None
}

fn check(exprs: &[&str], flags: &[Flags], mode: u64, k: &Knobs, obs: &mut Obs) -> Verdict {
    let n = exprs.len();
    let ids: Vec<u32> = (0..n as u32).collect();
    let call = || {
        let e: Vec<String> = exprs.iter().take(5).map(|e| gen::show(e)).collect();
        format!(
            "{n} expressions [{}], limits of {} expressions, {} bytes and {} reports, {}",
            e.join(", "), k.limit_pattern_count, k.limit_pattern_length, k.limit_report_count, gen::mode_name(mode)
        )
    };
    let got = sut(|| compile_multi(exprs, flags, &ids, &gen::mode(mode), k).map(|_| ()).map_err(|e| (e.to_string(), format!("{e:?}"))))
        .map_err(|e| format!("{}: {e}", call()))?;
    if n > k.limit_pattern_count {
        obs.add("too many expressions", 1);
        return match got {
            Err((d, _)) if !d.contains("expression ") || d.contains("patterns") => Ok(()),
            Err((d, _)) => Err(format!("{}: refused for {d:?}, not for the number of expressions", call())),
            Ok(()) => Err(format!("{}: too many expressions were accepted", call())),
        };
    }
    let mut literals = 0usize;
    for i in 0..n {
        let fail = if exprs[i].len() > k.limit_pattern_length {
            Some(model::Fail::TooLong)
        } else if flags[i].contains(Flags::QUIET | Flags::SOM_LEFTMOST) {
            Some(model::Fail::QuietSom)
        } else {
            match model::parse(exprs[i], flags[i]) {
                Err(f) => Some(f),
                Ok(p) => {
                    literals += p.is_literal() as usize;
                    None
                }
            }
        };
        if let Some(f) = fail {
            if f == model::Fail::TooLong {
                obs.add("too long expressions", 1);
            }
            if k.limit_report_count < literals {
                // It may have been refused for its reports before.
                return if got.is_err() { Ok(()) } else { Err(format!("{}: expected {f:?} in {i}", call())) };
            }
            return match got {
                Ok(()) => Err(format!("{}: accepted, expected {f:?} in {i}", call())),
                Err((d, g)) => model::check_error(&d, &g, &f, i).map_err(|e| format!("{}: {e}", call())),
            };
        }
        if k.limit_report_count == 0 && literals == 1 {
            obs.add("no reports allowed", 1);
            return match got {
                Ok(()) => Err(format!("{}: accepted a literal without any report", call())),
                Err((d, g)) if g.contains("ResourceLimit") && d.ends_with(&format!(" in expression {i}")) => Ok(()),
                Err((d, g)) => Err(format!("{}: expected the report limit to be met in {i}, got {d:?} ({g})", call())),
            };
        }
    }
    // Each literal needs no more than one report, and may share it.
    if k.limit_report_count < literals {
        if let Some(needs) = needed(exprs, flags, &ids, mode) {
            obs.add("sets whose reports were counted", 1);
            match &got {
                Ok(()) if needs > k.limit_report_count => {
                    return Err(format!("{}: accepted, but {needs} reports are needed", call()));
                }
                Err((d, _)) if needs <= k.limit_report_count => {
                    return Err(format!("{}: refused ({d}), but {needs} reports are all that is needed", call()));
                }
                _ => {}
            }
        }
    }
    match got {
        Ok(()) => {
            obs.add("sets within the limits", 1);
            if n == k.limit_pattern_count {
                obs.add("sets at the limit of expressions", 1);
            }
            if exprs.iter().any(|e| e.len() == k.limit_pattern_length) {
                obs.add("sets at the limit of length", 1);
            }
            Ok(())
        }
        Err((d, _)) if k.limit_report_count < literals => {
            if d.contains("limit") {
                Ok(())
            } else {
                Err(format!("{}: refused for {d:?}", call()))
            }
        }
        Err((d, _)) => Err(format!("{}: refused within the limits: {d}", call())),
    }
}

fn near(rng: &mut Rng, n: usize) -> usize {
    match rng.below(9) {
        8 => *rng.pick(&[usize::MAX, usize::MAX - 1, 1 << 63, 1 << 32, (1 << 32) + n, (1 << 31) + 1, 1 << 16, (1 << 16) + n]),
        0 => n.saturating_sub(1),
        1 | 2 => n,
        3 | 4 => n + 1,
        5 => n + 2,
        _ => rng.usize(2 * n + 2),
    }
}

fn main() {
    let mut ctx = Ctx::new("C24");
    ctx.phase("defaults", 1, |_, _, _| {
        let k = sut(Knobs::default)?;
        if (k.limit_pattern_count, k.limit_pattern_length) == (8_000_000, 16_000) && k.limit_report_count >= 8_000_000 {
            Ok(())
        } else {
            Err(format!("the limits are {k:?}"))
        }
    });
    let n = ctx.scale(150_000, 3_000_000);
    ctx.phase("sets", n, |i, rng, obs| {
        let n = rng.range(1, 10);
        let exprs: Vec<String> = (0..n)
            .map(|_| match rng.below(12) {
                0 => gen::any(rng, 50),
                1..=4 => gen::accepted(rng, 50, true),
                _ => work::small(rng),
            })
            .collect();
        let longest = exprs.iter().map(|e| e.len()).max().unwrap();
        let some = exprs[rng.usize(n)].len();
        let mut k = sut(Knobs::default)?;
        match rng.below(4) {
            0 => k.limit_pattern_count = near(rng, n),
            1 => {
                let l = *rng.pick(&[longest, some]);
                let l = near(rng, l);
                k.limit_pattern_length = l;
            }
            2 => k.limit_report_count = *rng.pick(&[0, 0, n, n + 1, 1, n / 2, usize::MAX, 1 << 32, 2]),
            _ => {
                k.limit_pattern_count = near(rng, n);
                let l = *rng.pick(&[longest, some]);
                k.limit_pattern_length = near(rng, l);
                k.limit_report_count = *rng.pick(&[0, n, 2 * n, 32_000_000]);
            }
        }
        let refs: Vec<&str> = exprs.iter().map(|s| s.as_str()).collect();
        let flags: Vec<Flags> = (0..n).map(|_| if rng.chance(1, 30) { gen::flags(rng) } else { gen::good_flags(rng) }).collect();
        obs.distinct_of(&(exprs.clone(), k));
        obs.sample(|| format!("{:?} {k:?}", &exprs[..n.min(3)]));
        check(&refs, &flags, i, &k, obs)
    });
    let n = ctx.scale(3_000, 60_000);
    ctx.phase("long", n, |i, rng, obs| {
        let n = gen::among(rng, &[1, 15, 255, 256, 257, 4_095, 16_000, 16_001, 65_535, 65_536, 70_000]);
        let mut k = sut(Knobs::default)?;
        k.limit_pattern_length = near(rng, n);
        let s = match rng.below(3) {
            0 => gen::valid(rng, n),
            1 => gen::literal(rng, n),
            _ => {
                // Bytes count, not characters.
                let mut s = gen::literal(rng, n.saturating_sub(3));
                s.push(gen::non_ascii(rng));
                s
            }
        };
        obs.distinct_of(&(s.len(), k));
        check(&[&s], &[gen::good_flags(rng)], i, &k, obs)
    });
    let n = ctx.scale(300, 4_000);
    ctx.phase("large sets", n, |i, rng, obs| {
        let n = gen::among(rng, &[255, 256, 1_000, 10_000, 10_001, 65_536]);
        let mut k = sut(Knobs::default)?;
        match rng.below(3) {
            0 => k.limit_pattern_count = near(rng, n),
            1 => k.limit_report_count = *rng.pick(&[n, n + 1]),
            _ => k.limit_pattern_length = rng.usize(9),
        }
        let pool: Vec<String> = (0..50).map(|_| work::small(rng)).collect();
        let exprs: Vec<&str> = (0..n).map(|_| pool[rng.usize(50)].as_str()).collect();
        obs.distinct_of(&(n, k));
        check(&exprs, &vec![Flags::empty(); n], i, &k, obs)
    });
    ctx.require("sets within the limits", 10_000);
    ctx.require("too many expressions", 10_000);
    ctx.require("too long expressions", 10_000);
    ctx.require("no reports allowed", 4_000);
    ctx.require("sets at the limit of expressions", 1_000);
    ctx.require("sets at the limit of length", 1_000);
    ctx.finish()
}
