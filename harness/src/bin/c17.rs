//! C17: the scanning mode and the runtime implementation of a database.
use rescan::verif::rose::{engine, mode_traits, pick, Impl, Resources, Scanning};
use rescan::{compile, compile_multi, Flags, Mode, SomHorizon};
use vh::{gen, model, sut, work, Ctx, Obs, Rng, Verdict};

#[global_allocator]
static A: vh::alloc::Counting = vh::alloc::Counting;

fn resources(b: u64) -> Resources {
    let t = |k: u64| b >> k & 1 == 1;
    Resources {
        has_outfixes: t(0),
        has_suffixes: t(1),
        has_leftfixes: t(2),
        has_literals: t(3),
        has_states: t(4),
        checks_groups: t(5),
        has_lit_delay: t(6),
        has_lit_check: t(7),
        has_anchored: t(8),
        has_anchored_multiple: t(9),
        has_anchored_large: t(10),
        has_floating: t(11),
        has_eod: t(12),
    }
}

fn scanning(mode: u64) -> Scanning {
    match gen::mode(mode) {
        Mode::Block => Scanning::Block,
        Mode::Stream(_) => Scanning::Stream,
        Mode::Vectored => Scanning::Vectored,
    }
}

fn set(exprs: &[&str], rng: &mut Rng, mode: u64, obs: &mut Obs) -> Verdict {
    let flags: Vec<Flags> = exprs.iter().map(|_| gen::good_flags(rng)).collect();
    let single = exprs.len() == 1 && rng.bool();
    with_flags(exprs, &flags, single, mode, obs)
}

/// `single` is whether to use `compile`.
fn with_flags(exprs: &[&str], flags: &[Flags], single: bool, mode: u64, obs: &mut Obs) -> Verdict {
    let ids: Vec<u32> = (0..exprs.len() as u32).collect();
    let call = || {
        let e: Vec<String> = exprs.iter().take(5).map(|e| gen::show(e)).collect();
        let how = if single { "compile" } else { "compile_multi" };
        let f = &flags[..flags.len().min(5)];
        format!("{how} of {} expressions [{}], {f:?}, {}", exprs.len(), e.join(", "), gen::mode_name(mode))
    };
    let go = || match single {
        true => compile(exprs[0], flags[0], &gen::mode(mode)),
        false => compile_multi(exprs, flags, &ids, &gen::mode(mode)),
    };
    let db = sut(|| go().map_err(|e| e.to_string()))
        .map_err(|e| format!("{} {e}", call()))?
        .map_err(|e| format!("{} was refused: {e}", call()))?;
    let got = sut(|| engine(&db))?;
    // No resources are tracked yet, so only the full engine is safe.
    let want = (Impl::FullRose, scanning(mode));
    obs.add(if single { "databases of one expression" } else { "databases" }, 1);
    obs.distinct_of(&(exprs, mode % 6));
    if got == want {
        Ok(())
    } else {
        Err(format!("{}: the database is {got:?}, expected {want:?}", call()))
    }
}

fn main() {
    let mut ctx = Ctx::new("C17");
    // Every combination of resources in every context.
    ctx.phase("resources", 1 << 16, |i, _, obs| {
        let r = resources(i & 0x1fff);
        let (streaming, vectored, som) = (i >> 13 & 1 == 1, i >> 14 & 1 == 1, i >> 15 & 1 == 1);
        let got = sut(|| pick(&r, streaming, vectored, som)).map_err(|e| format!("{r:?} {e}"))?;
        let pure = r.has_floating
            && !(r.has_outfixes
                || r.has_suffixes
                || r.has_leftfixes
                || r.has_anchored
                || r.has_eod
                || r.has_states
                || r.has_lit_delay
                || r.checks_groups
                || streaming && r.has_lit_check);
        let want = if pure { Impl::PureLiteral } else { Impl::FullRose };
        obs.add(if pure { "pure literal" } else { "full" }, 1);
        obs.distinct(i);
        obs.sample(|| format!("{r:?} streaming {streaming} -> {got:?}"));
        if got == want {
            Ok(())
        } else {
            Err(format!("{r:?}, streaming {streaming}, vectored {vectored}, start of match {som}: {got:?}, expected {want:?}"))
        }
    });
    ctx.phase("modes", 6, |i, _, obs| {
        let mode = gen::mode(i);
        let got = sut(|| mode_traits(&mode))?;
        let want = match mode {
            Mode::Block => (false, false, 0),
            Mode::Stream(None) => (true, false, 0),
            Mode::Stream(Some(SomHorizon::Large)) => (true, false, 8),
            Mode::Stream(Some(SomHorizon::Medium)) => (true, false, 4),
            Mode::Stream(Some(SomHorizon::Small)) => (true, false, 2),
            Mode::Vectored => (true, true, 8),
        };
        obs.add("modes", 1);
        if got == want {
            Ok(())
        } else {
            Err(format!("{}: (streaming, vectored, bytes of precision) = {got:?}, expected {want:?}", gen::mode_name(i)))
        }
    });
    // All sets of flags in all modes, for several kinds of expressions.
    let kinds = ["", "a", "abc", "a|b", "(*UTF8)a", "((x)|)y"];
    ctx.phase("flags", 6 * (1 << 11) * 6 * 2, |i, _, obs| {
        let flags = Flags::from_bits_truncate((i / 6 % (1 << 11)) as u16);
        if flags.contains(Flags::QUIET | Flags::SOM_LEFTMOST) {
            return Ok(());
        }
        let k = i / 6 >> 11;
        obs.add("databases by flags", 1);
        with_flags(&[kinds[(k % 6) as usize]], &[flags], k >= 6, i % 6, obs)
    });
    let n = ctx.scale(40_000, 1_000_000);
    ctx.phase("databases", n, |i, rng, obs| {
        let n = if rng.bool() { 1 } else { rng.range(2, 10) };
        let exprs: Vec<String> = (0..n)
            .map(|_| if rng.chance(1, 4) { gen::accepted(rng, 500, true) } else { work::small(rng) })
            .filter(|e| model::outcome(e, Flags::empty()).is_ok())
            .collect();
        let mut refs: Vec<&str> = exprs.iter().map(|s| s.as_str()).collect();
        if refs.is_empty() {
            refs.push("a");
        }
        set(&refs, rng, i, obs)
    });
    ctx.phase("large sets", 24, |i, rng, obs| {
        let n = gen::among(rng, &[1_000, 10_001, 66_000]);
        let pool: Vec<String> = (0..30).map(|_| work::small(rng)).collect();
        let refs: Vec<&str> = (0..n).map(|_| pool[rng.usize(30)].as_str()).collect();
        set(&refs, rng, i, obs)
    });
    ctx.require("databases", 20_000);
    ctx.require("databases of one expression", 20_000);
    ctx.require("pure literal", 1);
    ctx.finish()
}
