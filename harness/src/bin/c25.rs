//! C25: tuning knobs change how an expression is handled, not what it means.
use rescan::verif::grey::{compile_multi, Knobs};
use rescan::verif::trace::{self, Event};
use rescan::Flags;
use vh::{gen, model, sut, work, Ctx, Obs, Rng, Verdict};

#[global_allocator]
static A: vh::alloc::Counting = vh::alloc::Counting;

type Outcome = Result<(), (String, String)>;

struct Seen {
    outcome: Outcome,
    events: Vec<Event>,
}

fn run(exprs: &[&str], flags: &[Flags], ids: &[u32], mode: u64, k: &Knobs) -> Result<Seen, String> {
    trace::take();
    let outcome = sut(|| compile_multi(exprs, flags, ids, &gen::mode(mode), k).map(|_| ()).map_err(|e| (e.to_string(), format!("{e:?}"))));
    let events = trace::take();
    Ok(Seen { outcome: outcome?, events })
}

fn graph_of(e: &Event) -> Option<(usize, Vec<Vec<u8>>)> {
    match e {
        Event::Graph { expr, graph } => {
            let mut r = graph.reach.clone();
            r.sort();
            Some((expr.index, r))
        }
        _ => None,
    }
}

fn check(exprs: &[&str], flags: &[Flags], ids: &[u32], mode: u64, k: &Knobs, obs: &mut Obs) -> Verdict {
    let n = exprs.len();
    let call = || {
        let e: Vec<String> = exprs.iter().take(5).map(|e| gen::show(e)).collect();
        format!("{n} expressions [{}], {:?}, {}, {k:?}", e.join(", "), &flags[..n.min(5)], gen::mode_name(mode))
    };
    let plain = sut(Knobs::default)?;
    let base = run(exprs, flags, ids, mode, &plain).map_err(|e| format!("{} (default knobs): {e}", call()))?;
    let got = run(exprs, flags, ids, mode, k).map_err(|e| format!("{}: {e}", call()))?;
    if base.outcome != got.outcome {
        return Err(format!("{}: {:?}, with the default knobs {:?}", call(), got.outcome, base.outcome));
    }
    // Which expressions are offered as literals, and which become graphs.
    let mut offered = vec![false; n];
    let mut graphs = vec![None; n];
    let mut done = None;
    for e in &got.events {
        match e {
            Event::Literal { index, bytes, .. } => {
                let i = *index as usize;
                let p = model::outcome(exprs[i], flags[i]);
                if !p.is_ok_and(|p| p.is_literal() && p.literal() == *bytes) {
                    return Err(format!("{}: expression {i} is not the literal {:?}", call(), &bytes[..bytes.len().min(20)]));
                }
                if std::mem::replace(&mut offered[i], true) {
                    return Err(format!("{}: expression {i} is offered twice", call()));
                }
            }
            Event::Graph { expr, .. } => {
                let g = graph_of(e);
                if std::mem::replace(&mut graphs[expr.index], g).is_some() {
                    return Err(format!("{}: expression {} has two graphs", call(), expr.index));
                }
            }
            Event::Done { .. } => done = Some(e),
            #[allow(unreachable_patterns)]
            _ => {}
        }
    }
    let refused_at = got.outcome.as_ref().err().and_then(|e| {
        let t = e.0.rsplit(' ').next()?;
        t.parse::<usize>().ok()
    });
    let literal = k.allow_literal && k.shortcut_literals;
    let mut shortest: Option<u32> = None;
    for i in 0..refused_at.unwrap_or(n) {
        let p = model::outcome(exprs[i], flags[i]).map_err(|f| format!("{}: expression {i}: {f:?}", call()))?;
        let want_graph = !(p.is_literal() && literal);
        if graphs[i].is_some() != want_graph {
            let (a, b) = if want_graph { ("no graph", "a graph") } else { ("a graph", "none") };
            return Err(format!("{}: expression {i} has {a}, expected {b}", call()));
        }
        if let Some(g) = &graphs[i] {
            // A vertex for each character, besides those all graphs have.
            let known = cfg!(rescan_verif = "trace_graph");
            let mut left: Vec<&Vec<u8>> = g.1.iter().collect();
            for c in p.chars.iter().filter(|_| known) {
                let want = model::class(*c, p.caseless);
                match left.iter().position(|r| **r == want) {
                    Some(at) => {
                        left.swap_remove(at);
                    }
                    None => return Err(format!("{}: the graph of expression {i} has no vertex for {want:?}", call())),
                }
            }
            obs.add(if p.is_literal() { "graphs of literals" } else { "graphs" }, 1);
        } else {
            let w = p.chars.len() as u32;
            shortest = Some(shortest.map_or(w, |s| s.min(w)));
            obs.add("literals", 1);
        }
    }
    if let Some(Event::Done { min_width, external, num_reports, smwr, .. }) = done {
        let (Some(Event::Done { external: e0, .. }), true) = (base.events.last(), got.outcome.is_ok()) else {
            return Err(format!("{}: refused, but done", call()));
        };
        let sort = |v: &Vec<(u32, bool, u32)>| {
            let mut v = v.clone();
            v.sort();
            v
        };
        if sort(&external.0) != sort(&e0.0) || external.1 != e0.1 {
            return Err(format!("{}: registers other match IDs than with the default knobs", call()));
        }
        if *min_width != shortest {
            return Err(format!("{}: the shortest literal has {shortest:?} characters, got {min_width:?}", call()));
        }
        if cfg!(rescan_verif = "trace_reports") && (*num_reports > 0) != shortest.is_some() {
            return Err(format!("{}: {num_reports} reports for literals", call()));
        }
        let held = (smwr.trie.vertices.len() + smwr.trie_nocase.vertices.len()).saturating_sub(2);
        if held > 0 && (!k.allow_small_write || shortest.is_none() || n > k.small_write_max_patterns) {
            return Err(format!("{}: the small-write tries hold {held} vertices", call()));
        }
        if cfg!(rescan_verif = "trace_smwr") && !k.allow_small_write && !smwr.poisoned {
            return Err(format!("{}: the small-write engine is not allowed, but was not given up", call()));
        }
        obs.add("sets", 1);
    } else if got.outcome.is_ok() {
        return Err(format!("{}: accepted, but not done", call()));
    } else {
        obs.add("sets refused", 1);
    }
    if graphs.iter().zip(&offered).any(|(g, o)| g.is_some() && *o) {
        obs.add("sets with literals turned away", 1);
    }
    Ok(())
}

fn knobs(rng: &mut Rng) -> Knobs {
    let mut k = Knobs::default();
    match rng.below(4) {
        0 => k.allow_literal = false,
        1 => k.shortcut_literals = false,
        2 => k.allow_small_write = false,
        _ => {
            k.allow_literal = rng.bool();
            k.shortcut_literals = rng.bool();
            k.allow_small_write = rng.bool();
        }
    }
    k.flood_as_puffette = rng.bool();
    if rng.bool() {
        k.small_write_largest_buffer = rng.usize(80);
        k.small_write_max_patterns = rng.usize(12);
        k.small_write_max_literals = rng.usize(12);
    } else if rng.chance(1, 4) {
        for v in [&mut k.small_write_largest_buffer, &mut k.small_write_max_patterns, &mut k.small_write_max_literals] {
            *v = *rng.pick(&[0, 1, 255, 256, 65_536, 1 << 32, usize::MAX - 1, usize::MAX]);
        }
    }
    k
}

fn main() {
    let mut ctx = Ctx::new("C25");
    let n = gen::strings(4, if ctx.thorough { 8 } else { 6 });
    ctx.phase("grammar", n * 4, |i, rng, obs| {
        let s = gen::nth_string(&work::GRAMMAR, i / 4);
        let k = knobs(rng);
        obs.distinct_of(&(&s, k));
        check(&[&s], &[gen::flags(rng)], &[gen::id(rng)], i, &k, obs)
    });
    let n = ctx.scale(60_000, 1_500_000);
    ctx.phase("sets", n, |i, rng, obs| {
        let n = rng.range(1, 10);
        let exprs: Vec<String> = (0..n)
            .map(|_| match rng.below(12) {
                0 => gen::any(rng, 120),
                1..=4 => gen::accepted(rng, 120, true),
                _ => work::small(rng),
            })
            .collect();
        let refs: Vec<&str> = exprs.iter().map(|s| s.as_str()).collect();
        let flags: Vec<Flags> = (0..n).map(|_| if rng.chance(1, 30) { gen::flags(rng) } else { gen::good_flags(rng) }).collect();
        // Few IDs, so that expressions disagree about SINGLEMATCH now and then.
        let spread = *rng.pick(&[3u64, 1 << 32]);
        let ids: Vec<u32> = (0..n).map(|_| rng.below(spread) as u32).collect();
        let k = knobs(rng);
        obs.distinct_of(&(exprs.clone(), k));
        obs.sample(|| format!("{:?} {k:?}", &exprs[..n.min(3)]));
        check(&refs, &flags, &ids, i, &k, obs)
    });
    let n = ctx.scale(60, 1_500);
    ctx.phase("large sets", n, |i, rng, obs| {
        let n = gen::among(rng, &[256, 1_000, 10_000, 10_001]);
        let pool: Vec<String> = (0..100).map(|_| work::small(rng)).collect();
        let refs: Vec<&str> = (0..n).map(|_| pool[rng.usize(100)].as_str()).collect();
        let ids: Vec<u32> = (0..n as u32).collect();
        let k = knobs(rng);
        obs.distinct_of(&(n, i));
        check(&refs, &vec![Flags::empty(); n], &ids, i, &k, obs)
    });
    ctx.require("sets", 10_000);
    ctx.require("graphs of literals", 10_000);
    ctx.require("literals", 10_000);
    ctx.finish()
}
