//! C09: the graph of an expression has a vertex for each of its characters.
use rescan::verif::trace::{self, Event, Graph};
use rescan::{compile_multi, Flags};
use vh::{gen, model, sut, work, Ctx, Obs, Rng, Verdict};

#[global_allocator]
static A: vh::alloc::Counting = vh::alloc::Counting;

fn graph(g: &Graph, p: &model::Parsed, obs: &mut Obs) -> Verdict {
    let n = g.reach.len();
    let mut special = g.special.to_vec();
    special.sort_unstable();
    special.dedup();
    if special.len() != 4 || special[3] >= n {
        return Err(format!("the special vertices are {:?} of {n}", g.special));
    }
    let [start, start_ds, accept, accept_eod] = g.special;
    for v in [start, start_ds] {
        if g.reach[v].len() != 256 {
            return Err(format!("start vertex {v} is reached on {} bytes", g.reach[v].len()));
        }
    }
    for v in [accept, accept_eod] {
        if !g.reach[v].is_empty() {
            return Err(format!("accept vertex {v} is reached on {:?}", g.reach[v]));
        }
    }
    for e in [(start, start_ds), (start_ds, start_ds), (accept, accept_eod)] {
        match g.edges.iter().filter(|x| **x == e).count() {
            1 => {}
            k => return Err(format!("{k} edges {e:?}, special vertices {:?}", g.special)),
        }
    }
    for &(a, b) in &g.edges {
        if a >= n || b >= n {
            return Err(format!("edge {a} -> {b} among {n} vertices"));
        }
        if b == start || a == accept_eod {
            return Err(format!("edge {a} -> {b}, special vertices {:?}", g.special));
        }
    }
    let rest: Vec<&Vec<u8>> = (0..n).filter(|v| !g.special.contains(v)).map(|v| &g.reach[v]).collect();
    if rest.len() != p.chars.len() {
        return Err(format!("{} vertices for {} characters", rest.len(), p.chars.len()));
    }
    for (k, c) in p.chars.iter().enumerate() {
        let want = model::class(*c, p.caseless);
        if *rest[k] != want {
            return Err(format!("the vertex of character {k} ({:?}) is reached on {:?}, expected {want:?}", *c as char, rest[k]));
        }
    }
    let vacuous = g.edges.iter().any(|&(a, b)| (a == start || a == start_ds) && (b == accept || b == accept_eod));
    if g.vacuous != vacuous {
        return Err(format!("vacuous is {}, but the edges are {:?}", g.vacuous, g.edges));
    }
    let ends = |v: usize| g.edges.iter().any(|&(a, b)| a == v && (b == accept || b == accept_eod));
    if g.all_reports.is_empty() == (0..n).any(|v| ends(v) && g.reports[v] > 0) {
        return Err(format!("the reports are {:?}, {:?} by vertex", g.all_reports, g.reports));
    }
    obs.add("graphs", 1);
    obs.add("vertices", n as u64);
    obs.max("largest graph", n as u64);
    Ok(())
}

fn check(exprs: &[&str], flags: &[Flags], mode: u64, obs: &mut Obs) -> Verdict {
    let ids: Vec<u32> = (0..exprs.len() as u32).collect();
    trace::take();
    let r = sut(|| compile_multi(exprs, flags, &ids, &gen::mode(mode)).map(|_| ()).map_err(|e| e.to_string()));
    let events = trace::take();
    r.map_err(|e| format!("compiling {:?} {e}", &exprs[..exprs.len().min(4)]))?.ok();
    for e in events {
        if let Event::Graph { expr, graph: g } = e {
            let at = expr.index;
            let show = || format!("graph of {} with {:?} (expression {at})", gen::show(exprs.get(at).unwrap_or(&"?")), flags.get(at));
            let Some(p) = exprs.get(at).and_then(|e| model::parse(e, flags[at]).ok()) else {
                return Err(format!("{}: the expression is not valid", show()));
            };
            if work::interesting(exprs[at]) {
                obs.distinct(work::shape(exprs[at], flags[at]));
            }
            graph(&g, &p, obs).map_err(|e| format!("{}: {e}", show()))?;
            obs.sample(|| format!("{}: {} vertices, {} edges", show(), g.reach.len(), g.edges.len()));
        }
    }
    Ok(())
}

fn branchy(rng: &mut Rng, n: usize) -> String {
    let s = gen::valid(rng, n.saturating_sub(1));
    match rng.below(3) {
        0 => format!("|{s}"),
        1 => format!("{s}|"),
        _ => s,
    }
}

fn main() {
    let mut ctx = Ctx::new("C09");
    let n = gen::strings(4, if ctx.thorough { 10 } else { 7 });
    ctx.phase("grammar", n, |i, rng, obs| check(&[&gen::nth_string(&work::GRAMMAR, i)], &[gen::good_flags(rng)], i, obs));
    ctx.phase("characters", 128 * 64, |i, rng, obs| {
        let c = (i % 128) as u8 as char;
        let f = gen::good_flags(rng);
        let s = match rng.below(4) {
            0 => format!("|{c}"),
            1 => format!("{c}|{c}"),
            2 => format!("({c}|{})", gen::ascii(rng)),
            _ => format!("{}(|){c}", gen::ascii(rng)),
        };
        check(&[&s], &[f], i, obs)
    });
    let n = ctx.scale(40_000, 1_000_000);
    ctx.phase("random", n, |i, rng, obs| {
        let k = match rng.below(6) {
            0 => gen::among(rng, &gen::SIZES),
            1 => rng.usize(400),
            _ => rng.usize(40),
        };
        let mut s = branchy(rng, k);
        if rng.chance(1, 8) {
            s.insert_str(0, rng.pick(&["(*UCP)", "(*UTF8)", "(*UTF)"]));
        }
        check(&[&s], &[gen::good_flags(rng)], i, obs)
    });
    let n = ctx.scale(600, 10_000);
    ctx.phase("long", n, |i, rng, obs| {
        let k = gen::among(rng, &[4_000, 4_093, 8_192, 12_000, 15_999, 16_000]);
        let s = match rng.below(3) {
            0 => branchy(rng, k),
            1 => "a|".repeat(k / 2),
            _ => gen::nested(rng, k / 4) + "|" + &gen::literal(rng, k / 4),
        };
        check(&[&s], &[gen::good_flags(rng)], i, obs)
    });
    let n = ctx.scale(10_000, 200_000);
    ctx.phase("sets", n, |i, rng, obs| {
        let n = rng.range(2, 10);
        let exprs: Vec<String> = (0..n)
            .map(|_| {
                let k = rng.usize(20);
                if rng.chance(1, 4) { gen::literal(rng, k) } else { branchy(rng, k) }
            })
            .collect();
        let refs: Vec<&str> = exprs.iter().map(|s| s.as_str()).collect();
        let flags: Vec<Flags> = (0..n).map(|_| gen::good_flags(rng)).collect();
        check(&refs, &flags, i, obs)
    });
    let n = ctx.scale(10_000, 200_000);
    ctx.phase("kin", n, |i, rng, obs| {
        let n = rng.range(2, 9);
        let kin = work::Kin::new(rng, n, true, true);
        check(&kin.refs(), &kin.flags, i, obs)
    });
    ctx.require("graphs", 30_000);
    ctx.finish()
}
