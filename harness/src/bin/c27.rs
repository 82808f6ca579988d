//! C27: what a graph tells about itself is so.
use rescan::verif::holder::Holder;
use std::collections::BTreeSet;
use vh::{gen, sut, Ctx, Obs, Rng, Verdict};

#[global_allocator]
static A: vh::alloc::Counting = vh::alloc::Counting;

#[derive(Clone, Copy, Debug, Eq, Hash, PartialEq)]
enum Op {
    Vertex,
    Edge(usize, usize),
    Report(usize, u32),
}

struct Model {
    special: [usize; 4],
    vertices: usize,
    edges: BTreeSet<(usize, usize)>,
    reports: Vec<BTreeSet<u32>>,
}

impl Model {
    fn vacuous(&self) -> bool {
        let [s, ds, a, eod] = self.special;
        [s, ds].iter().any(|x| [a, eod].iter().any(|y| self.edges.contains(&(*x, *y))))
    }
    fn all_reports(&self) -> Vec<u32> {
        let [_, _, a, eod] = self.special;
        let from: BTreeSet<usize> = self.edges.iter().filter(|e| e.1 == a || e.1 == eod).map(|e| e.0).collect();
        let all: BTreeSet<u32> = from.iter().flat_map(|v| self.reports[*v].iter().copied()).collect();
        all.into_iter().collect()
    }
}

/// Applies the operations, whose vertices are numbered special ones first.
fn check(ops: &[Op], each: bool, obs: &mut Obs) -> Verdict {
    sut(|| run(ops, each, obs)).map_err(|e| format!("{ops:?} {e}"))?
}

fn run(ops: &[Op], each: bool, obs: &mut Obs) -> Verdict {
    let mut h = Holder::new();
    let special = h.special();
    let mut distinct = special.to_vec();
    distinct.sort_unstable();
    distinct.dedup();
    if distinct.len() != 4 || h.num_vertices() != 4 {
        return Err(format!("a new graph of {} vertices, the special ones {special:?}", h.num_vertices()));
    }
    let [start, start_ds, accept, accept_eod] = special;
    let mut m = Model {
        special,
        vertices: 4,
        edges: [(start, start_ds), (start_ds, start_ds), (accept, accept_eod)].into_iter().collect(),
        reports: vec![BTreeSet::new(); 4],
    };
    let mut names = special.to_vec();
    let compare = |h: &Holder, m: &Model, k: usize| {
        let show = || format!("after {k} of {ops:?}, special vertices {special:?}");
        if h.num_vertices() != m.vertices {
            return Err(format!("{}: {} vertices, expected {}", show(), h.num_vertices(), m.vertices));
        }
        if h.is_vacuous() != m.vacuous() {
            return Err(format!("{}: vacuous is {}", show(), h.is_vacuous()));
        }
        if h.all_reports() != m.all_reports() {
            return Err(format!("{}: the reports are {:?}, expected {:?}", show(), h.all_reports(), m.all_reports()));
        }
        Ok(())
    };
    compare(&h, &m, 0)?;
    for (k, op) in ops.iter().enumerate() {
        match *op {
            Op::Vertex => {
                let v = h.add_vertex();
                if names.contains(&v) {
                    return Err(format!("after {k} of {ops:?}: a new vertex is {v} again"));
                }
                names.push(v);
                if m.reports.len() <= v {
                    m.reports.resize(v + 1, BTreeSet::new());
                }
                m.vertices += 1;
            }
            Op::Edge(a, b) => {
                h.add_edge(names[a], names[b]);
                m.edges.insert((names[a], names[b]));
            }
            Op::Report(v, id) => {
                h.add_report(names[v], id);
                m.reports[names[v]].insert(id);
            }
        }
        if each {
            compare(&h, &m, k + 1)?;
        }
    }
    compare(&h, &m, ops.len())?;
    obs.add("graphs", 1);
    obs.add(if m.vacuous() { "vacuous graphs" } else { "other graphs" }, 1);
    if m.all_reports().len() > 1 {
        obs.add("graphs with several reports", 1);
    }
    obs.max("largest graph", m.vertices as u64);
    Ok(())
}

fn history(rng: &mut Rng, vertices: usize, edges: usize) -> Vec<Op> {
    let mut n = 4;
    let mut ops = vec![];
    let pick = |rng: &mut Rng, n: usize| if rng.bool() { rng.usize(4) } else { rng.usize(n) };
    // Which of the edges that make a graph vacuous there may be, and how often.
    let (which, mut times) = match rng.below(4) {
        0 => (0, 0),
        1 => (15, edges),
        _ => (1 << rng.below(4), 1),
    };
    // Whether most edges are of one vertex.
    let hub = if rng.chance(1, 3) { Some((rng.usize(4), rng.bool())) } else { None };
    let ids = *rng.pick(&[1, 3, 100]);
    let base = gen::id(rng);
    for k in 0..vertices + edges {
        match rng.below(4) {
            0 if n - 4 < vertices => {
                ops.push(Op::Vertex);
                n += 1;
            }
            1 => ops.push(Op::Report(pick(rng, n), base.wrapping_add(rng.below(ids) as u32 * (k as u32 % 3 + 1)))),
            _ => {
                let (mut a, mut b) = (pick(rng, n), pick(rng, n));
                match hub {
                    Some((v, true)) if rng.chance(4, 5) => a = v,
                    Some((v, false)) if rng.chance(4, 5) => b = v,
                    _ => {}
                }
                if a < 2 && (b == 2 || b == 3) {
                    if which >> (a * 2 + b - 2) & 1 == 0 || times == 0 {
                        continue;
                    }
                    times -= 1;
                }
                ops.push(Op::Edge(a, b));
            }
        }
    }
    ops
}

fn main() {
    let mut ctx = Ctx::new("C27");
    // All sets of edges among the special vertices, and each report once.
    ctx.phase("special", 1 << 16, |i, rng, obs| {
        let mut ops: Vec<Op> = (0..16).filter(|k| i >> k & 1 == 1).map(|k| Op::Edge(k / 4, k % 4)).collect();
        rng.shuffle(&mut ops);
        for v in 0..4 {
            if rng.bool() {
                ops.insert(rng.usize(ops.len() + 1), Op::Report(v, v as u32 * 7));
            }
        }
        obs.distinct(i);
        check(&ops, false, obs)
    });
    let n = ctx.scale(100_000, 4_000_000);
    ctx.phase("histories", n, |_, rng, obs| {
        let most = *rng.pick(&[6, 6, 6, 60]);
        let (v, e) = (rng.usize(most), rng.usize(most * 3));
        let ops = history(rng, v, e);
        obs.distinct_of(&ops);
        obs.sample(|| format!("{ops:?}"));
        check(&ops, true, obs)
    });
    let n = ctx.scale(100, 4_000);
    ctx.phase("large", n, |_, rng, obs| {
        let (v, e) = (gen::among(rng, &[100, 1_000, 10_000]) as usize, rng.usize(20_000));
        let ops = history(rng, v, e);
        obs.distinct_of(&ops);
        check(&ops, false, obs)
    });
    ctx.require("vacuous graphs", 20_000);
    ctx.require("other graphs", 20_000);
    ctx.require("graphs with several reports", 20_000);
    ctx.finish()
}
