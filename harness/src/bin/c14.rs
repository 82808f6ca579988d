//! C14: the small-write trie holds exactly the literals it was given.
#[cfg(rescan_verif = "smwr")]
use rescan::verif::smwr::{self, Builder, State, Trie};
#[cfg(rescan_verif = "trace_smwr")]
use rescan::verif::trace::{self, Event};
#[cfg(not(rescan_verif = "smwr"))]
use rescan::verif::trace::{SmallWrite as State, Trie};
use rescan::{compile_multi, Flags};
use std::collections::{BTreeMap, BTreeSet};
use vh::{gen, model, sut, work, Ctx, Obs, Rng, Verdict};

#[global_allocator]
static A: vh::alloc::Counting = vh::alloc::Counting;

#[derive(Clone, Copy, Debug, Eq, Hash, PartialEq)]
struct Limits {
    allow: bool,
    largest_buffer: usize,
    max_patterns: usize,
    max_literals: usize,
}

const DEFAULTS: Limits = Limits { allow: true, largest_buffer: 70, max_patterns: 10_000, max_literals: 10_000 };

#[cfg(rescan_verif = "smwr")]
fn default_limits() -> Limits {
    let l = smwr::default_limits();
    Limits { allow: l.allow, largest_buffer: l.largest_buffer, max_patterns: l.max_patterns, max_literals: l.max_literals }
}

#[cfg(rescan_verif = "smwr")]
fn with_builder<R>(num_patterns: usize, l: Limits, f: impl FnOnce(&mut Builder<'_>) -> R) -> R {
    let l = smwr::Limits { allow: l.allow, largest_buffer: l.largest_buffer, max_patterns: l.max_patterns, max_literals: l.max_literals };
    smwr::with_builder(num_patterns, l, f)
}

const MAX_VERTICES: usize = 8_000;

/// Each path from the root, with the reports at its end.
type Paths = BTreeMap<Vec<u8>, BTreeSet<u32>>;

/// Reads the paths off a trie, checking that it is a tree.
fn paths(t: &Trie) -> Result<Paths, String> {
    let n = t.vertices.len();
    if t.root >= n || !t.vertices[t.root].1.is_empty() {
        return Err(format!("root {} of {n} vertices", t.root));
    }
    let mut known: Vec<Option<Vec<u8>>> = vec![None; n];
    known[t.root] = Some(vec![]);
    let mut out = Paths::new();
    for v in 0..n {
        // Walk up until a known vertex.
        let mut chain = vec![];
        let mut u = v;
        while known[u].is_none() {
            if chain.len() > n {
                return Err(format!("a cycle at vertex {u}"));
            }
            let p = &t.vertices[u].1;
            if p.len() != 1 || p[0] >= n {
                return Err(format!("vertex {u} has the parents {p:?}"));
            }
            chain.push(u);
            u = p[0];
        }
        for &w in chain.iter().rev() {
            let mut s = known[t.vertices[w].1[0]].clone().unwrap();
            s.push(t.vertices[w].0);
            known[w] = Some(s);
        }
        let s = known[v].clone().unwrap();
        let r = t.vertices[v].2.iter().copied().collect();
        if out.insert(s.clone(), r).is_some() {
            return Err(format!("two vertices for {:?}", String::from_utf8_lossy(&s)));
        }
    }
    Ok(out)
}

#[derive(Clone)]
struct Model {
    /// Case sensitive and caseless.
    tries: [Paths; 2],
    literals: usize,
    poisoned: bool,
    limits: Limits,
    /// What was held when the small-write engine was given up.
    frozen: Option<State>,
}

impl Model {
    fn new(patterns: usize, limits: Limits) -> Self {
        let empty: Paths = [(vec![], BTreeSet::new())].into_iter().collect();
        Model {
            tries: [empty.clone(), empty],
            literals: 0,
            poisoned: !limits.allow || patterns > limits.max_patterns,
            limits,
            frozen: None,
        }
    }
    fn add(&mut self, lit: &[(u8, bool)], report: u32) {
        if self.poisoned || lit.len() > self.limits.largest_buffer {
            return;
        }
        self.literals += 1;
        if self.literals > self.limits.max_literals {
            self.poisoned = true;
            return;
        }
        let t = &mut self.tries[lit.iter().any(|e| e.1) as usize];
        let bytes: Vec<u8> = lit.iter().map(|e| if e.1 { model::upper(e.0) } else { e.0 }).collect();
        for k in 0..bytes.len() {
            t.entry(bytes[..=k].to_vec()).or_default();
        }
        t.get_mut(&bytes).unwrap().insert(report);
        if t.len() > MAX_VERTICES {
            self.poisoned = true;
        }
    }
    fn check(&mut self, s: &State) -> Verdict {
        if s.poisoned != self.poisoned {
            return Err(format!(
                "given up is {}, expected {}, after {} literals with {} and {} vertices ({:?})",
                s.poisoned, self.poisoned, self.literals, self.tries[0].len(), self.tries[1].len(), self.limits
            ));
        }
        if self.poisoned {
            // Given up: nothing is added any more.
            match &self.frozen {
                None => self.frozen = Some(s.clone()),
                Some(f) if f.trie == s.trie && f.trie_nocase == s.trie_nocase => {}
                Some(_) => return Err("the tries changed after they were given up".into()),
            }
            return Ok(());
        }
        for (k, t) in [&s.trie, &s.trie_nocase].into_iter().enumerate() {
            let name = ["case-sensitive", "caseless"][k];
            let got = paths(t).map_err(|e| format!("the {name} trie: {e}"))?;
            if got != self.tries[k] {
                let show = |p: &Vec<u8>| format!("{:?}", String::from_utf8_lossy(p));
                for (p, r) in &self.tries[k] {
                    match got.get(p) {
                        None => return Err(format!("the {name} trie lacks {}", show(p))),
                        Some(g) if g != r => return Err(format!("the {name} trie has reports {g:?} at {}, expected {r:?}", show(p))),
                        _ => {}
                    }
                }
                let extra = got.keys().find(|p| !self.tries[k].contains_key(*p)).unwrap();
                return Err(format!("the {name} trie has {}, which no literal begins with", show(extra)));
            }
            let all: Vec<u32> = self.tries[k].values().flatten().copied().collect::<BTreeSet<_>>().into_iter().collect();
            let (g, e) = if k == 0 { (&s.all_reports.0, s.empty.0) } else { (&s.all_reports.1, s.empty.1) };
            if *g != all {
                return Err(format!("the {name} trie reports {g:?}, expected {all:?}"));
            }
            if e != (self.tries[k].len() == 1) {
                return Err(format!("the {name} trie of {} vertices has empty={e}", self.tries[k].len()));
            }
        }
        Ok(())
    }
}

#[cfg(rescan_verif = "smwr")]
fn lit(rng: &mut Rng, n: usize, pool: u64) -> Vec<(u8, bool)> {
    let nocase = *rng.pick(&[0u64, 0, 2, 1]);
    if n > 0 && rng.chance(1, 8) {
        // All alike.
        let c = (gen::ascii(rng) as u8, nocase == 2);
        return vec![c; n];
    }
    (0..n)
        .map(|_| {
            let c = match pool {
                0 => *rng.pick(b"ab"),
                1 => *rng.pick(b"aAbB"),
                2 => gen::ascii(rng) as u8,
                _ => rng.byte(),
            };
            (c, nocase == 2 || nocase == 1 && rng.bool())
        })
        .collect()
}

#[cfg(rescan_verif = "smwr")]
fn state(b: &Builder) -> Result<State, String> {
    sut(|| b.state())
}

#[cfg(rescan_verif = "smwr")]
fn add(b: &mut Builder, m: &mut Model, l: &[(u8, bool)], r: u32) -> Verdict {
    sut(|| b.add_literal(l, r)).map_err(|e| format!("adding {l:?} with report {r} {e}"))?;
    m.add(l, r);
    Ok(())
}

#[cfg(rescan_verif = "smwr")]
fn history(rng: &mut Rng, limits: Limits, patterns: usize, len: usize, obs: &mut Obs) -> Verdict {
    let pool = rng.below(4);
    let longest = gen::among(rng, &[3, 8, 20, 80]);
    let mut m = Model::new(patterns, limits);
    let mut log: Vec<(Vec<(u8, bool)>, u32)> = vec![];
    let r = with_builder(patterns, limits, |b| {
        m.check(&state(b)?)?;
        for step in 0..len {
            if rng.chance(1, 400) {
                sut(|| b.add_som_expression())?;
                m.poisoned = true;
                obs.add("given up for the start of match", 1);
            }
            let l = if !log.is_empty() && rng.chance(1, 4) {
                // A literal again, its prefix, or with another last byte.
                let mut l = log[rng.usize(log.len())].0.clone();
                match rng.below(4) {
                    0 => {}
                    1 => l.truncate(rng.usize(l.len()).max(1)),
                    2 => l.push((rng.byte(), l[0].1)),
                    _ => {
                        let k = l.len() - 1;
                        l[k].0 ^= 0x20;
                    }
                }
                l
            } else {
                let n = rng.range(1, longest);
                let n = if rng.chance(1, 8) { *rng.pick(&[limits.largest_buffer, limits.largest_buffer + 1]) } else { n };
                lit(rng, n.max(1), pool)
            };
            let r = if rng.bool() { rng.below(4) as u32 } else { rng.next() as u32 };
            add(b, &mut m, &l, r)?;
            obs.add("literals added", 1);
            log.push((l, r));
            if step % 8 == 0 || step + 1 == len || m.poisoned && rng.chance(1, 4) {
                m.check(&state(b)?)?;
                obs.add("states compared", 1);
            }
        }
        m.check(&state(b)?)
    });
    obs.max("most vertices", m.tries[0].len().max(m.tries[1].len()) as u64);
    if m.poisoned {
        obs.add("given up", 1);
    }
    obs.distinct_of(&(log.clone(), patterns));
    r.map_err(|e| format!("after some of {:?} ({} literals): {e}", &log[..log.len().min(6)], log.len()))
}

#[cfg(rescan_verif = "smwr")]
/// Adds literals to a trie until it has the given number of vertices. They
/// begin with bytes which `fill` and `reach` do not use.
fn grow(rng: &mut Rng, b: &mut Builder, m: &mut Model, nocase: bool, target: usize) -> Verdict {
    let which = nocase as usize;
    let mut k = 0usize;
    while m.tries[which].len() < target && !m.poisoned {
        let left = target - m.tries[which].len();
        let mut l: Vec<(u8, bool)> = vec![(0x10 + (k >> 6) as u8, nocase), (0x80 | k as u8 & 63, nocase)];
        while l.len() < 70 {
            l.push((rng.byte() | 0x80, nocase));
        }
        let known = m.tries[which].contains_key(&[l[0].0][..]) as usize;
        l.truncate(known + left.min(70 - known));
        add(b, m, &l, k as u32 % 7)?;
        k += 1;
    }
    Ok(())
}

#[cfg(rescan_verif = "smwr")]
/// How large the other trie is while one is filled.
fn other_size(rng: &mut Rng) -> usize {
    match rng.below(4) {
        0 | 1 => 0,
        2 => MAX_VERTICES - rng.usize(80),
        _ => gen::size(rng, MAX_VERTICES),
    }
}

#[cfg(rescan_verif = "smwr")]
/// Builds a trie with exactly the given number of vertices, then one more.
fn fill(rng: &mut Rng, target: usize, obs: &mut Obs) -> Verdict {
    let limits = sut(default_limits)?;
    let mut m = Model::new(1, limits);
    let nocase = rng.bool();
    let width = rng.range(20, 70);
    let other = other_size(rng);
    with_builder(1, limits, |b| {
        grow(rng, b, &mut m, !nocase, other)?;
        let mut k = 0u32;
        while m.tries[nocase as usize].len() < target && !m.poisoned {
            let left = target - m.tries[nocase as usize].len();
            // A first byte pair no earlier literal has, then fresh vertices.
            let (x, y) = ((k >> 8) as u8, k as u8);
            let mut l: Vec<(u8, bool)> = vec![(0x80 | x, nocase), (0x80 | y >> 4, nocase), (0x80 | y & 15, nocase)];
            while l.len() < width {
                l.push((rng.byte() | 0x80, nocase));
            }
            let t = &m.tries[nocase as usize];
            let fresh = (1..=l.len()).filter(|n| !t.contains_key(&l[..*n].iter().map(|e| e.0).collect::<Vec<_>>())).count();
            if fresh > left {
                l.truncate(l.len() - (fresh - left));
            }
            add(b, &mut m, &l, k % 5)?;
            k += 1;
        }
        m.check(&state(b)?)?;
        obs.max("most vertices", m.tries[nocase as usize].len() as u64);
        if !m.poisoned && m.tries[!nocase as usize].len() + 2 <= MAX_VERTICES {
            // A literal of the other sensitivity does not count.
            add(b, &mut m, &[(b'a', !nocase), (b'b', !nocase)], 1)?;
            m.check(&state(b)?)?;
            add(b, &mut m, &[(0x01, nocase)], 1)?;
            m.check(&state(b)?)?;
        }
        if m.poisoned {
            add(b, &mut m, &[(0x02, nocase)], 1)?;
            m.check(&state(b)?)?;
        }
        obs.add("tries filled", 1);
        obs.distinct_of(&(target, width, nocase));
        Ok(())
    })
    .map_err(|e: String| format!("a trie filled to {target} vertices, the other to {other}: {e}"))
}

#[cfg(rescan_verif = "smwr")]
/// Fills a trie, then reaches a size around the limit with one literal of
/// some length, which shares some of its bytes with an earlier one.
fn reach(rng: &mut Rng, size: usize, last: usize, obs: &mut Obs) -> Verdict {
    let limits = sut(default_limits)?;
    let mut m = Model::new(1, limits);
    let nocase = rng.bool();
    let which = nocase as usize;
    let shared = rng.usize(last);
    let fresh = last - shared;
    let size = size.min(MAX_VERTICES + fresh);
    let other = other_size(rng);
    with_builder(1, limits, |b| {
        grow(rng, b, &mut m, !nocase, other)?;
        let first: Vec<(u8, bool)> = (0..last).map(|k| (0x80 | k as u8, nocase)).collect();
        add(b, &mut m, &first, 0)?;
        let mut k = 0u32;
        // Each literal of this loop begins a branch of its own.
        while m.tries[which].len() + fresh < size {
            let left = size - fresh - m.tries[which].len();
            let mut l: Vec<(u8, bool)> = vec![(0x02, nocase), ((k >> 6) as u8 | 0x80, nocase), ((k & 63) as u8 | 0x80, nocase)];
            while l.len() < 70 {
                l.push((rng.byte() | 0x80, nocase));
            }
            let known = (1..=3).filter(|n| m.tries[which].contains_key(&l[..*n].iter().map(|e| e.0).collect::<Vec<_>>())).count();
            l.truncate(known + left.min(70 - known));
            add(b, &mut m, &l, k)?;
            k += 1;
        }
        m.check(&state(b)?)?;
        let mut l = first[..shared].to_vec();
        l.push((0x01, nocase));
        while l.len() < last {
            l.push((rng.byte() | 0x80, nocase));
        }
        add(b, &mut m, &l, 9)?;
        if m.tries[which].len() != size {
            return Err(format!("the harness reached {} vertices", m.tries[which].len()));
        }
        m.check(&state(b)?)?;
        obs.add(if m.poisoned { "limits passed by one literal" } else { "limits met by one literal" }, 1);
        // Whatever comes next: one of the other sensitivity, the same, more.
        for l in [vec![(b'a', !nocase)], l.clone(), vec![(0x03, nocase)], vec![(0x04, nocase), (0x05, nocase)]] {
            add(b, &mut m, &l, 3)?;
            m.check(&state(b)?)?;
        }
        obs.add("tries filled", 1);
        obs.distinct_of(&(size, last, shared, nocase));
        Ok(())
    })
    .map_err(|e: String| format!("a trie which reaches {size} vertices by a literal of {last}, {fresh} of them new, the other one {other}: {e}"))
}

#[cfg(rescan_verif = "trace_smwr")]
fn configured(exprs: &[&str], flags: &[Flags], ids: &[u32], mode: u64, l: Limits) -> Result<rescan::Database, rescan::CompileError> {
    #[cfg(rescan_verif = "grey")]
    return rescan::verif::grey::compile_multi(
        exprs,
        flags,
        ids,
        &gen::mode(mode),
        &rescan::verif::grey::Knobs {
            allow_small_write: l.allow,
            small_write_largest_buffer: l.largest_buffer,
            small_write_max_patterns: l.max_patterns,
            small_write_max_literals: l.max_literals,
            ..Default::default()
        },
    );
    #[cfg(not(rescan_verif = "grey"))]
    {
        let _ = l;
        compile_multi(exprs, flags, ids, &gen::mode(mode))
    }
}

#[cfg(rescan_verif = "trace_smwr")]
/// What a compilation adds to the tries.
fn set(exprs: &[&str], flags: &[Flags], mode: u64, limits: Option<Limits>, obs: &mut Obs) -> Verdict {
    let n = exprs.len();
    let ids: Vec<u32> = (0..n as u32).collect();
    trace::take();
    let show = || format!("compiling {n} expressions {:?}", exprs.iter().take(4).map(|e| gen::show(e)).collect::<Vec<_>>());
    let ok = sut(|| {
        match limits {
            None => compile_multi(exprs, flags, &ids, &gen::mode(mode)),
            Some(l) => configured(exprs, flags, &ids, mode, l),
        }
        .map(|_| ())
        .map_err(|e| e.to_string())
    })
        .map_err(|e| format!("{} {e}", show()))?;
    let events = trace::take();
    if let Err(e) = ok {
        return Err(format!("{} was refused: {e}", show()));
    }
    let Some(Event::Done { smwr, num_reports, .. }) = events.last() else {
        return Err(format!("{}: expected the end of a compilation", show()));
    };
    let mut m = Model::new(n, limits.unwrap_or(DEFAULTS));
    for (e, f) in exprs.iter().zip(flags) {
        if let Ok(p) = model::outcome(e, *f) {
            if p.is_literal() {
                m.add(&p.literal(), 0);
            }
        }
    }
    // Which internal report a literal has is not specified: compare whether
    // there are any.
    let mut s = State { ..smwr.clone() };
    for t in [&mut s.trie, &mut s.trie_nocase] {
        for v in &mut t.vertices {
            if cfg!(rescan_verif = "trace_reports") && v.2.iter().any(|r| *r as usize >= *num_reports) {
                return Err(format!("{}: a vertex reports {:?} of {num_reports}", show(), v.2));
            }
            v.2.truncate(1);
            v.2.iter_mut().for_each(|r| *r = 0);
        }
    }
    for r in [&mut s.all_reports.0, &mut s.all_reports.1] {
        r.truncate(1);
        r.iter_mut().for_each(|r| *r = 0);
    }
    obs.add(if m.poisoned { "sets without small-write" } else { "sets with small-write" }, 1);
    obs.max("largest set", n as u64);
    m.check(&s).map_err(|e| format!("{} with {limits:?}: {e}", show()))
}

fn main() {
    let mut ctx = Ctx::new("C14");
    #[cfg(rescan_verif = "smwr")]
    builders(&mut ctx);
    #[cfg(rescan_verif = "trace_smwr")]
    compilations(&mut ctx);
    ctx.finish()
}

#[cfg(rescan_verif = "smwr")]
fn builders(ctx: &mut Ctx) {
    let n = ctx.scale(12_000, 300_000);
    ctx.phase("histories", n, |_, rng, obs| {
        let limits = match rng.below(4) {
            0 => Limits {
                allow: !rng.chance(1, 16),
                largest_buffer: rng.usize(12),
                max_patterns: rng.usize(20),
                max_literals: rng.usize(40),
            },
            1 => Limits { allow: true, largest_buffer: rng.range(1, 300), max_patterns: 100, max_literals: 10_000 },
            _ => sut(default_limits)?,
        };
        let patterns = match rng.below(4) {
            0 => rng.usize(24),
            1 => limits.max_patterns + rng.usize(2),
            _ => limits.max_patterns / 2,
        };
        let len = rng.range(1, 60);
        history(rng, limits, patterns, len, obs)
    });
    ctx.phase("defaults", 1, |_, _, _| {
        let l = sut(default_limits)?;
        if (l.allow, l.largest_buffer, l.max_patterns, l.max_literals) == (true, 70, 10_000, 10_000) {
            Ok(())
        } else {
            Err(format!("the default limits are {l:?}"))
        }
    });
    let n = ctx.scale(24, 400);
    ctx.phase("vertices", n, |i, rng, obs| {
        let t = match i % 4 {
            0 => MAX_VERTICES,
            1 => MAX_VERTICES - 1,
            2 => MAX_VERTICES + 1,
            _ => rng.range(MAX_VERTICES - 200, MAX_VERTICES + 50),
        };
        fill(rng, t, obs)
    });
    let n = ctx.scale(70, 1_400);
    ctx.phase("last literals", n, |i, rng, obs| {
        let size = match i / 70 % 4 {
            0 => MAX_VERTICES + 1,
            1 => MAX_VERTICES,
            2 => MAX_VERTICES + 2,
            _ => rng.range(MAX_VERTICES - 3, MAX_VERTICES + 60),
        };
        let last = 70 - i as usize % 70;
        reach(rng, size, last, obs)
    });
    // The number of literals: 10,000 are, one more is not accepted.
    let n = ctx.scale(8, 80);
    ctx.phase("literals", n, |i, rng, obs| {
        let limits = sut(default_limits)?;
        let target = [10_000usize, 10_001, 10_002, 9_999][i as usize % 4];
        let mut m = Model::new(target.min(10_000), limits);
        with_builder(target.min(10_000), limits, |b| {
            for k in 0..target {
                let nocase = rng.bool();
                let l = vec![(b'a' + (k % 26) as u8, nocase), (b'0' + (k / 26 % 10) as u8, nocase)];
                add(b, &mut m, &l, k as u32)?;
                if k + 3 > target {
                    m.check(&state(b)?)?;
                }
                // Too long a literal does not count.
                if k % 100 == 0 {
                    add(b, &mut m, &vec![(b'x', false); 71], 1)?;
                }
            }
            obs.add("literals added", target as u64);
            m.check(&state(b)?)
        })
        .map_err(|e: String| format!("{target} literals: {e}"))
    });
    // Many reports for few literals.
    let n = ctx.scale(24, 300);
    ctx.phase("many reports", n, |i, rng, obs| {
        let limits = sut(default_limits)?;
        let mut m = Model::new(1, limits);
        let count = [130usize, 257, 300, 1_030, 4_100, 9_990][i as usize % 6];
        let few = rng.range(1, 4);
        let pool: Vec<Vec<(u8, bool)>> = (0..few).map(|k| lit(rng, k + 1, 0)).collect();
        let spread = rng.next() as u32 | 1;
        with_builder(1, limits, |b| {
            for k in 0..count as u32 {
                let l = pool[rng.usize(few)].clone();
                add(b, &mut m, &l, k.wrapping_mul(spread))?;
            }
            obs.add("literals added", count as u64);
            obs.distinct_of(&(count, few, spread));
            m.check(&state(b)?)
        })
        .map_err(|e: String| format!("{few} literals with {count} reports: {e}"))
    });
    #[cfg(rescan_verif = "holder")]
    {
        let n = ctx.scale(50_000, 1_000_000);
        ctx.phase("expressions", n, |_, rng, obs| expression(rng, obs));
        ctx.require("vacuous expressions", 10_000);
        ctx.require("expressions with a minimum length", 10_000);
        ctx.require("other expressions", 10_000);
    }
    ctx.require("states compared", 10_000);
    ctx.require("given up", 1_000);
    ctx.require("tries filled", 10);
}

/// An expression for which the engine is given up, or may not be.
#[cfg(all(rescan_verif = "smwr", rescan_verif = "holder"))]
fn expression(rng: &mut Rng, obs: &mut Obs) -> Verdict {
    use rescan::verif::holder::Holder;
    let limits = Limits { allow: rng.chance(15, 16), ..sut(default_limits)? };
    let mut m = Model::new(1, limits);
    // A graph whose vertices, special ones first, are reported by some.
    let mut h = Holder::new();
    let [start, start_ds, accept, accept_eod] = h.special();
    let mut vertices = vec![start, start_ds, accept, accept_eod];
    for _ in 0..rng.usize(5) {
        vertices.push(sut(|| h.add_vertex())?);
    }
    let lengths: Vec<u64> = match rng.below(3) {
        0 => vec![0],
        1 => vec![*rng.pick(&[1, 2, 255, 256, 1 << 32, 1 << 63, u64::MAX]), 0],
        _ => vec![0, *rng.pick(&[1, 2, 255, 256, 1 << 32, 1 << 63, u64::MAX]), 1 << 20],
    };
    let vacuous_too = rng.chance(1, 3);
    let mut edges = vec![];
    let mut reports = vec![];
    for _ in 0..rng.usize(8) {
        let (a, b) = (*rng.pick(&vertices), *rng.pick(&vertices));
        let v = (a == start || a == start_ds) && (b == accept || b == accept_eod);
        if !v || vacuous_too {
            sut(|| h.add_edge(a, b))?;
            edges.push((a, b));
        }
        if rng.bool() {
            let (v, r) = (*rng.pick(&vertices), rng.usize(lengths.len()));
            sut(|| h.add_report(v, r as u32))?;
            reports.push((v, r));
        }
    }
    edges.push((accept, accept_eod));
    let ends = |b: usize| b == accept || b == accept_eod;
    let vacuous = edges.iter().any(|e| (e.0 == start || e.0 == start_ds) && ends(e.1));
    let longer = reports.iter().any(|(v, r)| lengths[*r] > 0 && edges.iter().any(|e| e.0 == *v && ends(e.1)));
    let som = rng.chance(1, 6);
    let what = format!("an expression with start of match {som}, edges {edges:?}, reports {reports:?} of lengths {lengths:?}");
    with_builder(1, limits, |b| {
        for k in 0..rng.usize(4) {
            let n = rng.range(1, 9);
            let l = lit(rng, n, 1);
            add(b, &mut m, &l, k as u32)?;
        }
        m.check(&state(b)?)?;
        let ruled_out = som || vacuous || longer;
        match sut(|| b.add_expression(&h, som, &lengths)) {
            Ok(()) if ruled_out || m.poisoned => {
                obs.add(if som { "expressions with start of match" } else if vacuous { "vacuous expressions" } else { "expressions with a minimum length" }, 1);
                m.poisoned = true;
            }
            // Others are not supported yet.
            Err(_) if !ruled_out && !m.poisoned => obs.add("other expressions", 1),
            Ok(()) if state(b)?.poisoned => return Err("the engine was given up".into()),
            Ok(()) => return Ok(()),
            Err(e) => return Err(e),
        }
        m.check(&state(b)?)?;
        for k in 0..rng.range(1, 3) {
            let n = rng.range(1, 9);
            let l = lit(rng, n, 1);
            add(b, &mut m, &l, k as u32)?;
        }
        m.check(&state(b)?)?;
        obs.distinct_of(&what);
        obs.sample(|| what.clone());
        Ok(())
    })
    .map_err(|e: String| format!("{what}: {e}"))
}

#[cfg(rescan_verif = "trace_smwr")]
fn compilations(ctx: &mut Ctx) {
    let n = ctx.scale(15_000, 300_000);
    ctx.phase("sets", n, |i, rng, obs| {
        let n = rng.range(1, 20);
        let exprs: Vec<String> = (0..n)
            .map(|_| match rng.below(6) {
                0 => {
                    let k = rng.range(60, 75);
                    gen::literal(rng, k)
                }
                1 => work::small(rng),
                2 => gen::accepted(rng, 100, true),
                _ => {
                    let k = rng.range(1, 6);
                    (0..k).map(|_| *rng.pick(&['a', 'A', 'b', '1'])).collect()
                }
            })
            .collect();
        let refs: Vec<&str> = exprs.iter().map(|s| s.as_str()).collect();
        let flags: Vec<Flags> = (0..n).map(|_| gen::good_flags(rng)).collect();
        obs.distinct_of(&exprs);
        set(&refs, &flags, i, None, obs)
    });
    let n = ctx.scale(24, 300);
    ctx.phase("large sets", n, |i, rng, obs| {
        let n = [9_999usize, 10_000, 10_001, 1_000, 150, 400][i as usize % 6];
        let len = if n < 1_000 { 75 } else { 3 };
        let exprs: Vec<String> = (0..n)
            .map(|_| {
                let k = rng.range(1, len);
                gen::literal(rng, k)
            })
            .collect();
        let refs: Vec<&str> = exprs.iter().map(|s| s.as_str()).collect();
        let flags: Vec<Flags> = (0..n).map(|_| if rng.bool() { Flags::CASELESS } else { Flags::empty() }).collect();
        set(&refs, &flags, i, None, obs)
    });
    // The limits are those configured.
    #[cfg(rescan_verif = "grey")]
    {
        let n = ctx.scale(15_000, 300_000);
        ctx.phase("configured", n, |i, rng, obs| {
            let n = rng.range(1, 24);
            let exprs: Vec<String> = (0..n)
                .map(|_| match rng.below(8) {
                    0 => work::small(rng),
                    1 => gen::accepted(rng, 40, true),
                    _ => {
                        let k = rng.range(1, 9);
                        (0..k).map(|_| *rng.pick(&['a', 'A', 'b', '1'])).collect()
                    }
                })
                .collect();
            let refs: Vec<&str> = exprs.iter().map(|s| s.as_str()).collect();
            let some = rng.range(1, 6);
            let flags: Vec<Flags> = (0..n)
                .map(|_| if rng.chance(1, some as u64) { gen::good_flags(rng) } else { Flags::empty() })
                .collect();
            let near = |rng: &mut Rng, k: usize| match rng.below(4) {
                0 => rng.usize(30),
                1 => usize::MAX,
                _ => (k + rng.usize(3)).saturating_sub(1),
            };
            let longest = exprs.iter().map(|e| e.len()).max().unwrap_or(0);
            let literals = (0..n).filter(|k| model::outcome(&exprs[*k], flags[*k]).is_ok_and(|p| p.is_literal())).count();
            let l = Limits {
                allow: !rng.chance(1, 8),
                largest_buffer: near(rng, longest),
                max_patterns: near(rng, n),
                max_literals: near(rng, literals),
            };
            obs.add("configured limits", 1);
            obs.distinct_of(&(&exprs, l));
            set(&refs, &flags, i, Some(l), obs)
        });
        ctx.require("configured limits", 1_000);
    }
    ctx.require("sets with small-write", 5_000);
    ctx.require("sets without small-write", 4);
}
