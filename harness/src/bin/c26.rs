//! C26: components of any shape are walked in order, and are literals exactly
//! when they can be.
use rescan::verif::component::{self, Between, Given, Node, Sequence};
use rescan::verif::trace::{self, Event};
use std::collections::BTreeMap;
use vh::nodes::{any, class, mixed, Maker, Style, Walk};
use vh::{gen, model, sut, Ctx, Obs, Rng, Verdict};

#[global_allocator]
static A: vh::alloc::Counting = vh::alloc::Counting;

fn short(n: &Node) -> String {
    let mut s = format!("{n:?}");
    if s.len() > 600 {
        s = s.chars().take(600).collect::<String>() + "...";
    }
    s
}

fn walk(n: &Node, obs: &mut Obs) -> Result<Walk, String> {
    let want = Walk::of(n);
    let (steps, between) = sut(|| component::walk(n)).map_err(|e| format!("walking {} {e}", short(n)))?;
    if steps != want.steps {
        let k = steps.iter().zip(&want.steps).position(|(a, b)| a != b).unwrap_or(steps.len().min(want.steps.len()));
        return Err(format!("walking {}: step {k} is {:?}, expected {:?}", short(n), steps.get(k), want.steps.get(k)));
    }
    let between: Vec<_> = between.into_iter().filter(|b| !matches!(b, Between::Class(_))).collect();
    if between != want.between {
        return Err(format!("walking {}: between children {between:?}, expected {:?}", short(n), want.between));
    }
    obs.add("steps", steps.len() as u64);
    obs.add("between children", between.len() as u64);
    obs.max("longest walk", steps.len() as u64);
    Ok(want)
}

fn set(set: &[(Node, Given)], obs: &mut Obs) -> Verdict {
    let walks = set.iter().map(|(n, _)| walk(n, obs)).collect::<Result<Vec<_>, _>>()?;
    let call = || {
        let all: Vec<String> = set.iter().take(3).map(|(n, g)| format!("{} with {g:?}", short(n))).collect();
        format!("adding {} components, {}", set.len(), all.join(", "))
    };
    trace::take();
    let r = sut(|| component::add(set)).map_err(|e| format!("{} {e}", call()))?;
    let events = trace::take();
    let taken = r.map_err(|e| format!("{} was refused: {e}", call()))?;
    let mut it = events.iter().peekable();
    let mut shortest: Option<usize> = None;
    let mut external: BTreeMap<u32, (bool, u32)> = BTreeMap::new();
    let mut som = false;
    for (k, ((n, g), w)) in set.iter().zip(&walks).enumerate() {
        let bad = |what: String| Err(format!("{}: component {k}, {}: {what}", call(), short(n)));
        let lit = w.literal();
        let whole = lit.as_ref().is_some_and(|l| !mixed(l));
        if taken[k] != whole {
            return bad(format!("taken as a literal is {}, expected {whole}", taken[k]));
        }
        // What cannot be taken may be offered first.
        if let Some(Event::Literal { bytes, index, report, highlander, som, quiet }) = it.peek() {
            it.next();
            if Some(bytes) != lit.as_ref() {
                return bad(format!("the literal {bytes:?}, expected {lit:?}"));
            }
            if (*index, *report, *highlander, *som, *quiet) != (k as u32, g.report, g.highlander, g.som, g.quiet) {
                return bad(format!("the literal has index {index}, report {report}, {highlander}, {som}, {quiet}, given {g:?}"));
            }
            obs.add("literals offered", 1);
        } else if whole {
            return bad(format!("no literal, but {:?}", it.peek()));
        }
        if whole {
            let n = lit.as_ref().unwrap().len();
            shortest = Some(shortest.map_or(n, |s| s.min(n)));
            obs.add("literals", 1);
            obs.max("longest literal", n as u64);
        } else {
            let Some(Event::Graph { expr, graph }) = it.next() else {
                return bad("no graph".into());
            };
            if (expr.index, expr.report, expr.highlander, expr.quiet) != (k, g.report, g.highlander, g.quiet) {
                return bad(format!("the graph has {expr:?}, given {g:?}"));
            }
            let mut reach: Vec<&[u8]> =
                (0..graph.reach.len()).filter(|v| !graph.special.contains(v)).map(|v| graph.reach[v].as_slice()).collect();
            let mut want: Vec<&[u8]> = w.classes().collect();
            reach.sort_unstable();
            want.sort_unstable();
            if reach != want {
                return bad(format!("the vertices are reached on {reach:?}, expected {want:?}"));
            }
            obs.add("graphs", 1);
            if lit.is_some() {
                obs.add("mixed literals", 1);
            } else if w.alternations == 0 {
                obs.add("graphs without alternation", 1);
            }
        }
        som |= g.som;
        external.entry(g.report).or_insert((g.highlander, k as u32));
    }
    let Some(Event::Done { min_width, has_som, external: (ids, all), .. }) = it.next() else {
        return Err(format!("{}: events beyond those of the components", call()));
    };
    let shortest = shortest.map(|n| n as u32);
    if *min_width != shortest {
        return Err(format!("{}: the shortest literal has {min_width:?}, expected {shortest:?}", call()));
    }
    if *has_som != som {
        return Err(format!("{}: start of match is {has_som}, expected {som}", call()));
    }
    let want: Vec<_> = external.iter().map(|(id, (h, k))| (*id, *h, *k)).collect();
    let exhaustible = want.iter().all(|e| e.1);
    if *ids != want || *all != exhaustible {
        return Err(format!("{}: registered {ids:?} {all}, expected {want:?} {exhaustible}", call()));
    }
    if it.next().is_some() {
        return Err(format!("{}: more events than components", call()));
    }
    obs.add("sets", 1);
    obs.max("largest set", set.len() as u64);
    Ok(())
}

fn given(rng: &mut Rng, k: u32) -> Given {
    let highlander = rng.bool();
    Given { report: k, highlander, som: !highlander && rng.chance(1, 3), quiet: rng.bool() }
}

fn one(n: Node, rng: &mut Rng, obs: &mut Obs) -> Verdict {
    let id = gen::id(rng);
    let g = given(rng, id);
    obs.distinct_of(&n);
    obs.sample(|| short(&n));
    let v = [(n, g)];
    set(&v, obs)?;
    // What it is does not depend on what was before.
    if rng.chance(1, 3) {
        set(&v, obs)?;
        obs.add("repeated", 1);
    }
    Ok(())
}

/// Replaces one of the classes.
fn change(n: &mut Node, rng: &mut Rng) {
    match n {
        Node::Class(m) => {
            let style = *rng.pick(&[Style::Exact, Style::Caseless, Style::Both]);
            *m = class(rng, style);
        }
        Node::Sequence(s) if !s.children.is_empty() => change(rng.pick_mut(&mut s.children), rng),
        Node::Alternation(v) if !v.is_empty() => {
            let s = rng.pick_mut(v);
            if !s.children.is_empty() {
                change(rng.pick_mut(&mut s.children), rng)
            }
        }
        _ => {}
    }
}

fn chars(caseless: bool, v: &[char], obs: &mut Obs) -> Verdict {
    let got = sut(|| component::class(caseless, v)).map_err(|e| format!("adding {v:?} to a class {e}"))?;
    let mut want = vec![];
    let mut fail = false;
    for &c in v {
        match u8::try_from(u32::from(c)) {
            Ok(b) => want.extend(model::class(b, caseless)),
            Err(_) => {
                fail = true;
                break;
            }
        }
    }
    want.sort_unstable();
    want.dedup();
    obs.distinct_of(&(caseless, v));
    match got {
        Ok(m) if !fail && m == want => obs.add("classes", 1),
        Err(_) if fail => obs.add("classes refused", 1),
        _ => return Err(format!("adding {v:?} to a class, caseless {caseless}: {got:?}, expected {want:?}, refused {fail}")),
    }
    Ok(())
}

fn main() {
    let mut ctx = Ctx::new("C26");
    // Each set of one or two bytes, next to others.
    ctx.phase("pairs", 65_536, |i, rng, obs| {
        let mut m = vec![(i % 256) as u8, (i / 256) as u8];
        m.sort_unstable();
        m.dedup();
        let (style, k) = (*rng.pick(&[Style::Exact, Style::Caseless]), rng.usize(3));
        let mut children: Vec<Node> = (0..k).map(|_| Node::Class(class(rng, style))).collect();
        children.insert(rng.usize(k + 1), Node::Class(m));
        one(Node::Sequence(Sequence { children, ..Sequence::default() }), rng, obs)
    });
    ctx.phase("ranges", 65_536, |i, rng, obs| {
        let (a, b) = ((i % 256) as u8, (i / 256) as u8);
        // Ranges, and with the ends swapped their complements.
        let m: Vec<u8> = (0..=255).filter(|c| if a <= b { (a..=b).contains(c) } else { !(b..=a).contains(c) }).collect();
        one(Node::Class(m), rng, obs)
    });
    let n = ctx.scale(30_000, 2_000_000);
    ctx.phase("any", n, |_, rng, obs| {
        let n = any(rng);
        one(n, rng, obs)
    });
    let n = ctx.scale(8_000, 400_000);
    ctx.phase("sets", n, |_, rng, obs| {
        let base = gen::id(rng);
        let n = rng.range(2, 12) as u32;
        let mut ids: BTreeMap<u32, Given> = BTreeMap::new();
        let mut v: Vec<(Node, Given)> = (0..n)
            .map(|k| {
                let id = base.wrapping_add(if rng.chance(1, 4) { 0 } else { k * 3 });
                let mut g = given(rng, id);
                // Users of an ID agree.
                g.highlander = ids.entry(id).or_insert(g).highlander;
                g.som &= !g.highlander;
                (any(rng), g)
            })
            .collect();
        if rng.chance(1, 3) {
            // All alike.
            for k in 1..v.len() {
                v[k].0 = v[k - 1].0.clone();
                if rng.bool() {
                    change(&mut v[k].0, rng);
                }
            }
        }
        obs.distinct_of(&v);
        set(&v, obs)
    });
    let n = ctx.scale(100, 3_000);
    ctx.phase("large", n, |_, rng, obs| {
        let size = gen::among(rng, &[300, 1_000, 5_000, 20_000]);
        let mut m = Maker::new(rng, size as usize);
        let children = (0..size).map(|_| {
            let depth = rng.usize(3);
            m.node(rng, depth)
        });
        let children: Vec<Node> = children.collect();
        one(Node::Sequence(Sequence { children, ..Sequence::default() }), rng, obs)
    });
    let n = ctx.scale(60, 1_000);
    ctx.phase("deep", n, |_, rng, obs| {
        let depth = gen::among(rng, &[10, 100, 500, 1_000]);
        let mut n = any(rng);
        for _ in 0..depth {
            let s = Sequence { capture_index: Some(rng.below(9) as u32), children: vec![n], ..Sequence::default() };
            n = if rng.chance(1, 20) { Node::Alternation(vec![s]) } else { Node::Sequence(s) };
        }
        one(n, rng, obs)
    });
    ctx.phase("characters", 2 * 0x400, |i, _, obs| {
        let c = char::from_u32(i as u32 / 2).unwrap();
        chars(i % 2 == 1, &[c], obs)
    });
    let n = ctx.scale(40_000, 1_000_000);
    ctx.phase("character sets", n, |_, rng, obs| {
        let k = rng.usize(12);
        let high = rng.chance(1, 4);
        let v: Vec<char> = (0..k)
            .map(|_| match rng.below(4) {
                0 => gen::ascii(rng),
                1 if high => gen::non_ascii(rng),
                _ => rng.byte() as char,
            })
            .collect();
        chars(rng.bool(), &v, obs)
    });
    ctx.require("literals", 20_000);
    ctx.require("mixed literals", 1_000);
    ctx.require("graphs without alternation", 20_000);
    ctx.require("graphs", 50_000);
    ctx.require("between children", 100_000);
    ctx.require("classes", 10_000);
    ctx.require("classes refused", 1_000);
    ctx.finish()
}
