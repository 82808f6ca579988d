//! C06: the parse tree is the one the grammar gives.
use rescan::verif::parse::{self, Between};
use rescan::Flags;
use vh::model::Step;
use vh::{gen, model, sut, work, Ctx, Obs, Verdict};

#[global_allocator]
static A: vh::alloc::Counting = vh::alloc::Counting;

fn step(s: &parse::Step) -> Step {
    match s {
        parse::Step::Sequence(n) => Step::Sequence(*n),
        parse::Step::EndSequence => Step::EndSequence,
        parse::Step::Alternation => Step::Alternation,
        parse::Step::EndAlternation => Step::EndAlternation,
        parse::Step::Class(v) => Step::Class(v.clone()),
    }
}

/// Where a walk passes from one child to the next.
fn between(steps: &[Step]) -> Vec<Between> {
    let mut out = vec![];
    // The components around: whether an alternation, and with children so far.
    let mut around: Vec<(bool, bool)> = vec![];
    for (k, s) in steps.iter().enumerate() {
        if matches!(s, Step::EndSequence | Step::EndAlternation) {
            around.pop();
            continue;
        }
        if let Some((alternation, more)) = around.last_mut() {
            if *more {
                out.push(if *alternation { Between::Alternation(k) } else { Between::Sequence(k) });
            }
            *more = true;
        }
        if !matches!(s, Step::Class(_)) {
            around.push((matches!(s, Step::Alternation), false));
        }
    }
    out
}

fn one(expr: &str, flags: Flags, obs: &mut Obs) -> Verdict {
    let call = || format!("parsing {} with {flags:?}", gen::show(expr));
    let got = sut(|| parse::between(expr, flags)).map_err(|e| format!("{} {e}", call()))?;
    match (model::parse(expr, flags), got) {
        (Err(_), Err(_)) => {
            obs.add("refused", 1);
            Ok(())
        }
        (Err(f), Ok(_)) => Err(format!("{}: there is a tree, expected {f:?}", call())),
        (Ok(_), Err(e)) => Err(format!("{}: no tree: {e}", call())),
        (Ok(p), Ok((steps, passed))) => {
            let want = p.steps(expr);
            obs.add("trees", 1);
            obs.add("steps", steps.len() as u64);
            obs.max("largest tree", steps.len() as u64);
            obs.max("most groups", p.groups as u64);
            for (k, w) in want.iter().enumerate() {
                match steps.get(k).map(step) {
                    Some(g) if g == *w => {}
                    g => return Err(format!("{}: step {k} is {g:?}, expected {w:?}", call())),
                }
            }
            if steps.len() != want.len() {
                return Err(format!("{}: {} steps, expected {}", call(), steps.len(), want.len()));
            }
            let passed: Vec<_> = passed.into_iter().filter(|b| !matches!(b, Between::Class(_))).collect();
            let want = between(&want);
            if passed != want {
                let k = passed.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(passed.len().min(want.len()));
                return Err(format!("{}: passing {k} from child to child is {:?}, expected {:?}", call(), passed.get(k), want.get(k)));
            }
            obs.add("from child to child", passed.len() as u64);
            if work::interesting(expr) {
                obs.distinct(work::shape(expr, flags));
            }
            obs.sample(|| format!("{} -> {} steps", call(), steps.len()));
            Ok(())
        }
    }
}

fn main() {
    let mut ctx = Ctx::new("C06");
    let n = gen::strings(4, if ctx.thorough { 11 } else { 9 });
    ctx.phase("grammar", n, |i, rng, obs| one(&gen::nth_string(&work::GRAMMAR, i), gen::flags(rng), obs));
    let n = gen::strings(7, 5);
    ctx.phase("verb-like", n, |i, rng, obs| one(&gen::nth_string(&work::VERBISH, i), gen::flags(rng), obs));
    ctx.phase("pairs", work::PAIRS, |i, rng, obs| one(&work::pair(i), gen::flags(rng), obs));
    let n = ctx.scale(20_000, 300_000);
    ctx.phase("verbs", n, |_, rng, obs| {
        let s = work::verb(rng);
        one(&s, gen::flags(rng), obs)
    });
    let n = ctx.scale(80_000, 2_000_000);
    ctx.phase("random", n, |_, rng, obs| {
        let s = if rng.bool() { gen::accepted(rng, 3000, true) } else { work::any(rng) };
        one(&s, gen::flags(rng), obs)
    });
    let n = ctx.scale(2_000, 40_000);
    ctx.phase("long", n, |_, rng, obs| {
        let s = work::long(rng);
        one(&s, gen::flags(rng), obs)
    });
    let n = ctx.scale(2_400, 20_000);
    ctx.phase("counts", n, |i, rng, obs| {
        let k = if i < 1_600 { i / 4 } else { rng.below(5_300) } as usize;
        let s = match i % 4 {
            0 => "(a".repeat(k) + &"|b)".repeat(k),
            1 => "(a)".repeat(k),
            2 => "a|".repeat(k),
            _ => "(".to_string() + &"(|)".repeat(k) + ")",
        };
        one(&s, gen::flags(rng), obs)
    });
    ctx.require("trees", 50_000);
    ctx.require("refused", 10_000);
    ctx.finish()
}
