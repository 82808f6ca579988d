//! C10: character sets are sets.
use rescan::verif::charset::Set;
use vh::{gen, rng, sut, Ctx, Obs, Rng, Verdict};

#[global_allocator]
static A: vh::alloc::Counting = vh::alloc::Counting;

type Model = [bool; 256];

fn of(m: &Model) -> Vec<u8> {
    (0..=255u8).filter(|&c| m[c as usize]).collect()
}

fn edge(rng: &mut Rng) -> u8 {
    match rng.below(3) {
        0 => *rng.pick(&[0u8, 1, 7, 8, 31, 32, 62, 63, 64, 65, 126, 127, 128, 129, 190, 191, 192, 193, 254, 255]),
        _ => rng.byte(),
    }
}

/// Compares every query with the model.
fn same(s: &Set, m: &Model, obs: &mut Obs) -> Verdict {
    let v = of(m);
    let bad = |q: String, got: String, want: String| Err(format!("{q} is {got}, expected {want}, of the set {v:?}"));
    for c in 0..=255u8 {
        if s.test(c) != m[c as usize] {
            return bad(format!("test({c})"), s.test(c).to_string(), m[c as usize].to_string());
        }
    }
    let n = v.len();
    if s.count() as usize != n {
        return bad("count()".into(), s.count().to_string(), n.to_string());
    }
    if (s.none(), s.any(), s.all()) != (n == 0, n > 0, n == 256) {
        return bad("(none, any, all)".into(), format!("{:?}", (s.none(), s.any(), s.all())), format!("{:?}", (n == 0, n > 0, n == 256)));
    }
    if s.find_first() != v.first().copied() {
        return bad("find_first()".into(), format!("{:?}", s.find_first()), format!("{:?}", v.first()));
    }
    if s.find_last() != v.last().copied() {
        return bad("find_last()".into(), format!("{:?}", s.find_last()), format!("{:?}", v.last()));
    }
    for c in 0..=255u8 {
        let want = v.get(v.partition_point(|&x| x <= c)).copied();
        if s.find_next(c) != want {
            return bad(format!("find_next({c})"), format!("{:?}", s.find_next(c)), format!("{want:?}"));
        }
        let want = v.get(c as usize).copied();
        if s.find_nth(c) != want {
            return bad(format!("find_nth({c})"), format!("{:?}", s.find_nth(c)), format!("{want:?}"));
        }
    }
    let text: String = v.iter().map(|&c| c as char).collect();
    if s.display() != text {
        return bad("its text".into(), format!("{:?}", s.display()), format!("{text:?}"));
    }
    obs.add("queries", 256 * 3 + 7);
    Ok(())
}

fn random(rng: &mut Rng) -> Model {
    let mut m = [false; 256];
    match rng.below(9) {
        6.. => m = gen::byteset(rng),
        0 => {}
        1 => m = [true; 256],
        2 => {
            for _ in 0..rng.range(1, 4) {
                m[edge(rng) as usize] = true;
            }
        }
        3 => {
            m = [true; 256];
            for _ in 0..rng.range(1, 4) {
                m[edge(rng) as usize] = false;
            }
        }
        4 => {
            let (a, b) = (edge(rng), edge(rng));
            for x in &mut m[a.min(b) as usize..=a.max(b) as usize] {
                *x = true;
            }
        }
        _ => {
            let den = *rng.pick(&[2u64, 4, 16, 64]);
            for x in &mut m {
                *x = rng.chance(1, den);
            }
        }
    }
    m
}

/// A history of operations on two sets, checked after each.
fn history(rng: &mut Rng, len: usize, obs: &mut Obs) -> Verdict {
    let mut m = [random(rng), random(rng)];
    let mut s = [Set::from_bytes(&of(&m[0])), Set::from_bytes(&of(&m[1]))];
    let mut log = format!("from_bytes({:?}), from_bytes({:?})", of(&m[0]), of(&m[1]));
    let mut h = 0u64;
    for _ in 0..len {
        let k = rng.usize(2);
        let (a, b) = (edge(rng), edge(rng));
        let other = m[1 - k];
        let rhs = s[1 - k];
        let op = rng.below(22);
        h = rng::mix(h ^ (op << 16 | (a as u64) << 8 | b as u64));
        let mk = &mut m[k];
        let name = sut(|| {
            let sk = &mut s[k];
            match op {
                0 => {
                    sk.set(a);
                    mk[a as usize] = true;
                    format!("set({a})")
                }
                1 => {
                    sk.reset(a);
                    mk[a as usize] = false;
                    format!("reset({a})")
                }
                2 => {
                    sk.flip(a);
                    mk[a as usize] ^= true;
                    format!("flip({a})")
                }
                3 => {
                    sk.flip_all();
                    mk.iter_mut().for_each(|x| *x ^= true);
                    "flip_all()".into()
                }
                4 if a & 3 == 0 => {
                    sk.set_all();
                    *mk = [true; 256];
                    "set_all()".into()
                }
                5 if a & 3 == 0 => {
                    sk.reset_all();
                    *mk = [false; 256];
                    "reset_all()".into()
                }
                6 | 7 => {
                    let (a, b) = (a.min(b), a.max(b));
                    sk.set_range(a, b);
                    mk[a as usize..=b as usize].fill(true);
                    format!("set_range({a}, {b})")
                }
                8 => {
                    sk.set_bytes(&[a, b, a]);
                    mk[a as usize] = true;
                    mk[b as usize] = true;
                    format!("set_bytes([{a}, {b}, {a}])")
                }
                9 => {
                    *sk &= rhs;
                    (0..256).for_each(|i| mk[i] &= other[i]);
                    "&=".into()
                }
                10 => {
                    *sk |= rhs;
                    (0..256).for_each(|i| mk[i] |= other[i]);
                    "|=".into()
                }
                11 => {
                    *sk ^= rhs;
                    (0..256).for_each(|i| mk[i] ^= other[i]);
                    "^=".into()
                }
                12 => {
                    *sk = *sk & rhs;
                    (0..256).for_each(|i| mk[i] &= other[i]);
                    "&".into()
                }
                13 => {
                    *sk = *sk | rhs;
                    (0..256).for_each(|i| mk[i] |= other[i]);
                    "|".into()
                }
                14 => {
                    *sk = *sk ^ rhs;
                    (0..256).for_each(|i| mk[i] ^= other[i]);
                    "^".into()
                }
                15 => {
                    *sk = !*sk;
                    mk.iter_mut().for_each(|x| *x ^= true);
                    "!".into()
                }
                16 => {
                    *sk = Set::from_char(a);
                    *mk = [false; 256];
                    mk[a as usize] = true;
                    format!("from_char({a})")
                }
                17 => {
                    let (a, b) = (a.min(b), a.max(b));
                    *sk = Set::from_range(a, b);
                    *mk = [false; 256];
                    mk[a as usize..=b as usize].fill(true);
                    format!("from_range({a}, {b})")
                }
                18 if a & 3 == 0 => {
                    *sk = Set::dot();
                    *mk = [true; 256];
                    "dot()".into()
                }
                19 if a & 3 == 0 => {
                    *sk = Set::default();
                    *mk = [false; 256];
                    "default()".into()
                }
                20 => {
                    *sk = Set::from_bytes(&of(&other));
                    *mk = other;
                    "from_bytes(the other)".into()
                }
                _ => {
                    sk.set(b);
                    mk[b as usize] = true;
                    format!("set({b})")
                }
            }
        });
        let name = name.map_err(|e| format!("operation {op} with {a}, {b} after {log} {e}"))?;
        log.push_str(&format!("; [{k}] {name}"));
        obs.add("operations", 1);
        sut(|| same(&s[k], &m[k], obs)).and_then(|r| r).map_err(|e| format!("after {log}: {e}"))?;
        // Comparisons of the two.
        let sub = |x: &Model, y: &Model| (0..256).all(|i| !x[i] || y[i]);
        let over = (0..256).any(|i| m[0][i] && m[1][i]);
        let got = sut(|| {
            (
                s[0] == s[1],
                s[0].is_subset_of(&s[1]),
                s[1].is_subset_of(&s[0]),
                s[0].overlaps(&s[1]),
                s[1].overlaps(&s[0]),
                (s[0].cmp(&s[1]) == std::cmp::Ordering::Equal),
                rng::hash_of(&s[0]) == rng::hash_of(&s[1]) || s[0] != s[1],
            )
        })?;
        let eq = m[0] == m[1];
        let want = (eq, sub(&m[0], &m[1]), sub(&m[1], &m[0]), over, over, eq, true);
        if got != want {
            return Err(format!(
                "after {log}: (equal, subset, superset, overlap, overlap, same order, same hash) is {got:?}, expected {want:?}"
            ));
        }
        obs.add("comparisons", 1);
        obs.distinct(h);
        obs.extra(1);
    }
    obs.sample(|| log.clone());
    Ok(())
}

/// The simple set number `k` for a byte.
fn simple(k: usize, c: u8) -> Model {
    let mut m = [k == 1; 256];
    match k {
        0 | 1 => m[c as usize] ^= true,
        2 => m[..=c as usize].fill(true),
        3 => m[c as usize..].fill(true),
        _ => {
            m[c as usize] = true;
            m[255 - c as usize] = true;
        }
    }
    m
}

/// Compares a set with a model by its members and their number alone.
fn holds(s: &Set, m: &Model) -> bool {
    (0..=255u8).all(|c| s.test(c) == m[c as usize]) && s.count() as usize == m.iter().filter(|x| **x).count()
}

/// Every operation between a range and simple sets for a byte.
fn crossed(from: u8, to: u8, c: u8, obs: &mut Obs) -> Verdict {
    let mut range = [false; 256];
    range[from as usize..=to as usize].fill(true);
    let r = Set::from_range(from, to);
    for k in 0..5 {
        let m = simple(k, c);
        let s = Set::from_bytes(&of(&m));
        for op in 0..8 {
            let mut got = s;
            let (name, f): (&str, fn(bool, bool) -> bool) = match op {
                0 => {
                    got.set_range(from, to);
                    ("set_range", |a, b| a | b)
                }
                1 => {
                    got |= r;
                    ("|=", |a, b| a | b)
                }
                2 => {
                    got &= r;
                    ("&=", |a, b| a & b)
                }
                3 => {
                    got ^= r;
                    ("^=", |a, b| a ^ b)
                }
                4 => {
                    got = r | s;
                    ("|", |a, b| a | b)
                }
                5 => {
                    got = r & s;
                    ("&", |a, b| a & b)
                }
                6 => {
                    got = r ^ s;
                    ("^", |a, b| a ^ b)
                }
                _ => {
                    got = !(s | r);
                    ("neither", |a, b| !(a | b))
                }
            };
            let mut want = m;
            for (x, y) in want.iter_mut().zip(&range) {
                *x = f(*x, *y);
            }
            if !holds(&got, &want) {
                return Err(format!("{name} of {:?} and {from}..={to}: {got:?}, expected {:?}", of(&m), of(&want)));
            }
        }
        let sub = |x: &Model, y: &Model| (0..256).all(|i| !x[i] || y[i]);
        let got = (s.is_subset_of(&r), r.is_subset_of(&s), s.overlaps(&r), r.overlaps(&s), s == r);
        let over = m[from as usize..=to as usize].iter().any(|x| *x);
        let want = (sub(&m, &range), sub(&range, &m), over, over, m == range);
        if got != want {
            return Err(format!("of {:?} and {from}..={to}: (subset, superset, overlap, overlap, equal) is {got:?}, expected {want:?}", of(&m)));
        }
    }
    obs.add("crossed operations", 5 * 9);
    Ok(())
}

fn main() {
    let mut ctx = Ctx::new("C10");
    // Every range.
    ctx.phase("ranges", 65536, |i, _, obs| {
        let (a, b) = ((i % 256) as u8, (i / 256) as u8);
        if a > b {
            obs.add("empty ranges", 1);
            // Documented to panic.
            return if vh::run::panics(|| Set::from_range(a, b)) { Ok(()) } else { Err(format!("from_range({a}, {b}) did not panic")) };
        }
        let mut m = [false; 256];
        m[a as usize..=b as usize].fill(true);
        let s = sut(|| Set::from_range(a, b)).map_err(|e| format!("from_range({a}, {b}) {e}"))?;
        obs.distinct(i);
        obs.add("ranges", 1);
        sut(|| same(&s, &m, obs)).and_then(|r| r).map_err(|e| format!("from_range({a}, {b}): {e}"))
    });
    // Every two members, alone and left out.
    ctx.phase("pairs", 65536, |i, _, obs| {
        let (a, b) = ((i % 256) as u8, (i / 256) as u8);
        let mut m = [false; 256];
        m[a as usize] = true;
        m[b as usize] = true;
        let mut s = sut(|| Set::from_bytes(&[a, b]))?;
        if i & 1 == 1 {
            s = !s;
            m.iter_mut().for_each(|x| *x ^= true);
        }
        obs.distinct(i + 65536);
        sut(|| same(&s, &m, obs)).and_then(|r| r).map_err(|e| format!("from_bytes([{a}, {b}]), complement {}: {e}", i & 1))
    });
    // Every range with the simple sets for some bytes (all, if thorough), and
    // for the bytes next to its ends.
    let all = ctx.thorough;
    ctx.phase("crossed", 65536, |i, rng, obs| {
        let (a, b) = ((i % 256) as u8, (i / 256) as u8);
        if a > b {
            return Ok(());
        }
        let cs: Vec<u8> = if all {
            (0..=255).collect()
        } else {
            let mut v = vec![0, a, b, b.wrapping_add(1), rng.byte()];
            v.push(*rng.pick(&[1u8, 62, 63, 64, 65, 127, 128, 191, 192, 254, 255]));
            v
        };
        obs.distinct(i + 2 * 65536);
        for c in cs {
            sut(|| crossed(a, b, c, obs)).and_then(|r| r)?;
        }
        Ok(())
    });
    let n = ctx.scale(12_000, 300_000);
    ctx.phase("histories", n, |_, rng, obs| {
        let len = rng.range(4, 40);
        history(rng, len, obs)
    });
    // The order is a total one: of any sets, each beats a different number.
    let n = ctx.scale(400, 10_000);
    ctx.phase("orders", n, |i, rng, obs| {
        let edges: Vec<u8> = match i % 3 {
            0 => (0..256u32).filter(|k| matches!(k % 64, 0 | 1 | 31 | 32 | 62 | 63)).map(|k| k as u8).collect(),
            1 => (0..=255).collect(),
            _ => vec![0, 31, 63, 64, 95, 127, 128, 191, 192, 255],
        };
        let mut models: Vec<Vec<u8>> = vec![vec![], (0..=255).collect()];
        for _ in 0..rng.range(20, 90) {
            let mut v: Vec<u8> = match rng.below(5) {
                4 => gen::bytes(rng),
                0 => (0..rng.usize(4)).map(|_| *rng.pick(&edges)).collect(),
                1 => (0..rng.usize(12)).map(|_| *rng.pick(&edges)).collect(),
                2 => {
                    let (a, b) = (*rng.pick(&edges), *rng.pick(&edges));
                    (a.min(b)..=a.max(b)).collect()
                }
                _ => {
                    // Another set with one member more or less.
                    let mut v = rng.pick(&models).clone();
                    let c = *rng.pick(&edges);
                    match v.iter().position(|x| *x == c) {
                        Some(k) => drop(v.remove(k)),
                        None => v.push(c),
                    }
                    v
                }
            };
            v.sort_unstable();
            v.dedup();
            models.push(v);
        }
        models.sort();
        models.dedup();
        let s: Vec<Set> = sut(|| models.iter().map(|v| Set::from_bytes(v)).collect())?;
        let mut beats = vec![0usize; s.len()];
        for a in 0..s.len() {
            for b in 0..s.len() {
                let (o, r) = sut(|| (s[a].cmp(&s[b]), s[b].cmp(&s[a])))?;
                if o != r.reverse() || (o == std::cmp::Ordering::Equal) != (a == b) {
                    return Err(format!("{:?} and {:?} compare {o:?} and {r:?}", models[a], models[b]));
                }
                beats[a] += (o == std::cmp::Ordering::Greater) as usize;
            }
        }
        obs.add("sets ordered", s.len() as u64);
        obs.distinct_of(&models);
        let mut by: Vec<usize> = (0..s.len()).collect();
        by.sort_by_key(|k| beats[*k]);
        for w in by.windows(2) {
            if beats[w[0]] == beats[w[1]] {
                return Err(format!("no total order: {:?} and {:?} are above {} of {} sets each", models[w[0]], models[w[1]], beats[w[0]], s.len()));
            }
        }
        Ok(())
    });
    ctx.require("sets ordered", 10_000);
    ctx.require("operations", 50_000);
    ctx.require("ranges", 30_000);
    ctx.finish()
}
