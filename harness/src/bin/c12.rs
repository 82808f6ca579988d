//! C12: literals are values: sequences of bytes with their case sensitivity.
use rescan::verif::literal::Literal;
use std::cmp::Ordering;
use vh::{gen, model, sut, Ctx, Obs, Rng, Verdict};

#[global_allocator]
static A: vh::alloc::Counting = vh::alloc::Counting;

type Elems = Vec<(u8, bool)>;

fn make(v: &Elems) -> Literal {
    let mut l = Literal::default();
    for &(c, n) in v {
        l.push(c, n);
    }
    l
}

/// A caseless element is held in upper case.
fn normal(v: &Elems) -> Elems {
    v.iter().map(|&(c, n)| (if n { model::upper(c) } else { c }, n)).collect()
}

fn one(v: &Elems, obs: &mut Obs) -> Verdict {
    let bad = |what: String| Err(format!("of the literal {:?} ({} elements): {what}", &v[..v.len().min(40)], v.len()));
    let got = sut(|| {
        let l = make(v);
        (l.len(), l.is_empty(), l.any_nocase(), l.elements(), l.elements_by_ref(), l.mixed_sensitivity())
    })
    .map_err(|e| format!("the literal {v:?} {e}"))?;
    let want = normal(v);
    if (got.0, got.1) != (v.len(), v.is_empty()) {
        return bad(format!("length {}, empty {}", got.0, got.1));
    }
    let any = v.iter().any(|e| e.1);
    if got.2 != any {
        return bad(format!("any caseless is {}, expected {any}", got.2));
    }
    for (e, how) in [(&got.3, "iter"), (&got.4, "into_iter")] {
        if *e != want {
            return bad(format!("{how} gives {:?}", &e[..e.len().min(40)]));
        }
    }
    let letters = v.iter().filter(|e| model::letter(e.0));
    let mixed = letters.clone().any(|e| e.1) && letters.clone().any(|e| !e.1);
    if got.5 != mixed {
        return bad(format!("mixed case sensitivity is {}, expected {mixed}", got.5));
    }
    obs.add("literals", 1);
    if mixed {
        obs.add("mixed literals", 1);
    }
    obs.max("longest", v.len() as u64);
    obs.distinct_of(v);
    Ok(())
}

struct Rel {
    eq: bool,
    cmp: Ordering,
}

fn relate(a: &Elems, b: &Elems, obs: &mut Obs) -> Result<Rel, String> {
    let bad = |what: String| Err(format!("of the literals {:?} and {:?}: {what}", &a[..a.len().min(60)], &b[..b.len().min(60)]));
    let got = sut(|| {
        let (x, y) = (make(a), make(b));
        (x.equals(&y), x.differs(&y), x.compare(&y), x.partial_compare(&y), y.equals(&x), y.compare(&x), x.equals(&x), x.compare(&x))
    })
    .map_err(|e| format!("comparing {a:?} with {b:?} {e}"))?;
    let eq = normal(a) == normal(b);
    if got.0 != eq || got.1 == eq || got.4 != eq || !got.6 {
        return bad(format!("equal {}, different {}, equal the other way {}, equal to itself {}, expected equal {eq}", got.0, got.1, got.4, got.6));
    }
    if (got.2 == Ordering::Equal) != eq || got.3 != Some(got.2) || got.5 != got.2.reverse() || got.7 != Ordering::Equal {
        return bad(format!("order {:?}, partial {:?}, the other way {:?}, with itself {:?}, equal {eq}", got.2, got.3, got.5, got.7));
    }
    // The bytes come first in the order.
    let bytes = |v: &Elems| normal(v).iter().map(|e| e.0).collect::<Vec<_>>();
    let first = bytes(a).cmp(&bytes(b));
    if first != Ordering::Equal && got.2 != first {
        return bad(format!("order {:?}, but {first:?} by the bytes", got.2));
    }
    obs.add("comparisons", 1);
    if eq {
        obs.add("equal literals", 1);
    } else if first == Ordering::Equal {
        obs.add("literals which differ in case sensitivity only", 1);
    }
    Ok(Rel { eq, cmp: got.2 })
}

fn random(rng: &mut Rng, n: usize) -> Elems {
    let (p, pool) = (*rng.pick(&[0u64, 1, 2, 4]), rng.below(4));
    (0..n)
        .map(|_| {
            let c = match pool {
                0 => *rng.pick(b"aAbB"),
                1 => *rng.pick(b"@A[`a{zZ01"),
                2 => rng.byte(),
                _ => *rng.pick(b"az\x00\xff"),
            };
            (c, rng.below(4) < p)
        })
        .collect()
}

fn size(rng: &mut Rng) -> usize {
    match rng.below(8) {
        0 => gen::among(rng, &[31, 32, 33, 63, 64, 65, 95, 96, 97, 127, 128, 129, 255, 256, 257]),
        1 => rng.usize(400),
        _ => rng.usize(10),
    }
}

fn tweak(rng: &mut Rng, v: &Elems) -> Elems {
    let mut w = v.clone();
    for _ in 0..rng.usize(3) {
        let at = if w.is_empty() { 0 } else { rng.usize(w.len()) };
        match rng.below(5) {
            0 if !w.is_empty() => w[at].1 ^= true,
            1 if !w.is_empty() => w[at].0 ^= 0x20,
            2 if !w.is_empty() => w[at].0 = rng.byte(),
            3 => w.truncate(at),
            _ => w.push((rng.byte(), rng.bool())),
        }
    }
    w
}

fn main() {
    let mut ctx = Ctx::new("C12");
    ctx.phase("elements", 512, |i, _, obs| one(&vec![((i % 256) as u8, i >= 256)], obs));
    // Every two elements.
    ctx.phase("two elements", 512 * 512, |i, _, obs| {
        let e = |k: u64| ((k % 256) as u8, k >= 256);
        let v = vec![e(i % 512), e(i / 512)];
        one(&v, obs)
    });
    ctx.phase("compared elements", 512 * 512, |i, _, obs| {
        let e = |k: u64| ((k % 256) as u8, k >= 256);
        relate(&vec![e(i % 512)], &vec![e(i / 512)], obs).map(|_| ())
    });
    let n = ctx.scale(80_000, 2_000_000);
    ctx.phase("random", n, |_, rng, obs| {
        let n = size(rng);
        let v = random(rng, n);
        obs.sample(|| format!("{:?}", &v[..v.len().min(20)]));
        one(&v, obs)
    });
    let n = ctx.scale(80_000, 2_000_000);
    ctx.phase("compared", n, |_, rng, obs| {
        let n = size(rng);
        let a = random(rng, n);
        let b = tweak(rng, &a);
        let c = if rng.bool() { tweak(rng, &b) } else { random(rng, n) };
        let ab = relate(&a, &b, obs)?;
        let bc = relate(&b, &c, obs)?;
        let ac = relate(&a, &c, obs)?;
        let broken = (ab.eq && bc.eq && !ac.eq)
            || (ab.cmp != Ordering::Greater && bc.cmp != Ordering::Greater && ac.cmp == Ordering::Greater)
            || (ab.cmp != Ordering::Less && bc.cmp != Ordering::Less && ac.cmp == Ordering::Less);
        obs.add("triples", 1);
        if broken {
            return Err(format!("no total order: {a:?} {:?} {b:?} {:?} {c:?}, but {:?} the outer two", ab.cmp, bc.cmp, ac.cmp));
        }
        Ok(())
    });
    // One character decides, wherever it is.
    let n = ctx.scale(3_000, 40_000);
    ctx.phase("one in many", n, |_, rng, obs| {
        let n = gen::among(rng, &[2, 31, 32, 33, 64, 65, 128, 256, 257, 1_000, 1_025, 4_097, 5_000, 16_000, 16_385, 65_537, 70_000]);
        let plain = (*rng.pick(b"aZ0@\x80"), rng.bool());
        let mut a: Elems = vec![plain; n];
        let k = if rng.bool() { n - 1 } else { rng.usize(n) };
        a[k] = (*rng.pick(b"aAb1[\x00"), !plain.1);
        if n > 2 && rng.chance(1, 4) {
            a[(k + 1) % n] = (*rng.pick(b"aAb1[\x00"), rng.bool());
        }
        obs.add("literals decided by one character", 1);
        one(&a, obs)?;
        relate(&a, &vec![plain; n], obs)?;
        Ok(())
    });
    let n = ctx.scale(300, 3_000);
    ctx.phase("long", n, |_, rng, obs| {
        let n = gen::among(rng, &[1_000, 4_096, 15_999, 16_000, 65_536, 70_000]);
        let a = random(rng, n);
        one(&a, obs)?;
        let mut b = a.clone();
        let k = if rng.bool() { n - 1 } else { rng.usize(n) };
        match rng.below(3) {
            0 => b[k].1 ^= true,
            1 => b[k].0 ^= 1 << rng.below(8),
            _ => {}
        }
        relate(&a, &b, obs).map(|_| ())
    });
    ctx.require("mixed literals", 1_000);
    ctx.require("equal literals", 1_000);
    ctx.require("literals which differ in case sensitivity only", 1_000);
    ctx.finish()
}
