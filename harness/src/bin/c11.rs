//! C11: derived predicates and masks of character sets.
use rescan::verif::charset::Set;
use vh::{gen, model, sut, Ctx, Obs, Rng, Verdict};

#[global_allocator]
static A: vh::alloc::Counting = vh::alloc::Counting;

fn check(v: &[u8], fill: u8, extra: usize, obs: &mut Obs) -> Verdict {
    let mut m = [false; 256];
    v.iter().for_each(|&c| m[c as usize] = true);
    let got = sut(|| {
        let s = Set::from_bytes(v);
        let mut bits = vec![fill; 32 + extra];
        s.fill_bitvector(&mut bits);
        (s.is_alphabetic(), s.is_bit5_insensitive(), s.is_ascii(), s.is_utf8_start(), bits, s.and_cmp_mask())
    })
    .map_err(|e| format!("the set {v:?} {e}"))?;
    let bad = |what: String| Err(format!("of the set {v:?}: {what}"));
    let want = !v.is_empty() && v.iter().all(|&c| model::letter(c));
    if got.0 != want {
        return bad(format!("only letters is {}, expected {want}", got.0));
    }
    let want = (0..256).all(|c| m[c] == m[c ^ 0x20]);
    if got.1 != want {
        return bad(format!("insensitive to bit 5 is {}, expected {want}", got.1));
    }
    let want = v.iter().all(|&c| c < 0x80);
    if got.2 != want {
        return bad(format!("ASCII is {}, expected {want}", got.2));
    }
    let want = v.iter().all(|&c| c >= 0xc0);
    if got.3 != want {
        return bad(format!("only first bytes of multi-byte sequences is {}, expected {want}", got.3));
    }
    for c in 0..256 {
        let bit = got.4[c / 8] >> (c % 8) & 1 == 1;
        if bit != m[c] {
            return bad(format!("bit {c} of the vector is {bit}"));
        }
    }
    if got.4[32..].iter().any(|&b| b != fill) {
        return bad("the vector was written beyond its 32 bytes".into());
    }
    let (and, cmp) = got.5;
    for &c in v {
        if c & and != cmp {
            return bad(format!("member {c:#04x} fails the masks and {and:#04x}, compare {cmp:#04x}"));
        }
    }
    if !v.is_empty() {
        // The masks keep every bit on which all the members agree.
        let ones = v.iter().fold(0xff, |a, c| a & c);
        let zeros = v.iter().fold(0xff, |a, c| a & !c);
        if and != ones | zeros || cmp != ones {
            return bad(format!("the masks are and {and:#04x}, compare {cmp:#04x}, expected {:#04x} and {ones:#04x}", ones | zeros));
        }
        obs.add("masks", 1);
    }
    obs.add("sets", 1);
    if got.1 {
        obs.add("sets insensitive to bit 5", 1);
    }
    if got.0 {
        obs.add("sets of letters", 1);
    }
    obs.distinct_of(v);
    obs.sample(|| format!("{v:?} -> and {and:#04x}, compare {cmp:#04x}"));
    Ok(())
}

fn subset(rng: &mut Rng) -> Vec<u8> {
    if rng.chance(1, 3) {
        return gen::bytes(rng);
    }
    let mode = rng.below(9);
    let den = *rng.pick(&[1u64, 2, 3, 8, 32, 128]);
    let flip = rng.chance(1, 8);
    let (a, b) = (rng.byte(), rng.byte());
    let mask = rng.byte() & rng.byte() & rng.byte();
    let mut v: Vec<u8> = (0..=255u8)
        .filter(|&c| {
            let pool = match mode {
                0 => model::letter(c),
                1 => c < 0x80,
                2 => c >= 0xc0,
                3 => c >= 0x80,
                4 => c & mask == a & mask,
                5 => (a.min(b)..=a.max(b)).contains(&c),
                _ => true,
            };
            (pool && rng.chance(1, den)) != flip
        })
        .collect();
    if rng.chance(1, 3) {
        // Close it under bit 5, perhaps but for one member.
        v = (0..=255u8).filter(|c| v.contains(c) || v.contains(&(c ^ 0x20))).collect();
        if rng.bool() && !v.is_empty() {
            let k = rng.usize(v.len());
            v.remove(k);
        }
    }
    match rng.below(8) {
        0 => v.push(*rng.pick(&[0x7f, 0x80, 0xbf, 0xc0, 0x40, 0x5b, 0x60, 0x7b, 0, 0xff])),
        1 if !v.is_empty() => {
            let k = rng.usize(v.len());
            v.remove(k);
        }
        _ => {}
    }
    v
}

fn main() {
    let mut ctx = Ctx::new("C11");
    ctx.phase("empty and full", 16, |i, rng, obs| {
        let v: Vec<u8> = if i & 1 == 0 { vec![] } else { (0..=255).collect() };
        check(&v, rng.byte(), i as usize / 2, obs)
    });
    ctx.phase("bytes and pairs", 65536, |i, rng, obs| check(&[(i % 256) as u8, (i / 256) as u8], rng.byte(), 0, obs));
    ctx.phase("ranges", 65536, |i, rng, obs| {
        let (a, b) = ((i % 256) as u8, (i / 256) as u8);
        let v: Vec<u8> = (a..=b).collect();
        check(&v, rng.byte(), 0, obs)
    });
    ctx.phase("all but", 65536, |i, rng, obs| {
        let (a, b) = ((i % 256) as u8, (i / 256) as u8);
        let v: Vec<u8> = (0..=255).filter(|&c| c != a && c != b).collect();
        check(&v, rng.byte(), 0, obs)
    });
    let n = ctx.scale(150_000, 4_000_000);
    ctx.phase("random", n, |_, rng, obs| {
        let v = subset(rng);
        let extra = rng.usize(40);
        check(&v, rng.byte(), if rng.bool() { extra } else { 0 }, obs)
    });
    // Too short a vector is documented to panic, and is not written past.
    ctx.phase("short vectors", 32, |i, _, _| {
        let mut bits = vec![0u8; i as usize];
        let s = sut(|| Set::from_bytes(&[1, 2, 3]))?;
        if vh::run::panics(|| s.fill_bitvector(&mut bits)) {
            Ok(())
        } else {
            Err(format!("filling a vector of {i} bytes did not panic"))
        }
    });
    ctx.require("sets insensitive to bit 5", 1_000);
    ctx.require("sets of letters", 500);
    ctx.require("masks", 100_000);
    ctx.finish()
}
