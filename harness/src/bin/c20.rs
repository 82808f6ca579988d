//! C20: alignment and depth arithmetic.
use rescan::verif::util::{self, D};
use std::cmp::Ordering;
use vh::{gen, sut, Ctx, Obs, Rng, Verdict};

#[global_allocator]
static A: vh::alloc::Counting = vh::alloc::Counting;

fn number(rng: &mut Rng) -> u64 {
    let k = rng.below(64);
    match rng.below(5) {
        4 => gen::num(rng),
        0 => (1u64 << k).wrapping_add(rng.below(40)).wrapping_sub(20),
        1 => rng.next() >> k,
        2 => (rng.next() >> k).wrapping_mul(16),
        _ => (u64::MAX >> k).wrapping_sub(rng.below(140)),
    }
}

macro_rules! align {
    ($fun:ident, $m:ident, $t:ty) => {
        fn $fun(v: u64, obs: &mut Obs) -> Verdict {
            let a = v as $t;
            let wide = a as u128;
            let max = <$t>::MAX as u128;
            let up = |n: u128| (wide + n - 1) / n * n;
            let bad = |what: String, got: u128, want: u128| {
                Err(format!("{what} of {a} as {} is {got}, expected {want}", stringify!($t)))
            };
            let mut check = |what: &str, n: u128, want: u128, f: &dyn Fn() -> $t| -> Verdict {
                // What does not fit has no answer.
                if want > max || wide + n - 1 > max && want != wide / n * n {
                    return Ok(());
                }
                let got = sut(f).map_err(|e| format!("{what} to {n} of {a} as {} {e}", stringify!($t)))? as u128;
                obs.add("alignments", 1);
                if got == want {
                    Ok(())
                } else {
                    bad(format!("{what} to {n}"), got, want)
                }
            };
            check("up", 16, up(16), &|| util::$m::up_16(a))?;
            check("down", 16, wide / 16 * 16, &|| util::$m::down_16(a))?;
            check("up", 64, up(64), &|| util::$m::up_cache_line(a))?;
            for k in 0..8 {
                let n = 1u8 << k;
                check("up", n as u128, up(n as u128), &|| util::$m::up_n(a, n))?;
                check("down", n as u128, wide / n as u128 * n as u128, &|| util::$m::down_n(a, n))?;
            }
            obs.distinct(v);
            Ok(())
        }
    };
}
align!(b8, a8, u8);
align!(b16, a16, u16);
align!(b32, a32, u32);
align!(b64, a64, u64);
align!(bsize, asize, usize);

const INFINITY: u64 = (1 << 31) - 1;

fn depth(a: u64, b: u64, obs: &mut Obs) -> Verdict {
    let mk = |v: u64| -> Result<Option<D>, String> {
        let x = sut(|| D::from_usize(v as usize)).map_err(|e| format!("a depth of {v} {e}"))?;
        if x.is_some() != (v < INFINITY) {
            return Err(format!("a depth of {v} (usize) is {}", if x.is_some() { "accepted" } else { "refused" }));
        }
        if v <= u32::MAX as u64 {
            let y = sut(|| D::from_u32(v as u32))?;
            if y.is_some() != (v < INFINITY) {
                return Err(format!("a depth of {v} (u32) is {}", if y.is_some() { "accepted" } else { "refused" }));
            }
            if let (Some(x), Some(y)) = (x, y) {
                if !sut(|| x.equals(&y))? {
                    return Err(format!("the depths of {v} as usize and u32 differ"));
                }
            }
        }
        Ok(x)
    };
    let inf = sut(D::infinity)?;
    let (x, y) = (mk(a)?, mk(b)?);
    obs.add("depths", 2);
    // What is refused here stands for infinity in the comparisons below.
    let (dx, vx) = x.map_or((inf, INFINITY), |d| (d, a));
    let (dy, vy) = y.map_or((inf, INFINITY), |d| (d, b));
    let want = vx.cmp(&vy);
    let got = sut(|| (dx.compare(&dy), dx.partial_compare(&dy), dx.equals(&dy), dx.least(dy)))?;
    let least = if want == Ordering::Greater { dy } else { dx };
    if got.0 != want || got.1 != Some(want) || got.2 != (want == Ordering::Equal) || !got.3.equals(&least) {
        return Err(format!("the depths {vx} and {vy}: {:?}, {:?}, equal {}, the least {:?}", got.0, got.1, got.2, got.3));
    }
    obs.add("comparisons", 1);
    obs.distinct_of(&(a, b));
    Ok(())
}

fn deep(rng: &mut Rng) -> u64 {
    match rng.below(5) {
        0 => INFINITY.wrapping_add(rng.below(9)).wrapping_sub(4),
        1 => *rng.pick(&[0, 1, u32::MAX as u64, 1 << 32, (1 << 32) + 5, (1 << 31) - 2, 1 << 31, u64::MAX, (1 << 33) - 1]),
        2 => rng.below(20),
        _ => number(rng),
    }
}

fn main() {
    let mut ctx = Ctx::new("C20");
    ctx.phase("bytes", 256, |i, _, obs| b8(i, obs));
    ctx.phase("16 bits", 65536, |i, _, obs| b16(i, obs));
    let n = ctx.scale(200_000, 10_000_000);
    ctx.phase("wide", n, |i, rng, obs| {
        let v = if i < 70_000 { i } else { number(rng) };
        obs.sample(|| v.to_string());
        b32(v, obs)?;
        b64(v, obs)?;
        bsize(v, obs)
    });
    let n = ctx.scale(300_000, 10_000_000);
    ctx.phase("depths", n, |i, rng, obs| {
        let a = deep(rng);
        let b = match i % 3 {
            0 => a,
            1 => a.wrapping_add(rng.below(5)).wrapping_sub(2),
            _ => deep(rng),
        };
        depth(a, b, obs)
    });
    ctx.require("alignments", 1_000_000);
    ctx.require("comparisons", 100_000);
    ctx.finish()
}
