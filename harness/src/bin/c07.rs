//! C07: caseless means exactly both cases of the letters.
#[cfg(rescan_verif = "charset")]
use rescan::verif::charset;
#[cfg(rescan_verif = "parse")]
use rescan::verif::parse;
use rescan::Flags;
use vh::{gen, model, sut, work, Ctx, Obs, Rng, Verdict};

#[global_allocator]
static A: vh::alloc::Counting = vh::alloc::Counting;

#[cfg(rescan_verif = "parse")]
fn classes(expr: &str, flags: Flags) -> Result<Option<Vec<Vec<u8>>>, String> {
    let r = sut(|| parse::tree(expr, flags)).map_err(|e| format!("parsing {} {e}", gen::show(expr)))?;
    Ok(r.ok().map(|(steps, _)| {
        steps
            .into_iter()
            .filter_map(|s| match s {
                parse::Step::Class(v) => Some(v),
                _ => None,
            })
            .collect()
    }))
}

#[cfg(rescan_verif = "parse")]
fn one(expr: &str, flags: Flags, obs: &mut Obs) -> Verdict {
    let Ok(p) = model::parse(expr, flags) else {
        return Ok(());
    };
    let call = || format!("parsing {} with {flags:?}", gen::show(expr));
    let Some(got) = classes(expr, flags)? else {
        return Err(format!("{} was refused", call()));
    };
    if got.len() != p.chars.len() {
        return Err(format!("{}: {} classes for {} characters", call(), got.len(), p.chars.len()));
    }
    for (k, c) in p.chars.iter().enumerate() {
        let want = model::class(*c, flags.contains(Flags::CASELESS));
        if got[k] != want {
            return Err(format!("{}: character {k} ({:?}) matches {:?}, expected {want:?}", call(), *c as char, got[k]));
        }
        obs.add(if want.len() == 2 { "caseless letters" } else { "other characters" }, 1);
    }
    obs.distinct(work::shape(expr, flags));
    obs.sample(|| format!("{} -> {:?}", call(), &got[..got.len().min(5)]));
    Ok(())
}

#[cfg(rescan_verif = "charset")]
fn members(s: &charset::Set) -> Vec<u8> {
    (0..=255).filter(|&c| s.test(c)).collect()
}

fn closure(v: &[u8]) -> Vec<u8> {
    let mut m = [false; 256];
    for &c in v {
        m[c as usize] = true;
        if model::letter(c) {
            m[(c ^ 0x20) as usize] = true;
        }
    }
    (0..=255).filter(|&c| m[c as usize]).collect()
}

#[cfg(rescan_verif = "charset")]
fn caseless(v: &[u8], obs: &mut Obs) -> Verdict {
    let got = sut(|| {
        let mut s = charset::Set::from_bytes(v);
        s.make_caseless();
        members(&s)
    })
    .map_err(|e| format!("make_caseless({v:?}) {e}"))?;
    let want = closure(v);
    if got != want {
        return Err(format!("make_caseless({v:?}) = {got:?}, expected {want:?}"));
    }
    obs.add("sets closed", 1);
    obs.distinct_of(v);
    Ok(())
}

pub fn subset(rng: &mut Rng) -> Vec<u8> {
    if rng.chance(1, 3) {
        return gen::bytes(rng);
    }
    let mode = rng.below(7);
    let den = *rng.pick(&[2u64, 3, 8, 32, 128]);
    let flip = rng.chance(1, 4);
    (0..=255u8)
        .filter(|&c| {
            let pool = match mode {
                0 => model::letter(c),
                1 => c.is_ascii_lowercase(),
                2 => c.is_ascii_uppercase(),
                3 => c & 0x40 != 0,
                4 => c >= 0x80,
                _ => true,
            };
            (pool && rng.chance(1, den)) != flip
        })
        .collect()
}

fn main() {
    let mut ctx = Ctx::new("C07");
    #[cfg(rescan_verif = "parse")]
    expressions(&mut ctx);
    #[cfg(rescan_verif = "charset")]
    sets(&mut ctx);
    ctx.finish()
}

#[cfg(rescan_verif = "parse")]
fn expressions(ctx: &mut Ctx) {
    // Every character under every combination of flags.
    ctx.phase("characters", 128 * 2048, |i, _, obs| {
        let c = (i % 128) as u8 as char;
        let f = Flags::from_bits_truncate((i / 128) as u16);
        one(&c.to_string(), f, obs)
    });
    // Every two characters next to each other, and in groups and branches.
    ctx.phase("pairs", 128 * 128 * 2, |i, rng, obs| {
        let (a, b) = ((i % 128) as u8 as char, (i / 128 % 128) as u8 as char);
        let f = if i >= 128 * 128 { Flags::CASELESS } else { Flags::empty() };
        let s = match rng.below(4) {
            0 => format!("({a}){b}"),
            1 => format!("{a}|{b}"),
            2 => format!("x({a}|({b}))"),
            _ => format!("{a}{b}"),
        };
        one(&s, f, obs)
    });
    let n = ctx.scale(40_000, 1_000_000);
    ctx.phase("random", n, |_, rng, obs| {
        let s = if rng.chance(1, 100) { work::long(rng) } else { gen::accepted(rng, 2000, true) };
        let mut f = gen::flags(rng);
        if rng.chance(2, 3) {
            f |= Flags::CASELESS;
        }
        one(&s, f, obs)
    });
    ctx.require("caseless letters", 50_000);
}

#[cfg(rescan_verif = "charset")]
fn sets(ctx: &mut Ctx) {
    ctx.phase("single bytes", 256, |i, _, obs| caseless(&[i as u8], obs));
    ctx.phase("byte pairs", 256 * 256, |i, _, obs| caseless(&[(i % 256) as u8, (i / 256) as u8], obs));
    let n = ctx.scale(100_000, 3_000_000);
    ctx.phase("sets", n, |_, rng, obs| caseless(&subset(rng), obs));
    ctx.phase("bytes", 256, |i, _, obs| {
        let c = i as u8;
        let got = sut(|| {
            (
                charset::is_upper(c),
                charset::is_lower(c),
                charset::to_lower(c),
                charset::to_upper(c),
                charset::is_alpha(c),
            )
        })?;
        let want = (
            c.is_ascii_uppercase(),
            c.is_ascii_lowercase(),
            if c.is_ascii_uppercase() { c + 32 } else { c },
            if c.is_ascii_lowercase() { c - 32 } else { c },
            model::letter(c),
        );
        obs.add("bytes", 1);
        if got == want {
            Ok(())
        } else {
            Err(format!("byte {c:#04x}: (upper, lower, to lower, to upper, letter) = {got:?}, expected {want:?}"))
        }
    });
    // Sets which stand for one letter in both cases.
    ctx.phase("caseless pairs", 65536, |i, _, obs| {
        let v = [(i % 256) as u8, (i / 256) as u8];
        let got = sut(|| charset::Set::from_bytes(&v).is_caseless_char())?;
        let want = v[0] != v[1] && model::letter(v[0]) && v[0] ^ v[1] == 0x20;
        obs.add("sets asked for one letter", 1);
        if got == want {
            Ok(())
        } else {
            Err(format!("{v:?} stands for one letter in both cases: {got}, expected {want}"))
        }
    });
    let n = ctx.scale(50_000, 1_000_000);
    ctx.phase("larger sets", n, |_, rng, _| {
        let v = subset(rng);
        let got = sut(|| charset::Set::from_bytes(&v).is_caseless_char())?;
        let want = v.len() == 2 && model::letter(v[0]) && v[0] ^ v[1] == 0x20;
        if got == want {
            Ok(())
        } else {
            Err(format!("{v:?} stands for one letter in both cases: {got}, expected {want}"))
        }
    });
    ctx.require("sets closed", 50_000);
}
