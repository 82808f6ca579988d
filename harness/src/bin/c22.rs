//! C22: flags and control verbs set exactly the properties they name.
#[cfg(rescan_verif = "expr")]
use rescan::verif::expr;
#[cfg(rescan_verif = "parse")]
use rescan::verif::parse;
use rescan::Flags;
use vh::{gen, model, sut, work, Ctx, Obs, Rng, Verdict};

#[global_allocator]
static A: vh::alloc::Counting = vh::alloc::Counting;

/// The flags, with the values Hyperscan gives them.
const FLAGS: [(&str, Flags, u16); 11] = [
    ("CASELESS", Flags::CASELESS, 1),
    ("DOTALL", Flags::DOTALL, 2),
    ("MULTILINE", Flags::MULTILINE, 4),
    ("SINGLEMATCH", Flags::SINGLEMATCH, 8),
    ("ALLOWEMPTY", Flags::ALLOWEMPTY, 16),
    ("UTF8", Flags::UTF8, 32),
    ("UCP", Flags::UCP, 64),
    ("PREFILTER", Flags::PREFILTER, 128),
    ("SOM_LEFTMOST", Flags::SOM_LEFTMOST, 256),
    ("COMBINATION", Flags::COMBINATION, 512),
    ("QUIET", Flags::QUIET, 1024),
];

fn one(s: &str, flags: Flags, index: usize, id: u32, obs: &mut Obs) -> Verdict {
    let bits = flags.bits();
    let call = || format!("{} with {flags:?}, index {index}, ID {id}", gen::show(s));
    let p = model::parse(s, flags);
    #[cfg(rescan_verif = "expr")]
    properties(&p, s, flags, index, id, obs).map_err(|e| format!("{}: {e}", call()))?;
    #[cfg(rescan_verif = "parse")]
    mode(&p, s, flags, obs).map_err(|e| format!("{}: {e}", call()))?;
    obs.distinct_of(&(s, bits));
    obs.sample(call);
    Ok(())
}

type Parsed = Result<model::Parsed, model::Fail>;

fn has(flags: Flags, k: usize) -> bool {
    flags.bits() & FLAGS[k].2 != 0
}

#[cfg(rescan_verif = "expr")]
fn properties(p: &Parsed, s: &str, flags: Flags, index: usize, id: u32, obs: &mut Obs) -> Verdict {
    let on = |k| has(flags, k);
    let info = sut(|| expr::info(index, s, flags, id))?;
    if on(10) && on(8) {
        obs.add("refused combinations", 1);
        return if info.is_ok() { Err("QUIET and SOM_LEFTMOST were accepted together".into()) } else { Ok(()) };
    }
    match (p, &info) {
        (Ok(p), Ok(i)) => {
            let want = expr::Info {
                index,
                report: id,
                allow_vacuous: on(4),
                highlander: on(3),
                utf8: p.utf8,
                prefilter: on(7),
                // Not supported yet, whatever the flags say.
                som: i.som,
                quiet: on(10),
            };
            if *i != want {
                return Err(format!("{i:?}, expected {want:?}"));
            }
            obs.add("expressions", 1);
        }
        (Err(_), Err(_)) => obs.add("refused", 1),
        (Ok(_), Err(e)) => return Err(format!("refused: {e}")),
        (Err(f), Ok(_)) => return Err(format!("accepted, expected {f:?}")),
    }
    Ok(())
}

#[cfg(rescan_verif = "parse")]
fn mode(p: &Parsed, s: &str, flags: Flags, obs: &mut Obs) -> Verdict {
    let on = |k| has(flags, k);
    let mode = sut(|| parse::tree(s, flags).map(|t| t.1))?;
    match (p, &mode) {
        (Ok(p), Ok(m)) => {
            let want = parse::Mode {
                caseless: on(0),
                dotall: on(1),
                ignore_space: false,
                multiline: on(2),
                ucp: p.ucp,
                utf8: p.utf8,
            };
            if *m != want {
                return Err(format!("parsed with {m:?}, expected {want:?}"));
            }
            if p.body > 0 {
                obs.add("expressions with a control verb", 1);
            }
            obs.add("parsed", 1);
        }
        (Err(_), Err(_)) => {}
        _ => return Err(format!("parsed {:?}, expected {:?}", mode.map(|_| ()), p.as_ref().map(|_| ()))),
    }
    Ok(())
}

fn exprs(rng: &mut Rng) -> String {
    match rng.below(4) {
        0 => work::verb(rng),
        1 => format!("{}{}", rng.pick(&["(*UCP)", "(*UTF8)", "(*UTF)", ""]), gen::accepted(rng, 60, false)),
        2 => gen::any(rng, 60),
        _ => work::small(rng),
    }
}

fn main() {
    let mut ctx = Ctx::new("C22");
    ctx.phase("values", 1, |_, _, obs| {
        let mut all = 0;
        for (name, f, v) in FLAGS {
            if f.bits() != v {
                return Err(format!("{name} is {:#x}, not {v:#x}", f.bits()));
            }
            all |= v;
            obs.add("flags", 1);
        }
        if Flags::all().bits() != all {
            return Err(format!("all flags are {:#x}, not {all:#x}", Flags::all().bits()));
        }
        Ok(())
    });
    let fixed = ["a", "", "()", "a|b", "(*UCP)a", "(*UTF8)a", "(*UTF)(a|b)", "(*UTF8)", "aB1", "(*ANY)a", "(", "é"];
    ctx.phase("all flags", 2048 * fixed.len() as u64, |i, rng, obs| {
        let f = Flags::from_bits_truncate((i % 2048) as u16);
        one(fixed[(i / 2048) as usize], f, rng.usize(100), gen::id(rng), obs)
    });
    let n = ctx.scale(300_000, 8_000_000);
    ctx.phase("random", n, |_, rng, obs| {
        let s = exprs(rng);
        let f = Flags::from_bits_truncate(rng.next() as u16);
        let index = match rng.below(3) {
            0 => rng.usize(10),
            1 => *rng.pick(&[0, 255, 256, 65_535, 65_536, 7_999_999]),
            _ => rng.usize(8_000_000),
        };
        one(&s, f, index, gen::id(rng), obs)
    });
    if cfg!(rescan_verif = "expr") {
        ctx.require("expressions", 50_000);
        ctx.require("refused combinations", 10_000);
    }
    if cfg!(rescan_verif = "parse") {
        ctx.require("expressions with a control verb", 20_000);
    }
    ctx.finish()
}
