//! C28: the work of a compilation is in proportion to its input.
//!
//! In the `steps` build the compiler has every block of code call out, which
//! counts them for each thread. A member of a family of inputs is compared with
//! one sixteen times as large: the blocks executed and the bytes asked for may
//! not grow much more than that. In the `release` build CPU time may not either.
use rescan::{compile, compile_multi, Flags};
use vh::{alloc, gen, run, sut, work, Ctx, Obs, Rng, Verdict};

#[global_allocator]
static A: vh::alloc::Counting = vh::alloc::Counting;

// Not in Rust, or it would call itself.
std::arch::global_asm!(
    ".section .tbss.vh_steps, \"awT\", @nobits",
    ".p2align 3",
    "vh_steps_count:",
    ".zero 8",
    ".text",
    ".globl __sanitizer_cov_trace_pc_guard",
    "__sanitizer_cov_trace_pc_guard:",
    "addq $1, %fs:vh_steps_count@tpoff",
    "ret",
    ".globl __sanitizer_cov_trace_pc_guard_init",
    "__sanitizer_cov_trace_pc_guard_init:",
    "ret",
    ".globl vh_steps",
    "vh_steps:",
    "movq %fs:vh_steps_count@tpoff, %rax",
    "ret",
    options(att_syntax)
);
extern "C" {
    fn vh_steps() -> u64;
}

/// How many times as large the large member of a family is.
const TIMES: u64 = 16;

/// How many times as much a unit of the large member may cost.
const GROWTH: u64 = 2;

/// How many times as many bytes, which are asked for by powers of two.
const MORE: u64 = 3;

/// How many times as long it may take.
const SLOWER: f64 = 5.0;

#[derive(Clone, Copy, Debug)]
struct Cost {
    steps: u64,
    bytes: u64,
    seconds: f64,
}

struct Input {
    exprs: Vec<String>,
    /// Which expression each member of the set is.
    members: Vec<usize>,
    flags: Vec<Flags>,
    ids: Vec<u32>,
    mode: u64,
}

impl Input {
    fn cost(&self) -> Result<Cost, String> {
        let refs: Vec<&str> = self.members.iter().map(|k| self.exprs[*k].as_str()).collect();
        let mode = gen::mode(self.mode);
        let (t, s, b) = (run::thread_cpu(), unsafe { vh_steps() }, alloc::total());
        sut(|| {
            let r = if self.members.len() == 1 && self.ids[0] == 0 {
                compile(refs[0], self.flags[0], &mode)
            } else {
                compile_multi(&refs, &self.flags, &self.ids, &mode)
            };
            if let Err(e) = &r {
                std::hint::black_box((e.to_string(), format!("{e:?}")));
            }
        })?;
        Ok(Cost { steps: unsafe { vh_steps() } - s, bytes: alloc::total() - b, seconds: run::thread_cpu() - t })
    }
}

/// Compares the members of a family; `timed` is whether by time alone.
fn family(small: &Input, large: &Input, timed: bool, obs: &mut Obs, what: &dyn Fn() -> String) -> Verdict {
    // Once before, for what is done once only.
    small.cost().map_err(|e| format!("{} {e}", what()))?;
    let (a, b) = match (small.cost(), large.cost()) {
        (Ok(a), Ok(b)) => (a, b),
        (Err(e), _) | (_, Err(e)) => return Err(format!("{} {e}", what())),
    };
    obs.add("families", 1);
    if timed {
        let slow = |a: f64, b: f64| b > 0.004 && b > TIMES as f64 * SLOWER * a;
        let per = |a: f64, b: f64| (b * 100.0 / (TIMES as f64 * a).max(1e-7)) as u64;
        if b.seconds > 0.004 {
            obs.max("growth of long times in percent of sixteenfold", per(a.seconds, b.seconds));
            obs.add("long times", 1);
        }
        if slow(a.seconds, b.seconds) {
            // The machine may be busy: the slowest small one and the fastest
            // large one of several.
            let (mut least, mut most) = (b.seconds, a.seconds);
            for _ in 0..6 {
                least = least.min(large.cost()?.seconds);
                for _ in 0..8 {
                    most = most.max(small.cost()?.seconds);
                }
                if !slow(most, least) {
                    return Ok(());
                }
            }
            return Err(format!("{}: takes {most:.6} s, but {least:.6} s for sixteen times as much", what()));
        }
        return Ok(());
    }
    if a.steps == 0 || b.steps == 0 {
        panic!("no steps were counted");
    }
    obs.add("steps", a.steps + b.steps);
    obs.max("growth of steps in percent of sixteenfold", b.steps * 100 / (TIMES * a.steps));
    obs.max("growth of bytes in percent of sixteenfold", b.bytes * 100 / (TIMES * a.bytes + 10_000));
    if b.steps > TIMES * GROWTH * a.steps + 100_000 {
        return Err(format!("{}: takes {} steps, but {} for sixteen times as much", what(), a.steps, b.steps));
    }
    if b.bytes > TIMES * MORE * a.bytes + 200_000 {
        return Err(format!("{}: asks for {} bytes, but for {} for sixteen times as much", what(), a.bytes, b.bytes));
    }
    Ok(())
}

/// A part without groups left open or closed too many.
fn part(rng: &mut Rng) -> String {
    let s = match rng.below(8) {
        0 => work::small(rng),
        1 => gen::accepted(rng, 12, false),
        2 => {
            let n = rng.range(1, 5);
            gen::literal(rng, n)
        }
        _ => (*rng.pick(&["a", "|", "()", "a|", "(a)", "ab|", "(|)", "(a|b)", "aB1", "(())", "(*", "(a", "\\", "-", " ", "\0", "||a"])).into(),
    };
    let s: String = s.chars().take(40).collect();
    gen::mend(&s)
}

/// Text of `n` bytes or a few less.
fn single(rng: &mut Rng) -> Box<dyn Fn(usize) -> String> {
    let (u, v, p) = (part(rng), part(rng), part(rng));
    let u = if u.is_empty() { "a".to_string() } else { u };
    let tail = if rng.chance(1, 4) { *rng.pick(&["(", ")", "é", "(*", "a|", "\u{1}"]) } else { "" };
    let head = match rng.below(8) {
        0 => "(*UTF8)".to_string(),
        1 => "(*UCP)".to_string(),
        2 => p.clone(),
        _ => String::new(),
    };
    let head = if head.starts_with("(*") && head.ends_with(')') { head } else { head.replace("(*", "") };
    match rng.below(8) {
        // Again and again.
        0..=2 => Box::new(move |n| head.clone() + &u.repeat(n / u.len()) + tail),
        // One run after another.
        3 => Box::new(move |n| head.clone() + &u.repeat(n / 2 / u.len()) + &v.repeat(n / 2 / v.len().max(1)) + tail),
        // Nested.
        4 | 5 => {
            let (a, b) = (*rng.pick(&["(", "a(", "(a", "(|", "(a|", "a|(", "(()"]), *rng.pick(&[")", ")a", "|)", "a)", "|a)", ")|", "())"]));
            let balanced = !rng.chance(1, 6);
            Box::new(move |n| {
                let k = n / (a.len() + b.len() + u.len());
                let close = if balanced { k } else { k / 2 };
                let inner = if v.len() % 2 == 0 { u.repeat(k) } else { u.clone() };
                head.clone() + &a.repeat(k) + &inner + &b.repeat(close) + tail
            })
        }
        // A control verb.
        6 => {
            let start = *rng.pick(&["(*", "(*LIMIT_MATCH=", "(*UTF8", "(*a=", "(* "]);
            let fill = *rng.pick(&["0", "9", "A", "é", " ", "(", "*", "(*", "=", "x1"]);
            let end = *rng.pick(&[")", "", ")a", ")("]);
            Box::new(move |n| start.to_string() + &fill.repeat(n / fill.len()) + end + tail)
        }
        // A long branch next to many short ones.
        _ => Box::new(move |n| head.clone() + &u.repeat(n / 2 / u.len()) + "|" + &(v.clone() + "|").repeat(n / 2 / (v.len() + 1)) + tail),
    }
}

fn singles(rng: &mut Rng, timed: bool, obs: &mut Obs) -> Verdict {
    let text = single(rng);
    let f = if rng.chance(1, 8) { gen::flags(rng) } else { gen::good_flags(rng) };
    let mode = rng.below(6);
    let id = if rng.bool() { 0 } else { gen::id(rng) };
    let input = |n: usize| Input { exprs: vec![text(n)], members: vec![0], flags: vec![f], ids: vec![id], mode };
    // Sixteen times as long is a little below the limit.
    let (a, b) = (input(985), input(985 * TIMES as usize));
    obs.distinct(work::shape(&a.exprs[0], f));
    obs.sample(|| format!("{} {f:?}", gen::show(&text(60))));
    family(&a, &b, timed, obs, &|| format!("like {}, {f:?}", gen::show(&text(60))))
}

/// The text of a number, always as long.
fn numbered(form: u64, i: u32) -> String {
    let digits = |base: u32, n: u32, of: &dyn Fn(u32) -> char| (0..n).rev().map(|k| of(i / base.pow(k) % base)).collect::<String>();
    let decimal = || digits(10, 7, &|d| (b'0' + d as u8) as char);
    match form {
        0 => decimal(),
        // Apart early.
        1 => decimal().chars().rev().collect(),
        2 => digits(2, 20, &|d| if d == 0 { 'a' } else { 'B' }),
        3 => digits(60, 4, &|d| (b'A' + d as u8) as char).replace(['\\', '|'], "+"),
        4 => format!("{}|", decimal()),
        5 => format!("({})x", decimal()),
        _ => format!("{}|b", digits(2, 20, &|d| if d == 0 { '(' } else { 'a' }).replace('(', "()")),
    }
}

fn sets(rng: &mut Rng, n: usize, timed: bool, obs: &mut Obs) -> Verdict {
    let k = rng.range(1, 5);
    // Every member another text.
    let apart = rng.chance(1, 3).then(|| rng.below(7));
    let wrong = *rng.pick(&["(", ")", "é", "(*x)"]);
    let exprs: Vec<String> = (0..k)
        .map(|_| if rng.chance(1, 8) { part(rng).repeat(40) } else { work::small(rng) })
        .chain([wrong.to_string()])
        .collect();
    let good = gen::good_flags(rng) - Flags::SINGLEMATCH;
    let all = *rng.pick(&[Flags::empty(), Flags::SINGLEMATCH, good, good]);
    let other = gen::good_flags(rng);
    let mixed = rng.chance(1, 4);
    let fault = rng.below(12);
    let kind = rng.below(6);
    let salt = rng.next() as u32;
    let mode = rng.below(6);
    let input = |n: usize| {
        let mut members: Vec<usize> = (0..n).map(|i| if apart.is_some() { k + 1 + i } else { i % k }).collect();
        let mut exprs = exprs.clone();
        if let Some(form) = apart {
            exprs.extend((0..n as u32).map(|i| numbered(form, i)));
        }
        let mut flags: Vec<Flags> = (0..n).map(|i| if mixed && i % 3 == 0 { (other - Flags::SINGLEMATCH) | (all & Flags::SINGLEMATCH) } else { all }).collect();
        let mut ids: Vec<u32> = (0..n as u32)
            .map(|i| match kind {
                0 => 7,
                1 => i,
                2 => i.wrapping_mul(0x9e37_79b1) ^ salt,
                3 => i % 100,
                4 => u32::MAX - i,
                _ => i << 12 | i >> 20,
            })
            .collect();
        match fault {
            0 => members[n - 1] = k,
            1 => flags[n - 1] = Flags::QUIET | Flags::SOM_LEFTMOST,
            2 => {
                ids[n - 1] = ids[0];
                flags[n - 1] ^= Flags::SINGLEMATCH;
            }
            _ => {}
        }
        Input { exprs, members, flags, ids, mode }
    };
    let (a, b) = (input(n), input(n * TIMES as usize));
    obs.distinct_of(&(&exprs, apart, all.bits(), kind, fault, mixed));
    let what = || {
        let texts: Vec<String> = apart.map_or_else(|| exprs[..k].to_vec(), |f| (0..3).map(|i| numbered(f, i)).collect());
        format!("{n} and sixteen times as many of {texts:?}, {all:?}, IDs of kind {kind}, fault {fault}")
    };
    if apart.is_some() {
        obs.add("families of different members", 1);
    }
    obs.sample(what);
    family(&a, &b, timed, obs, &what)
}

fn main() {
    let mut ctx = Ctx::new("C28");
    let timed = ctx.profile != "steps";
    // A case takes a second.
    ctx.cpu_is_violation = true;
    let n = ctx.scale(if timed { 200 } else { 2_000 }, 60_000);
    ctx.phase("expressions", n, |_, rng, obs| singles(rng, timed, obs));
    let n = ctx.scale(if timed { 30 } else { 150 }, 4_000);
    ctx.phase("sets", n, |_, rng, obs| {
        let n = *rng.pick(&[300, 1_000, 2_000, 5_000]);
        sets(rng, n, timed, obs)
    });
    let n = ctx.scale(4, 40);
    ctx.phase("large sets", n, |_, rng, obs| sets(rng, if timed { 40_000 } else { 10_000 }, timed, obs));
    ctx.require("families of different members", if timed { 15 } else { 100 });
    ctx.require("families", if timed { 500 } else { 5_000 });
    ctx.finish()
}
