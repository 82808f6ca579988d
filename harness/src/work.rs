//! Workloads shared by the monitors.

use crate::{gen, model, Rng};
use rescan::Flags;

/// An expression from the workload shared by the monitors of the language.
///
/// The phases cover, in turn: every short string over the characters which
/// matter to the grammar, every string of up to two characters, the control
/// verbs, long and deep expressions, and random ones.
pub const GRAMMAR: [char; 4] = ['a', '(', ')', '|'];
pub const VERBISH: [char; 7] = ['(', '*', ')', 'U', 'C', 'P', '|'];

/// Every string of at most two characters below U+0100.
pub fn pair(i: u64) -> String {
    let c = |n: u64| char::from_u32(n as u32).unwrap();
    match i {
        0 => String::new(),
        1..=256 => c(i - 1).to_string(),
        _ => {
            let k = i - 257;
            [c(k / 256), c(k % 256)].iter().collect()
        }
    }
}
pub const PAIRS: u64 = 1 + 256 + 65536;

/// A control verb in various surroundings.
pub fn verb(rng: &mut Rng) -> String {
    let mut name: String = match rng.below(6) {
        0 | 1 => rng.pick(&gen::VERBS).to_string(),
        2 => {
            let s = *rng.pick(&[
                "UCP", "UTF8", "UTF", "UTF16", "UTF32", "CR", "LF", "CRLF", "ANYCRLF", "ANY",
                "BSR_ANYCRLF", "BSR_UNICODE", "NO_AUTO_POSSESS", "NO_START_OPT", "LIMIT_MATCH=",
                "LIMIT_RECURSION=",
            ]);
            let mut v: Vec<char> = s.chars().collect();
            match rng.below(5) {
                0 => v.truncate(rng.usize(s.len())),
                1 => v.push(*rng.pick(&['8', 'X', ' ', '1', 'é', '(', '*', '|', '='])),
                2 => {
                    let at = rng.usize(v.len());
                    v[at] = v[at].to_ascii_lowercase();
                }
                3 => {
                    let at = rng.usize(v.len());
                    v.remove(at);
                }
                _ => v.insert(0, *rng.pick(&['U', ' ', '*', '('])),
            }
            let v: String = v.into_iter().collect();
            format!("(*{v})")
        }
        3 => {
            let n = gen::among(rng, &[0, 1, 2, 5, 10, 100, 255, 256, 1000]);
            format!("(*{}{})", rng.pick(&["LIMIT_MATCH=", "LIMIT_RECURSION="]), "7".repeat(n))
        }
        4 => {
            let n = gen::among(rng, &[1, 3, 16, 64, 255, 256, 4000, 15990]);
            format!("(*{})", gen::literal(rng, n))
        }
        _ => format!("(*{})", rng.pick(&["UCP", "UTF8", "UTF"])),
    };
    match rng.below(8) {
        0 => {}
        1 => {
            let v = rng.pick(&gen::VERBS);
            name.push_str(v);
        }
        2 => {
            let k = rng.range(1, 5);
            let mut s = gen::valid(rng, k);
            s.push_str(&name);
            name = s;
        }
        3 => name.push_str("(a"),
        4 => name.push_str("a)"),
        5 => name.push('é'),
        _ => {
            let k = rng.usize(20);
            name.push_str(&gen::any(rng, k));
        }
    }
    name
}

/// A long or deep expression, mostly around a limit.
pub fn long(rng: &mut Rng) -> String {
    let n = if rng.bool() {
        gen::among(rng, &gen::LONG)
    } else {
        gen::among(rng, &gen::SIZES)
    };
    match rng.below(15) {
        13 | 14 => mixed(rng, n),
        12 => gen::wide(rng, n),
        11 => gen::shaped(rng, n),
        0 | 1 => gen::literal(rng, n),
        2 | 3 => gen::valid(rng, n),
        4 => gen::nested(rng, (n / 2).min(9000)),
        5 => gen::nested(rng, (n / 3).min(6000)),
        6 => "(".repeat(n),
        7 => {
            // One group left open, or closed once too often, far in.
            let k = n.min(15_990);
            let s = gen::valid(rng, k);
            if rng.bool() {
                let at = rng.usize(k.min(s.len()) + 1);
                format!("{}({}", &s[..at], &s[at..])
            } else {
                format!("{s})")
            }
        }
        8 => {
            // A multi-byte character across the limit.
            let k = n.min(16_003);
            let mut s = gen::literal(rng, k.saturating_sub(2));
            s.push(gen::non_ascii(rng));
            s
        }
        9 => {
            let unit = *rng.pick(&["|", "()", "(|)", "a|", "(a)", "|()", "ab", "(a|b)"]);
            unit.repeat(n / unit.len())
        }
        _ => {
            let mut s = String::from(*rng.pick(&["(*UCP)", "(*UTF8)", "(*UTF)"]));
            let k = n.saturating_sub(s.len());
            s.push_str(&gen::valid(rng, k));
            s
        }
    }
}

/// Units again and again, some of them within one another, up to a length:
/// few of one kind and what is left of another.
fn mixed(rng: &mut Rng, n: usize) -> String {
    let mut s = String::new();
    let mut tail = String::new();
    // Not nested deeper than anything which is accepted.
    let n = n.min(16_100);
    let parts = rng.range(2, 5);
    for k in 0..parts {
        let left = n.saturating_sub(s.len() + tail.len());
        let share = if k + 1 == parts { left } else { left >> rng.range(1, 8) };
        if rng.chance(2, 5) && !(k + 1 == parts && rng.bool()) {
            let unit = *rng.pick(&["|", "()", "(|)", "a|", "(a)", "|()", "ab", "(a|b)", "a"]);
            s += &unit.repeat(share / unit.len());
        } else {
            let (a, b) = *rng.pick(&[("(", ")"), ("(", ")"), ("(a", ")"), ("(", "|)"), ("(|", ")"), ("a(", ")a"), ("()(", ")")]);
            let depth = share / (a.len() + b.len());
            s += &a.repeat(depth);
            // What is next comes within, or after.
            if rng.bool() {
                tail.insert_str(0, &b.repeat(depth));
            } else {
                s += &b.repeat(depth);
            }
        }
    }
    s + &tail
}

/// Any expression, long ones seldom.
pub fn any(rng: &mut Rng) -> String {
    match rng.below(64) {
        0 => long(rng),
        1..=6 => verb(rng),
        _ => gen::any(rng, 3000),
    }
}

/// A small expression of a given sort: literal, group, alternation, empty.
pub fn small(rng: &mut Rng) -> String {
    let k = rng.range(1, 8);
    match rng.below(9) {
        8 => {
            let w = gen::word(rng);
            let s = if rng.bool() { w.to_string() } else { format!("{}{w}", gen::literal(rng, k)) };
            gen::mend(&s)
        }
        0 => String::new(),
        1 => "()".into(),
        2 => "|".into(),
        3 => format!("({})", gen::literal(rng, k).replace('*', "a")),
        4 => format!("{}|{}", gen::literal(rng, k), gen::literal(rng, k)),
        5 => format!("(*UTF8){}", gen::literal(rng, k)),
        _ => gen::literal(rng, k),
    }
}

/// A set whose members resemble each other: few texts, some of them the very
/// same string, few match IDs, and flags which differ in a bit or two.
pub struct Kin {
    pool: Vec<String>,
    at: Vec<usize>,
    pub flags: Vec<Flags>,
    pub ids: Vec<u32>,
}

impl Kin {
    /// `good`: without flags which are refused, and without SINGLEMATCH where
    /// it could disagree.
    pub fn new(rng: &mut Rng, n: usize, good: bool, valid: bool) -> Self {
        let first = if valid || rng.chance(3, 4) { small(rng) } else { any(rng) };
        let mut pool = vec![first.clone()];
        for _ in 0..rng.usize(4) {
            let mut b = first.clone();
            let chars: Vec<char> = b.chars().collect();
            let at = rng.usize(chars.len() + 1);
            match rng.below(16) {
                0 => {}
                1 => b = b.to_ascii_uppercase(),
                2 => b = format!("({b})").replace("((*UTF8)", "(("),
                3 => b.push(gen::ascii(rng)),
                4 if !valid => b.push(*rng.pick(&['(', ')', 'é'])),
                // What it begins with, ends with, or is turned around.
                5 | 6 => b = chars[..at].iter().collect(),
                7 | 8 => b = chars[at..].iter().collect(),
                9 => b = chars.iter().rev().collect(),
                10 => b = b.repeat(2),
                11 => b += &small(rng).replace("(*", ""),
                12 => b = small(rng) + &b.replace("(*", ""),
                // A character is another one.
                13 | 14 if at < chars.len() && chars[at].is_ascii() => {
                    let c = (chars[at] as u8 ^ 1 << rng.below(7)) as char;
                    b = chars.iter().enumerate().map(|(i, x)| if i == at { c } else { *x }).collect();
                }
                _ => b = small(rng),
            }
            if valid && model::parse(&b, Flags::empty()).is_err() {
                b = small(rng);
            }
            pool.push(b);
        }
        let base = if good { gen::good_flags(rng) } else { gen::flags(rng) };
        let id = gen::id(rng);
        let near = rng.below(32);
        let single = rng.bool();
        let at = (0..n).map(|_| rng.usize(pool.len())).collect();
        let alike = rng.chance(1, 3);
        let flags = (0..n)
            .map(|_| {
                let mut f = base.bits();
                for _ in 0..if alike { 0 } else { rng.usize(3) } {
                    f ^= 1 << rng.below(11);
                }
                let mut f = Flags::from_bits_truncate(f);
                if good {
                    f.set(Flags::SINGLEMATCH, single);
                    if f.contains(Flags::QUIET | Flags::SOM_LEFTMOST) {
                        f.remove(if rng.bool() { Flags::QUIET } else { Flags::SOM_LEFTMOST });
                    }
                }
                f
            })
            .collect();
        let ids = (0..n).map(|_| if rng.chance(1, 4) { id ^ 1 << near } else { id }).collect();
        Kin { pool, at, flags, ids }
    }
    pub fn refs(&self) -> Vec<&str> {
        self.at.iter().map(|&k| self.pool[k].as_str()).collect()
    }
}

/// Notes the structure of a case, for counting distinct ones.
pub fn shape(expr: &str, flags: Flags) -> u64 {
    crate::rng::hash_of(&(expr, flags.bits()))
}

/// Whether an expression does more than repeat one plain character.
pub fn interesting(expr: &str) -> bool {
    expr.len() > 1
        && (expr.contains(['(', ')', '|'])
            || !expr.is_ascii()
            || expr.bytes().any(|c| c != expr.as_bytes()[0]))
}

pub fn fail_kind(f: &model::Fail) -> &'static str {
    match f {
        model::Fail::TooLong => "refused: too long",
        model::Fail::QuietSom => "refused: QUIET with SOM_LEFTMOST",
        model::Fail::UnsupportedVerb(_) => "refused: unsupported verb",
        model::Fail::UnknownVerb(_) => "refused: unknown verb",
        model::Fail::Unmatched => "refused: unmatched parenthesis",
        model::Fail::NonAscii(_) => "refused: non-ASCII",
        model::Fail::Missing(_) => "refused: missing parenthesis",
    }
}
