//! Workload generation: expressions, flags and modes.

use crate::Rng;
use rescan::{Flags, Mode, SomHorizon};

pub const SIZES: [usize; 52] = [
    0, 1, 2, 3, 4, 5, 7, 8, 9, 10, 15, 16, 17, 31, 32, 33, 63, 64, 65, 69, 70, 71, 72, 99, 100, 127,
    128, 129, 199, 255, 256, 257, 300, 511, 512, 513, 999, 1000, 1023, 1024, 1025, 2047, 2048, 2049,
    3999, 4000, 4095, 4096, 4097, 7998, 7999, 8000,
];

/// Lengths around the pattern length limit and around powers of two above it.
pub const LONG: [usize; 18] = [
    8191, 8192, 8193, 12000, 15998, 15999, 16000, 16001, 16002, 16383, 16384, 16385, 32767, 32768,
    65535, 65536, 65537, 100_000,
];

pub const VERBS: [&str; 58] = [
    "(*UCP)", "(*UTF8)", "(*UTF)", "(*UTF16)", "(*UTF32)", "(*CR)", "(*LF)", "(*CRLF)", "(*ANYCRLF)",
    "(*ANY)", "(*BSR_ANYCRLF)", "(*BSR_UNICODE)", "(*NO_AUTO_POSSESS)", "(*NO_START_OPT)",
    "(*LIMIT_MATCH=3)", "(*LIMIT_RECURSION=100)", "(*LIMIT_MATCH=)", "(*LIMIT_RECURSION=)",
    "(*LIMIT_MATCH)", "(*LIMIT_RECURSION)", "(*LIMIT_MATCH3)", "(*LIMIT=3)", "(*ucp)", "(*utf8)",
    "(*Utf)", "(*UCP )", "(* UCP)", "(*UTF8 )", "(*UTF-8)", "(*UTF7)", "(*UTF80)", "(*UC)", "(*UT)",
    "(*UCPX)", "(*XUCP)", "(*)", "(*", "(*UCP", "(*UTF8", "(*ANY", "(**)", "(*()", "(*|)", "(*UCP|)",
    "(*a)", "(*ANYX)", "(*AN)", "(*CRL)", "(*UTF8)(*UCP)", "(*UCP)(*UTF8)", "(*UCP)(*UCP)", "(*é)",
    "(*UCP\n)", "(*\0)", "(*NO_START_OPT", "(*(UCP))", "(*BSR_UNICODE )", "(*UTF8\u{301})",
];

const META: &[u8] = b"\\^$.[]{}?*+/-,:;=!<>&#@%~`\"' \t\r\n\x00\x0b\x0c\x7f";
/// Characters outside ASCII which have a use or a shape of their own: white
/// space, marks, digits, and what looks like, or folds to, something in ASCII.
const NON_ASCII: [char; 44] = [
    '\u{80}', '\u{85}', '\u{a0}', '\u{ad}', '²', 'µ', 'é', 'É', 'ß', 'ÿ', '\u{100}', 'İ', 'ı', 'ſ', 'ŉ', 'ǅ', 'ﬁ', 'K', 'Å',
    '中', '\u{301}', '\u{7ff}', '\u{800}', '\u{1680}', '\u{200b}', '\u{200d}', '\u{200e}', '\u{2028}', '\u{2029}',
    '\u{2060}', '\u{202e}', '\u{3000}', '\u{d7ff}', '\u{e000}', '\u{feff}', '\u{fffd}', '\u{ffff}', '（', '）', '｜', '٣',
    '\u{10000}', '🦀', '\u{10ffff}',
];

/// What the source of the code under test mentions: a workload which looks for
/// special cases does well to try these.
pub struct Dict {
    pub nums: Vec<u64>,
    pub words: Vec<String>,
}

static DICT: std::sync::OnceLock<Dict> = std::sync::OnceLock::new();

/// Read from the file VERIF_DICT names: lines `n NUMBER` and `w HEX`.
pub fn dict() -> &'static Dict {
    DICT.get_or_init(|| {
        let mut d = Dict { nums: vec![], words: vec![] };
        let text = std::env::var("VERIF_DICT").ok().and_then(|p| std::fs::read_to_string(p).ok());
        for l in text.unwrap_or_default().lines() {
            match l.split_once(' ') {
                Some(("n", n)) => d.nums.extend(n.parse::<u64>()),
                Some(("w", h)) => {
                    let b = (0..h.len() / 2).filter_map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).ok()).collect();
                    d.words.extend(String::from_utf8(b));
                }
                _ => {}
            }
        }
        if d.nums.is_empty() {
            d.nums.extend([0, 1, 64, 70, 255, 256, 8_000, 10_000, 16_000]);
        }
        if d.words.is_empty() {
            d.words.push("a".into());
        }
        d
    })
}

/// A number the source mentions, or one next to it.
pub fn num(rng: &mut Rng) -> u64 {
    let n = *rng.pick(&dict().nums);
    match rng.below(6) {
        0 => n.wrapping_sub(1),
        1 => n.wrapping_add(1),
        2 => match rng.below(4) {
            0 => n.wrapping_mul(2),
            1 => n / 2,
            2 => n.wrapping_add(*rng.pick(&dict().nums)),
            _ => 1u64.checked_shl(n as u32).unwrap_or(n),
        },
        _ => n,
    }
}

/// A size the source mentions, if it is at most `max`, or one like it.
pub fn size(rng: &mut Rng, max: usize) -> usize {
    for _ in 0..8 {
        let n = num(rng);
        if n <= max as u64 {
            return n as usize;
        }
    }
    rng.usize(max + 1)
}

/// One of the sizes given, or one the source mentions of at most the largest.
pub fn among(rng: &mut Rng, sizes: &[usize]) -> usize {
    if rng.chance(1, 3) {
        size(rng, *sizes.iter().max().unwrap()).max(13.min(*sizes.iter().min().unwrap()))
    } else {
        *rng.pick(sizes)
    }
}

/// What regular expressions are made of, elsewhere.
pub const TOKENS: [&str; 112] = [
    ".", "^", "$", "\\", "*", "+", "?", "*?", "+?", "??", "*+", "++", "?+", "{2}", "{2,}", "{2,3}", "{,3}", "{0}",
    "{1,0}", "{", "}", "{}", "{a}", "[a-z]", "[^a]", "[]a]", "[^]]", "[[:alpha:]]", "[[:^digit:]]", "[\\d]", "[", "]",
    "[]", "[a", "a-z", "(?:", "(?i)", "(?-i)", "(?i:", "(?s)", "(?m)", "(?x)", "(?ims-x)", "(?=", "(?!", "(?<=", "(?<!",
    "(?>", "(?|", "(?P<n>", "(?<n>", "(?'n'", "(?P=n)", "(?P>n)", "(?&n)", "(?R)", "(?1)", "(?+1)", "(?-1)", "(?#", "(?#a)",
    "(?C)", "(?(1)", "(?", "(?)", "(*", "(+", "(|", "()", "(?:)", "\\d", "\\D", "\\w", "\\W", "\\s", "\\S", "\\b", "\\B",
    "\\A", "\\z", "\\Z", "\\G", "\\K", "\\R", "\\X", "\\C", "\\N", "\\h", "\\v", "\\1", "\\10", "\\g1", "\\g{1}", "\\k<n>",
    "\\0", "\\x41", "\\x{41}", "\\o{101}", "\\cA", "\\p{L}", "\\pL", "\\P{Lu}", "\\Q", "\\E", "\\Qa|b\\E", "\\n", "\\t", "\\(",
    "\\)", "\\|", "#", "(?x) # c\n",
];

/// A word: a token, or something the source mentions.
pub fn word(rng: &mut Rng) -> &'static str {
    if rng.bool() {
        *rng.pick(&TOKENS)
    } else {
        rng.pick(&dict().words)
    }
}

/// Pieces of the sizes the source mentions, and words, one after another.
pub fn shaped(rng: &mut Rng, max: usize) -> String {
    let mut s = String::new();
    let small = rng.bool();
    let most = if small { max.min(40) } else { max };
    for _ in 0..rng.range(1, 5) {
        let k = match rng.below(3) {
            0 => rng.usize(6),
            _ => size(rng, most),
        };
        let room = max.saturating_sub(s.len());
        let fit = |unit: usize| k.min(room / unit.max(1));
        match rng.below(12) {
            0 => s.push_str(&ascii(rng).to_string().repeat(fit(1))),
            1 => s.push_str(&raw(rng, fit(1))),
            2 => {
                let u = *rng.pick(&["()", "(a)", "(b|c)", "(|)", "((x))"]);
                s.push_str(&u.repeat(fit(u.len())));
            }
            3 => {
                let u = *rng.pick(&["|", "a|", "|b", "(|", "|)"]);
                s.push_str(&u.repeat(fit(u.len())));
            }
            4 => {
                let d = fit(3);
                let b = *rng.pick(&["", "a", "|", "()", "b|"]);
                s.push_str(&"(".repeat(d));
                s.push_str(b);
                s.push_str(&")".repeat(d));
            }
            5 => {
                let u = word(rng);
                s.push_str(&u.repeat(k.min(room / u.len().max(1)).min(200)));
            }
            6 => s.push(*rng.pick(&['(', ')', '|', '|'])),
            7 => s.push(ascii(rng)),
            _ => s.push_str(word(rng)),
        }
    }
    s
}

/// Makes an expression acceptable by small changes: characters out of ASCII
/// and parentheses without a counterpart go, groups left open are closed.
pub fn mend(s: &str) -> String {
    let mut out = String::new();
    let mut open = 0usize;
    for c in s.chars().filter(|c| c.is_ascii()) {
        match c {
            '(' => open += 1,
            ')' if open == 0 => continue,
            ')' => open -= 1,
            _ => {}
        }
        out.push(c);
    }
    out.push_str(&")".repeat(open));
    if out.starts_with("(*") {
        out.insert(0, 'a');
    }
    out
}

pub fn ascii(rng: &mut Rng) -> char {
    loop {
        let c = match rng.below(9) {
            8 => *rng.pick(&dict().nums) as u8 & 0x7f,
            0..=2 => *rng.pick(b"abcxyzABCXYZ"),
            3 => (b'a' + rng.below(26) as u8) - if rng.bool() { 32 } else { 0 },
            4 => *rng.pick(b"0123456789_"),
            5 => *rng.pick(META),
            6 => *rng.pick(b"@A[Z`a{z\x00\x1f\x20\x7e\x7f"),
            _ => rng.below(128) as u8,
        };
        if !matches!(c, b'(' | b')' | b'|') {
            return c as char;
        }
    }
}

fn raw(rng: &mut Rng, n: usize) -> String {
    (0..n).map(|_| ascii(rng)).collect()
}

/// A string of plain characters, which is not taken for a control verb.
pub fn literal(rng: &mut Rng, n: usize) -> String {
    raw(rng, n)
}

/// An accepted expression of exactly `n` bytes, unless `n` is too small for
/// what was picked.
pub fn valid(rng: &mut Rng, n: usize) -> String {
    let mut out = String::new();
    let mut open = 0usize;
    let (pl, pc, pa) = *rng.pick(&[(2, 2, 1), (1, 1, 1), (5, 4, 2), (0, 0, 3), (6, 1, 1), (0, 0, 0)]);
    let runs = rng.chance(1, 6);
    while out.len() + open < n {
        let r = rng.below(12);
        let room = n - out.len() - open;
        if r < pl && room >= 2 {
            out.push('(');
            open += 1;
            // A star here would begin a control verb.
            if out.len() == 1 && out.len() + open < n {
                out.push('a');
            }
        } else if r < pl + pc && open > 0 {
            out.push(')');
            open -= 1;
        } else if r < pl + pc + pa {
            out.push('|');
        } else if runs {
            let k = rng.range(1, 40).min(room);
            out.push_str(&raw(rng, k));
        } else {
            out.push(ascii(rng));
        }
    }
    for _ in 0..open {
        out.push(')');
    }
    out
}

/// Nested groups with characters and branches.
pub fn nested(rng: &mut Rng, depth: usize) -> String {
    let mut s = String::new();
    let kind = rng.below(5);
    let mut tails = Vec::new();
    for i in 0..depth {
        s.push('(');
        let mut tail = "";
        match kind {
            0 => {}
            1 => s.push('|'),
            2 => s.push('a'),
            3 => tail = "|",
            _ => match rng.below(6) {
                0 => s.push('|'),
                1 => s.push('b'),
                2 => tail = "z",
                3 => tail = "|",
                _ => {}
            },
        }
        if i == 0 && s == "(" {
            // Nothing which could begin a control verb.
        }
        tails.push(tail);
    }
    for t in tails.iter().rev() {
        s.push_str(t);
        s.push(')');
    }
    s
}

/// Breaks an expression in one or more places.
pub fn mutate(rng: &mut Rng, s: &str) -> String {
    let mut v: Vec<char> = s.chars().collect();
    for _ in 0..rng.range(1, 3) {
        let at = rng.usize(v.len() + 1);
        match rng.below(5) {
            0 if !v.is_empty() => {
                v.remove(at.min(v.len() - 1));
            }
            1 => v.insert(at, *rng.pick(&['(', ')', '|', '(', ')', '*'])),
            2 if !v.is_empty() => {
                let at = at.min(v.len() - 1);
                v[at] = *rng.pick(&['(', ')', '|', 'a']);
            }
            3 if !v.is_empty() => {
                let n = rng.usize(v.len() + 1);
                v.truncate(n);
            }
            _ => v.insert(at, *rng.pick(&NON_ASCII)),
        }
    }
    v.into_iter().collect()
}

pub fn non_ascii(rng: &mut Rng) -> char {
    if rng.bool() {
        *rng.pick(&NON_ASCII)
    } else {
        loop {
            if let Some(c) = char::from_u32(0x80 + rng.below(0x11_0000 - 0x80) as u32) {
                return c;
            }
        }
    }
}

/// Text of about the given length in which most places are inside a
/// character, whole or within a verb or a group.
pub fn wide(rng: &mut Rng, n: usize) -> String {
    let at = rng.usize(5);
    let mut s = match rng.below(5) {
        0 => "(*".to_string(),
        1 => format!("(*{}", rng.pick(&["LIMIT_MATCH=", "LIMIT_RECURSION=", "UTF8", "UCP", "ANY"])),
        2 => rng.pick(&["(*UTF8)", "(*UTF)", "(*UCP)", "("]).to_string(),
        _ => String::new(),
    };
    let verb = s.starts_with("(*") && !s.ends_with(')');
    s.push_str(&literal(rng, at));
    let c = non_ascii(rng);
    while s.len() < n.max(8) {
        s.push(if rng.chance(1, 20) { non_ascii(rng) } else { c });
    }
    if verb && rng.chance(7, 8) {
        s.push(')');
    }
    s
}

/// Any expression, valid or not.
pub fn any(rng: &mut Rng, max: usize) -> String {
    let n = match rng.below(10) {
        0..=3 => rng.usize(9),
        4..=6 => rng.usize(40),
        7 => rng.usize(200),
        8 => among(rng, &SIZES),
        _ => rng.usize(2000),
    }
    .min(max);
    match rng.below(20) {
        18 => wide(rng, n),
        19 => {
            // Something at either end of an expression.
            let s = if rng.bool() { valid(rng, n) } else { literal(rng, n) };
            let c = non_ascii(rng);
            match rng.below(4) {
                0 => format!("{s}{c}"),
                1 => format!("{c}{s}{c}"),
                2 => format!("{c}{}{s}", rng.pick(&VERBS)),
                _ => format!("{c}{s}"),
            }
        }
        14 => shaped(rng, max),
        15 => {
            let s = shaped(rng, max);
            mend(&s)
        }
        16 | 17 => {
            // A word in some place of an expression.
            let s = if rng.bool() { valid(rng, n) } else { literal(rng, n) };
            let at = if rng.bool() { size(rng, s.len()) } else { rng.usize(s.len() + 1) };
            let w = word(rng);
            let s = format!("{}{w}{}", &s[..at], &s[at..]);
            if rng.bool() {
                mend(&s)
            } else {
                s
            }
        }
        0..=3 => valid(rng, n),
        4..=5 => {
            let s = valid(rng, n);
            mutate(rng, &s)
        }
        6 => (0..n.min(24))
            .map(|_| *rng.pick(&['(', ')', '|', 'a']))
            .collect(),
        7 => {
            let mut s = rng.pick(&VERBS).to_string();
            let body = valid(rng, n);
            if rng.chance(3, 4) {
                s.push_str(&body);
            } else {
                s.push_str(&mutate(rng, &body));
            }
            s
        }
        8 => {
            let d = n / 3;
            let s = nested(rng, d);
            if rng.chance(1, 4) {
                mutate(rng, &s)
            } else {
                s
            }
        }
        9 => {
            let mut s: Vec<char> = valid(rng, n).chars().collect();
            for _ in 0..rng.range(1, 3) {
                let at = rng.usize(s.len() + 1);
                s.insert(at, non_ascii(rng));
            }
            s.into_iter().collect()
        }
        10 => (0..n)
            .map(|_| {
                if rng.chance(1, 12) {
                    non_ascii(rng)
                } else {
                    rng.below(128) as u8 as char
                }
            })
            .collect(),
        11 => {
            let at = rng.usize(4);
            let mut s = literal(rng, at);
            s.push_str(*rng.pick(&VERBS));
            let k = rng.usize(6);
            s.push_str(&literal(rng, k));
            s
        }
        _ => literal(rng, n),
    }
}

/// Any accepted expression. `verbs`: may begin with a supported control verb.
pub fn accepted(rng: &mut Rng, max: usize, verbs: bool) -> String {
    loop {
        let n = match rng.below(8) {
            0..=2 => rng.usize(10),
            3..=5 => rng.usize(60),
            6 => among(rng, &SIZES),
            _ => rng.usize(1200),
        }
        .min(max);
        let mut s = String::new();
        if verbs && rng.chance(1, 8) {
            s.push_str(*rng.pick(&["(*UCP)", "(*UTF8)", "(*UTF)"]));
        }
        match rng.below(8) {
            0..=2 => s.push_str(&valid(rng, n)),
            3 => s.push_str(&nested(rng, n / 3)),
            6 => s.push_str(&mend(&shaped(rng, n))),
            7 => {
                let t = valid(rng, n);
                let at = rng.usize(t.len() + 1);
                s.push_str(&mend(&format!("{}{}{}", &t[..at], word(rng), &t[at..])));
            }
            _ => s.push_str(&literal(rng, n)),
        }
        if crate::model::outcome(&s, Flags::empty()).is_ok() {
            return s;
        }
    }
}

/// The `i`-th string over `alphabet`, shortest first.
pub fn nth_string(alphabet: &[char], mut i: u64) -> String {
    let k = alphabet.len() as u64;
    let mut len = 0;
    let mut block = 1;
    while i >= block {
        i -= block;
        block *= k;
        len += 1;
    }
    let mut s = Vec::new();
    for _ in 0..len {
        s.push(alphabet[(i % k) as usize]);
        i /= k;
    }
    s.into_iter().rev().collect()
}

/// The number of strings over an alphabet of `k` up to length `len`.
pub fn strings(k: u64, len: u32) -> u64 {
    (0..=len).map(|l| k.pow(l)).sum()
}

pub const ALL_FLAGS: u16 = 0x7ff;

pub fn flags(rng: &mut Rng) -> Flags {
    match rng.below(5) {
        0 | 1 => Flags::empty(),
        2 => Flags::CASELESS,
        3 => Flags::from_bits_truncate(1 << rng.below(11)),
        _ => Flags::from_bits_truncate(rng.next() as u16 & ALL_FLAGS),
    }
}

/// Flags which are accepted on their own.
pub fn good_flags(rng: &mut Rng) -> Flags {
    let f = flags(rng);
    if f.contains(Flags::QUIET) && f.contains(Flags::SOM_LEFTMOST) {
        f & !*rng.pick(&[Flags::QUIET, Flags::SOM_LEFTMOST])
    } else {
        f
    }
}

pub const MODES: u64 = 6;

pub fn mode(i: u64) -> Mode {
    match i % MODES {
        0 => Mode::Block,
        1 => Mode::Stream(None),
        2 => Mode::Stream(Some(SomHorizon::Large)),
        3 => Mode::Stream(Some(SomHorizon::Medium)),
        4 => Mode::Stream(Some(SomHorizon::Small)),
        _ => Mode::Vectored,
    }
}

pub fn mode_name(i: u64) -> &'static str {
    match i % MODES {
        0 => "Block",
        1 => "Stream(None)",
        2 => "Stream(Large)",
        3 => "Stream(Medium)",
        4 => "Stream(Small)",
        _ => "Vectored",
    }
}

pub fn id(rng: &mut Rng) -> u32 {
    match rng.below(5) {
        0 => 0,
        4 => num(rng) as u32,
        1 => rng.below(5) as u32,
        2 => *rng.pick(&[1, 0x7fff_ffff, 0x8000_0000, u32::MAX - 1, u32::MAX]),
        _ => rng.next() as u32,
    }
}

/// A short form of an expression for messages.
pub fn show(s: &str) -> String {
    if s.len() <= 300 {
        format!("{s:?}")
    } else {
        let head: String = s.chars().take(100).collect();
        format!("{head:?}... ({} bytes)", s.len())
    }
}

/// A set of bytes with some structure to its size or to its 64-bit words.
pub fn byteset(rng: &mut Rng) -> [bool; 256] {
    let mut m = [false; 256];
    if rng.bool() {
        // Of a certain size, perhaps within a certain range.
        let (lo, hi) = match rng.below(6) {
            0 => (0, 128),
            1 => (128, 256),
            2 => (b'A' as usize, b'z' as usize + 1),
            3 => {
                let w = rng.usize(4);
                (w * 64, w * 64 + 64)
            }
            _ => (0, 256),
        };
        let k = if rng.bool() { size(rng, hi - lo) } else { rng.usize(hi - lo + 1) };
        let mut all: Vec<usize> = (lo..hi).collect();
        rng.shuffle(&mut all);
        for c in &all[..k] {
            m[*c] = true;
        }
    } else {
        let mut w = [0u64; 4];
        for k in 0..4 {
            w[k] = match rng.below(9) {
                0 | 1 => 0,
                2 => u64::MAX,
                3 => 1 << rng.below(64),
                4 => !(1 << rng.below(64)),
                5 => num(rng),
                6 => u64::MAX << rng.below(64),
                7 => w[rng.usize(k + 1)],
                _ => rng.next(),
            };
        }
        for c in 0..256 {
            m[c] = w[c / 64] >> (c % 64) & 1 == 1;
        }
    }
    if rng.chance(1, 4) {
        m.iter_mut().for_each(|x| *x ^= true);
    }
    m
}

/// The same as a list.
pub fn bytes(rng: &mut Rng) -> Vec<u8> {
    let m = byteset(rng);
    (0..=255u8).filter(|c| m[*c as usize]).collect()
}
