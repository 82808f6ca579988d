//! The reference model of the pattern language: what an expression means and
//! when it is refused, written from the documented behaviour only.

use rescan::Flags;

pub const MAX_PATTERN: usize = 16_000;

/// A step of a walk over a parse tree.
#[derive(Clone, Debug, Eq, Hash, PartialEq)]
pub enum Step {
    Sequence(Option<u32>),
    EndSequence,
    Alternation,
    EndAlternation,
    Class(Vec<u8>),
}

/// Why an expression is refused.
#[derive(Clone, Debug, Eq, Hash, PartialEq)]
pub enum Fail {
    TooLong,
    QuietSom,
    UnsupportedVerb(String),
    UnknownVerb(String),
    Unmatched,
    NonAscii(usize),
    Missing(usize),
}

#[derive(Clone, Debug, Eq, Hash, PartialEq)]
pub struct Parsed {
    /// Offset of the expression behind the control verb.
    pub body: usize,
    pub ucp: bool,
    pub utf8: bool,
    pub caseless: bool,
    pub alternations: usize,
    pub groups: u32,
    /// The characters, in order.
    pub chars: Vec<u8>,
}

pub fn letter(c: u8) -> bool {
    matches!(c, b'A'..=b'Z' | b'a'..=b'z')
}

pub fn upper(c: u8) -> u8 {
    if matches!(c, b'a'..=b'z') {
        c - 32
    } else {
        c
    }
}

/// The bytes a character of a pattern stands for, in order.
pub fn class(c: u8, caseless: bool) -> Vec<u8> {
    if caseless && letter(c) {
        vec![upper(c), upper(c) + 32]
    } else {
        vec![c]
    }
}

/// The control verb at the start of an expression, and its end.
pub fn verb(expr: &str) -> Option<(&str, usize)> {
    let rest = expr.strip_prefix("(*")?;
    let end = rest.find(')')?;
    if end == 0 {
        return None;
    }
    Some((&rest[..end], end + 3))
}

const UNSUPPORTED: [&str; 11] = [
    "NO_AUTO_POSSESS",
    "NO_START_OPT",
    "UTF16",
    "UTF32",
    "CR",
    "LF",
    "CRLF",
    "ANYCRLF",
    "ANY",
    "BSR_ANYCRLF",
    "BSR_UNICODE",
];

/// Parses without the checks on length and flag combinations.
pub fn parse(expr: &str, flags: Flags) -> Result<Parsed, Fail> {
    let mut p = Parsed {
        body: 0,
        ucp: flags.contains(Flags::UCP),
        utf8: flags.contains(Flags::UTF8),
        caseless: flags.contains(Flags::CASELESS),
        alternations: 0,
        groups: 0,
        chars: Vec::new(),
    };
    if let Some((name, end)) = verb(expr) {
        match name {
            "UCP" => p.ucp = true,
            "UTF8" | "UTF" => p.utf8 = true,
            v if UNSUPPORTED.contains(&v)
                || v.starts_with("LIMIT_MATCH=")
                || v.starts_with("LIMIT_RECURSION=") =>
            {
                return Err(Fail::UnsupportedVerb(v.to_string()))
            }
            v => return Err(Fail::UnknownVerb(v.to_string())),
        }
        p.body = end;
    }
    let mut open = Vec::new();
    for (i, c) in expr[p.body..].char_indices() {
        let i = i + p.body;
        match c {
            '(' => {
                open.push(i);
                p.groups += 1;
            }
            ')' => {
                if open.pop().is_none() {
                    return Err(Fail::Unmatched);
                }
            }
            '|' => p.alternations += 1,
            c if (c as u32) < 128 => p.chars.push(c as u8),
            _ => return Err(Fail::NonAscii(i)),
        }
    }
    match open.last() {
        Some(&i) => Err(Fail::Missing(i)),
        None => Ok(p),
    }
}

/// What becomes of an expression on its own.
pub fn outcome(expr: &str, flags: Flags) -> Result<Parsed, Fail> {
    if expr.len() > MAX_PATTERN {
        return Err(Fail::TooLong);
    }
    if flags.contains(Flags::QUIET) && flags.contains(Flags::SOM_LEFTMOST) {
        return Err(Fail::QuietSom);
    }
    parse(expr, flags)
}

impl Parsed {
    /// An expression which is one non-empty string.
    pub fn is_literal(&self) -> bool {
        self.alternations == 0 && !self.chars.is_empty()
    }

    /// The walk over the parse tree of the expression this was parsed from.
    pub fn steps(&self, expr: &str) -> Vec<Step> {
        let b = &expr.as_bytes()[self.body..];
        // Whether each group (the whole expression is the first) has branches.
        let mut branches = vec![false];
        let mut stack = vec![0];
        for &c in b {
            match c {
                b'(' => {
                    branches.push(false);
                    stack.push(branches.len() - 1);
                }
                b')' => {
                    stack.pop();
                }
                b'|' => branches[*stack.last().unwrap()] = true,
                _ => {}
            }
        }
        let mut out = Vec::with_capacity(b.len() * 2 + 8);
        fn enter(out: &mut Vec<Step>, branches: &[bool], g: usize) {
            out.push(Step::Sequence(Some(g as u32)));
            if branches[g] {
                out.push(Step::Alternation);
                out.push(Step::Sequence(None));
            }
        }
        fn leave(out: &mut Vec<Step>, branches: &[bool], g: usize) {
            if branches[g] {
                out.push(Step::EndSequence);
                out.push(Step::EndAlternation);
            }
            out.push(Step::EndSequence);
        }
        let mut stack = vec![0];
        let mut next = 1;
        enter(&mut out, &branches, 0);
        for &c in b {
            match c {
                b'(' => {
                    enter(&mut out, &branches, next);
                    stack.push(next);
                    next += 1;
                }
                b')' => leave(&mut out, &branches, stack.pop().unwrap()),
                b'|' => {
                    out.push(Step::EndSequence);
                    out.push(Step::Sequence(None));
                }
                c => out.push(Step::Class(class(c, self.caseless))),
            }
        }
        leave(&mut out, &branches, 0);
        out
    }

    /// The literal the expression stands for: each byte, and whether its case
    /// does not matter (the byte is in upper case then).
    pub fn literal(&self) -> Vec<(u8, bool)> {
        self.chars
            .iter()
            .map(|&c| {
                if self.caseless && letter(c) {
                    (upper(c), true)
                } else {
                    (c, false)
                }
            })
            .collect()
    }
}

/// Whether `text` has `word` followed by the number `n`.
pub fn names(text: &str, word: &str, n: u64) -> bool {
    let want = format!("{}{}", word, n);
    let mut at = 0;
    while let Some(i) = text[at..].find(&want) {
        let end = at + i + want.len();
        if !text[end..].starts_with(|c: char| c.is_ascii_digit()) {
            return true;
        }
        at = end;
    }
    false
}

/// Checks what an error says about a refused expression.
///
/// `index` is the expression's index in its set.
pub fn check_error(display: &str, debug: &str, fail: &Fail, index: usize) -> Result<(), String> {
    let bad = |why: &str| {
        Err(format!(
            "{why}: expected {fail:?} in expression {index}, got {display:?} ({})",
            &debug.chars().take(200).collect::<String>()
        ))
    };
    if !display.ends_with(&format!(" in expression {index}")) {
        return bad("the error does not name the expression");
    }
    let reason = &display[..display.len() - format!(" in expression {index}").len()];
    let kind = match fail {
        Fail::TooLong | Fail::QuietSom => "Other",
        Fail::Missing(_) => "Parse",
        _ => "LocatedParse",
    };
    if !debug.contains(&format!("kind: {kind},")) {
        return bad("the error is of the wrong category");
    }
    if !debug.contains(&format!("index: Some({index})")) {
        return bad("the error does not carry the expression index");
    }
    let ok = match fail {
        Fail::TooLong => reason.contains("length exceeds limit"),
        Fail::QuietSom => reason.contains("QUIET") && reason.contains("SOM_LEFTMOST"),
        Fail::UnsupportedVerb(v) => {
            reason.contains("Unsupported control verb")
                && reason.contains(&format!(" {v} "))
                && names(reason, "index ", 2)
        }
        Fail::UnknownVerb(v) => {
            reason.contains("Unknown control verb")
                && reason.contains(&format!(" {v} "))
                && names(reason, "index ", 2)
        }
        Fail::Unmatched => reason.contains("Unmatched parentheses"),
        Fail::NonAscii(i) => {
            reason.contains("Non-ASCII") && names(reason, "index ", *i as u64)
        }
        Fail::Missing(i) => {
            reason.contains("Missing close parenthesis") && names(reason, "index ", *i as u64)
        }
    };
    if ok {
        Ok(())
    } else {
        bad("the error does not say what is wrong and where")
    }
}
