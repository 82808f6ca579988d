//! C21: what the dumps say is what there is.
use rescan::verif::dump::{class_text, tree_text};
use rescan::Flags;
use vh::model::{self, Step};
use vh::{gen, sut, work, Ctx, Obs, Rng, Verdict};

#[global_allocator]
static A: vh::alloc::Counting = vh::alloc::Counting;

type Set = [bool; 256];

/// Reads one character, or a mnemonic, of the text of a class.
struct Reader<'a> {
    s: &'a [u8],
    at: usize,
    dot: bool,
}

enum Item {
    Char(u8),
    Many(Vec<u8>),
}

impl Reader<'_> {
    fn next(&mut self) -> Result<Item, String> {
        let c = self.s[self.at];
        self.at += 1;
        if c != b'\\' {
            if !(0x21..0x7f).contains(&c) || matches!(c, b'^' | b'-' | b'[' | b']' | b'.') {
                return Err(format!("byte {c:#04x} at {} is not escaped", self.at - 1));
            }
            if self.dot && (c == b'"' || c == b'\'') {
                return Err(format!("quote at {} is not escaped", self.at - 1));
            }
            return Ok(Item::Char(c));
        }
        let mut take = || {
            let c = self.s.get(self.at).copied().ok_or("text ends in an escape")?;
            self.at += 1;
            Ok::<u8, String>(c)
        };
        let mut e = take()?;
        if self.dot {
            match e {
                b'"' | b'\'' => return Ok(Item::Char(e)),
                b'\\' => e = take()?,
                _ => return Err(format!("escape {e:#04x} in a label")),
            }
        }
        Ok(match e {
            b'^' | b'-' | b'[' | b']' | b'.' => Item::Char(e),
            b't' => Item::Char(9),
            b'n' => Item::Char(10),
            b'r' => Item::Char(13),
            b'x' => {
                let h = [take()?, take()?];
                let h = std::str::from_utf8(&h).map_err(|e| e.to_string())?;
                Item::Char(u8::from_str_radix(h, 16).map_err(|e| format!("{h:?}: {e}"))?)
            }
            b'd' => Item::Many((b'0'..=b'9').collect()),
            b's' => Item::Many(vec![9, 10, 11, 12, 13, 32]),
            b'w' => Item::Many((0..=255u8).filter(|c| c.is_ascii_alphanumeric() || *c == b'_').collect()),
            _ => return Err(format!("unknown escape {e:#04x}")),
        })
    }
}

/// The set which the text of a class stands for.
fn read(text: &str, dot: bool) -> Result<Set, String> {
    let mut set = [false; 256];
    match text {
        "<any>" => return Ok([true; 256]),
        "<empty>" => return Ok(set),
        _ => {}
    }
    let (body, neg, many) = match text.strip_prefix("[^") {
        Some(b) => (b.strip_suffix(']').ok_or("no closing bracket")?, true, true),
        None => match text.strip_prefix('[') {
            Some(b) => (b.strip_suffix(']').ok_or("no closing bracket")?, false, true),
            None => (text, false, false),
        },
    };
    let mut r = Reader { s: body.as_bytes(), at: 0, dot };
    let mut items = 0;
    while r.at < r.s.len() {
        items += 1;
        match r.next()? {
            Item::Many(v) => v.iter().for_each(|c| set[*c as usize] = true),
            Item::Char(a) => {
                if r.s.get(r.at) == Some(&b'-') {
                    r.at += 1;
                    if r.at == r.s.len() {
                        return Err("a range without an end".into());
                    }
                    let Item::Char(b) = r.next()? else {
                        return Err("a range up to a class".into());
                    };
                    if a > b {
                        return Err(format!("the range {a}-{b}"));
                    }
                    (a..=b).for_each(|c| set[c as usize] = true);
                } else {
                    set[a as usize] = true;
                }
            }
        }
    }
    if items == 0 || items > 1 && !many {
        return Err(format!("{items} items"));
    }
    if neg {
        set.iter_mut().for_each(|b| *b = !*b);
    }
    Ok(set)
}

fn class(members: &[u8], obs: &mut Obs) -> Verdict {
    let mut want = [false; 256];
    members.iter().for_each(|c| want[*c as usize] = true);
    for dot in [false, true] {
        let show = || {
            let m: Vec<u8> = (0..=255u8).filter(|c| want[*c as usize]).collect();
            format!("the class {m:?}{}", if dot { " in a label" } else { "" })
        };
        let text = sut(|| class_text(members, dot)).map_err(|e| format!("{} {e}", show()))?;
        let got = read(&text, dot).map_err(|e| format!("{} is dumped as {text:?}: {e}", show()))?;
        if got != want {
            let c = (0..256).find(|c| got[*c] != want[*c]).unwrap();
            return Err(format!("{} is dumped as {text:?}, which is wrong about {c:#04x}", show()));
        }
        obs.max("longest text", text.len() as u64);
        obs.add(
            if text.starts_with("[^") {
                "negated classes"
            } else if text.starts_with('[') {
                "bracketed classes"
            } else {
                "plain classes"
            },
            1,
        );
        if text.contains("\\w") || text.contains("\\s") || text.contains("\\d") {
            obs.add("classes with mnemonics", 1);
        }
        obs.sample(|| text.clone());
    }
    obs.distinct_of(&want[..]);
    Ok(())
}

/// A set made of ranges, of the mnemonic sets, and of single characters.
fn members(rng: &mut Rng) -> Vec<u8> {
    if rng.chance(1, 4) {
        return gen::bytes(rng);
    }
    let mut set = [false; 256];
    let flip = rng.below(4);
    for _ in 0..rng.range(0, 8) {
        let v: Vec<u8> = match rng.below(7) {
            0 => (b'0'..=b'9').collect(),
            1 => vec![9, 10, 11, 12, 13, 32],
            2 => (0..=255u8).filter(|c| c.is_ascii_alphanumeric() || *c == b'_').collect(),
            3 => vec![rng.byte()],
            4 => vec![*rng.pick(b"^-[].\\\"'\x09\x0a\x0d\x00\x20\x7e\x7f\x80\xff0_wsdxtnr<>")],
            5 => {
                let a = rng.byte();
                let n = rng.usize(7) as u8;
                (a..=a.saturating_add(n)).collect()
            }
            _ => {
                let (a, b) = (rng.byte(), rng.byte());
                (a.min(b)..=a.max(b)).collect()
            }
        };
        let on = flip != 1 || rng.chance(2, 3);
        v.iter().for_each(|c| set[*c as usize] = on);
    }
    if flip == 2 {
        set.iter_mut().for_each(|b| *b = !*b);
    }
    if flip == 3 && rng.bool() {
        for c in 0..256 {
            set[c] = rng.bool();
        }
    }
    (0..=255u8).filter(|c| set[*c as usize]).collect()
}

/// Compares the text of a tree to a walk over it, with the names of its
/// sequences in order.
fn read_tree(text: &str, steps: &[Step], names: &[Option<String>], call: &dyn Fn() -> String, obs: &mut Obs) -> Verdict {
    let mut names = names.iter();
    let mut lines = text.split('\n').enumerate();
    let mut level = 0;
    for (k, s) in steps.iter().enumerate() {
        let mut line = |level: usize, what: &dyn Fn(&str) -> Result<(), String>| -> Verdict {
            let (n, l) = lines.next().ok_or_else(|| format!("{} ends before {s:?}", call()))?;
            let body = l.trim_start_matches(' ');
            let bad = |w: String| format!("{}: line {} is {l:?}: {w}", call(), n + 1);
            if l.len() - body.len() < level * 2 {
                return Err(bad(format!("expected {} spaces", level * 2)));
            }
            what(&l[level * 2..]).map_err(|e| bad(format!("{e} for {s:?}")))
        };
        match s {
            Step::Sequence(c) => {
                let mut want = match c {
                    Some(i) => format!("SEQUENCE (capture index {i})"),
                    None => "SEQUENCE (not captured)".to_string(),
                };
                if let Some(Some(name)) = names.next() {
                    want += &format!(" (capture name '{name}')");
                    obs.add("capture names", 1);
                }
                line(level, &|b| if b == want { Ok(()) } else { Err(format!("expected {want:?}")) })?;
                level += 1;
                if steps[k + 1] == Step::EndSequence {
                    line(level, &|b| if b.trim() == "<empty>" { Ok(()) } else { Err("expected <empty>".into()) })?;
                    obs.add("empty sequences", 1);
                }
            }
            Step::Alternation => {
                line(level, &|b| if b == "ALTERNATION" { Ok(()) } else { Err("expected ALTERNATION".into()) })?;
                level += 1;
            }
            Step::EndSequence | Step::EndAlternation => level -= 1,
            Step::Class(m) => {
                line(level, &|b| if b == "ASCII CLASS" { Ok(()) } else { Err("expected ASCII CLASS".into()) })?;
                line(level, &|b| {
                    let b = b.trim_start();
                    let got = read(b, false)?;
                    let got: Vec<u8> = (0..=255u8).filter(|c| got[*c as usize]).collect();
                    if got == *m {
                        Ok(())
                    } else {
                        Err("another class".into())
                    }
                })?;
            }
        }
        obs.max("deepest line", level as u64);
    }
    match lines.next() {
        Some((_, "")) if lines.next().is_none() => {}
        _ => return Err(format!("{} goes on after the end of the tree", call())),
    }
    Ok(())
}

/// Compares the dump of a tree to the walk the grammar gives.
fn tree(expr: &str, flags: Flags, obs: &mut Obs) -> Verdict {
    let call = || format!("the dump of {} with {flags:?}", gen::show(expr));
    let got = sut(|| tree_text(expr, flags)).map_err(|e| format!("{} {e}", call()))?;
    let p = match (model::parse(expr, flags), &got) {
        (Ok(p), Ok(_)) => p,
        (Err(_), Err(_)) => {
            obs.add("refused", 1);
            return Ok(());
        }
        (Ok(_), Err(e)) => return Err(format!("{} was refused: {e}", call())),
        (Err(f), Ok(_)) => return Err(format!("{}: expected {f:?}", call())),
    };
    let steps = p.steps(expr);
    read_tree(&got.unwrap(), &steps, &[], &call, obs)?;
    obs.add("trees", 1);
    obs.add("nodes", steps.len() as u64 / 2);
    if work::interesting(expr) {
        obs.distinct(work::shape(expr, flags));
    }
    Ok(())
}

/// Compares the dump of a component of any shape to the walk over it.
#[cfg(rescan_verif = "component")]
fn component(rng: &mut Rng, obs: &mut Obs) -> Verdict {
    use rescan::verif::component::{self as sc, Node, Sequence};
    fn names<'a>(n: &'a Node, out: &mut Vec<&'a Sequence>) {
        let mut sequence = |s: &'a Sequence, out: &mut Vec<&'a Sequence>| {
            out.push(s);
            s.children.iter().for_each(|c| names(c, out));
        };
        match n {
            Node::Class(_) => {}
            Node::Sequence(s) => sequence(s, out),
            Node::Alternation(b) => b.iter().for_each(|s| sequence(s, out)),
        }
    }
    let n = vh::nodes::any(rng);
    let mut sequences = vec![];
    names(&n, &mut sequences);
    let named: Vec<Option<String>> = sequences.iter().map(|s| s.capture_name.clone()).collect();
    let steps: Vec<Step> = vh::nodes::Walk::of(&n)
        .steps
        .into_iter()
        .map(|s| match s {
            sc::Step::Sequence(i) => Step::Sequence(i),
            sc::Step::EndSequence => Step::EndSequence,
            sc::Step::Alternation => Step::Alternation,
            sc::Step::EndAlternation => Step::EndAlternation,
            sc::Step::Class(m) => Step::Class(m),
        })
        .collect();
    let call = || format!("the dump of {n:?}");
    let text = sut(|| sc::text(&n)).map_err(|e| format!("{} {e}", call()))?;
    read_tree(&text, &steps, &named, &call, obs)?;
    obs.distinct_of(&n);
    obs.add("components", 1);
    Ok(())
}

fn main() {
    let mut ctx = Ctx::new("C21");
    ctx.phase("ranges", 257 * 128, |i, _, obs| {
        // All ranges, the empty one too.
        let (a, b) = ((i % 257) as u16, (i / 257 * 2 + (i % 2)) as u16);
        let v: Vec<u8> = (a..=b.min(255)).map(|c| c as u8).collect();
        class(&v, obs)
    });
    ctx.phase("pairs", 65_536, |i, _, obs| {
        let (a, b) = ((i % 256) as u8, (i / 256) as u8);
        let v: Vec<u8> = if a <= b {
            vec![a, b]
        } else {
            (0..=255u8).filter(|c| *c != a && *c != b).collect()
        };
        class(&v, obs)
    });
    let n = ctx.scale(150_000, 4_000_000);
    ctx.phase("sets", n, |_, rng, obs| {
        let v = members(rng);
        class(&v, obs)
    });
    let n = gen::strings(4, if ctx.thorough { 9 } else { 7 });
    ctx.phase("grammar", n, |i, rng, obs| tree(&gen::nth_string(&work::GRAMMAR, i), gen::flags(rng), obs));
    ctx.phase("characters", 256, |i, _, obs| {
        let f = if i >= 128 { Flags::CASELESS } else { Flags::empty() };
        tree(&((i % 128) as u8 as char).to_string(), f, obs)
    });
    let n = ctx.scale(30_000, 600_000);
    ctx.phase("random", n, |_, rng, obs| {
        let s = if rng.chance(1, 4) { gen::any(rng, 600) } else { gen::accepted(rng, 600, true) };
        tree(&s, gen::flags(rng), obs)
    });
    let n = ctx.scale(60, 1_000);
    ctx.phase("deep", n, |_, rng, obs| {
        let n = gen::among(rng, &[10, 100, 500, 1_000, 2_000]);
        let s = gen::nested(rng, n);
        tree(&s, gen::flags(rng), obs)
    });
    #[cfg(rescan_verif = "component")]
    {
        let n = ctx.scale(30_000, 600_000);
        ctx.phase("components", n, |_, rng, obs| component(rng, obs));
        ctx.require("components", 10_000);
        ctx.require("capture names", 1_000);
    }
    ctx.require("trees", 10_000);
    ctx.require("classes with mnemonics", 10_000);
    ctx.require("negated classes", 10_000);
    ctx.require("empty sequences", 1_000);
    ctx.finish()
}
