//! Components of any shape, and what a walk over one gives.

use crate::model::letter;
use crate::{gen, Rng};
use rescan::verif::component::{Between, Node, Sequence, Step};

/// What the classes of a component are like.
#[derive(Clone, Copy, Eq, PartialEq)]
pub enum Style {
    /// Each is a single byte.
    Exact,
    /// Each is a byte which is no letter, or both cases of a letter.
    Caseless,
    /// Each is one of either.
    Both,
    Any,
}

pub fn class(rng: &mut Rng, style: Style) -> Vec<u8> {
    let exact = |rng: &mut Rng| if rng.bool() { gen::ascii(rng) as u8 } else { rng.byte() };
    let pair = |rng: &mut Rng| {
        let c = rng.byte() % 26;
        vec![c + b'A', c + b'a']
    };
    match style {
        Style::Exact => vec![exact(rng)],
        Style::Caseless => match exact(rng) {
            c if letter(c) => vec![c & 0xdf, c | 0x20],
            c => vec![c],
        },
        Style::Both if rng.bool() => pair(rng),
        Style::Both => vec![exact(rng)],
        Style::Any => {
            let mut v = match rng.below(8) {
                0 => vec![],
                1 => pair(rng),
                2 => {
                    let c = rng.byte();
                    vec![c, c ^ 0x20]
                }
                3 => {
                    let c = rng.byte();
                    vec![c, c ^ (1 << rng.below(8))]
                }
                4 => vec![rng.byte(), rng.byte()],
                5 => vec![rng.byte(), rng.byte(), rng.byte()],
                6 => gen::bytes(rng),
                _ => vec![rng.byte()],
            };
            v.sort_unstable();
            v.dedup();
            v
        }
    }
}

pub struct Maker {
    pub style: Style,
    pub alternations: bool,
    /// One in so many classes is of any kind.
    pub odd: u64,
    /// How many nodes there may be yet.
    pub left: usize,
}

impl Maker {
    pub fn new(rng: &mut Rng, size: usize) -> Self {
        Maker {
            style: *rng.pick(&[Style::Exact, Style::Caseless, Style::Both, Style::Any]),
            alternations: rng.chance(1, 3),
            odd: *rng.pick(&[0, 0, 4, 30]),
            left: size,
        }
    }
    fn sequence(&mut self, rng: &mut Rng, depth: usize) -> Sequence {
        let n = match rng.below(8) {
            0 => 0,
            1 => rng.usize(self.left.max(1)),
            _ => rng.range(1, 6) as usize,
        };
        let mut children = vec![];
        for _ in 0..n {
            if self.left == 0 {
                break;
            }
            children.push(self.node(rng, depth));
        }
        Sequence {
            capture_index: if rng.bool() { Some(gen::id(rng)) } else { None },
            capture_name: if rng.chance(1, 6) {
                let k = rng.usize(9);
                Some((0..k).map(|_| gen::ascii(rng)).filter(|c| !c.is_control()).collect())
            } else {
                None
            },
            children,
        }
    }
    pub fn node(&mut self, rng: &mut Rng, depth: usize) -> Node {
        self.left = self.left.saturating_sub(1);
        match rng.below(if depth == 0 { 1 } else { 5 }) {
            0 | 1 => {
                let style = if self.odd > 0 && rng.chance(1, self.odd) { Style::Any } else { self.style };
                Node::Class(class(rng, style))
            }
            2 if self.alternations => {
                let n = rng.usize(5);
                Node::Alternation((0..n).map(|_| self.sequence(rng, depth - 1)).collect())
            }
            _ => Node::Sequence(self.sequence(rng, depth - 1)),
        }
    }
}

/// A component.
pub fn any(rng: &mut Rng) -> Node {
    let size = *rng.pick(&[1, 3, 10, 10, 30, 30, 100]);
    let mut m = Maker::new(rng, size);
    let depth = rng.usize(7);
    m.node(rng, depth)
}

#[derive(Default)]
pub struct Walk {
    pub steps: Vec<Step>,
    /// Where it passes from one child of a sequence or alternation to another.
    pub between: Vec<Between>,
    pub alternations: usize,
}

impl Walk {
    pub fn of(n: &Node) -> Self {
        let mut w = Walk::default();
        w.node(n);
        w
    }
    fn sequence(&mut self, s: &Sequence) {
        self.steps.push(Step::Sequence(s.capture_index));
        for (k, c) in s.children.iter().enumerate() {
            if k > 0 {
                self.between.push(Between::Sequence(self.steps.len()));
            }
            self.node(c);
        }
        self.steps.push(Step::EndSequence);
    }
    fn node(&mut self, n: &Node) {
        match n {
            Node::Class(m) => {
                let mut m = m.clone();
                m.sort_unstable();
                m.dedup();
                self.steps.push(Step::Class(m));
            }
            Node::Sequence(s) => self.sequence(s),
            Node::Alternation(b) => {
                self.alternations += 1;
                self.steps.push(Step::Alternation);
                for (k, s) in b.iter().enumerate() {
                    if k > 0 {
                        self.between.push(Between::Alternation(self.steps.len()));
                    }
                    self.sequence(s);
                }
                self.steps.push(Step::EndAlternation);
            }
        }
    }
    pub fn classes(&self) -> impl Iterator<Item = &[u8]> {
        self.steps.iter().filter_map(|s| match s {
            Step::Class(m) => Some(m.as_slice()),
            _ => None,
        })
    }
    /// The characters of the literal, if it is one.
    pub fn literal(&self) -> Option<Vec<(u8, bool)>> {
        if self.alternations > 0 {
            return None;
        }
        let lit: Option<Vec<_>> = self
            .classes()
            .map(|m| match *m {
                [c] => Some((c, false)),
                [a, b] if letter(a) && a < b && b == a | 0x20 => Some((a, true)),
                _ => None,
            })
            .collect();
        lit.filter(|l| !l.is_empty())
    }
}

/// Whether a literal has both caseless and case-sensitive letters.
pub fn mixed(lit: &[(u8, bool)]) -> bool {
    lit.iter().any(|e| letter(e.0) && e.1) && lit.iter().any(|e| letter(e.0) && !e.1)
}
