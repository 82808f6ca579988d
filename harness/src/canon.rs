//! What a compilation did, in a form which does not depend on the order in
//! which hash maps are walked or vertices are numbered.
#[cfg(rescan_verif = "trace")]
use rescan::verif::trace::{self, Event, Trie};
use rescan::{compile_multi, Flags};
#[cfg(rescan_verif = "trace")]
use std::fmt::Write;

#[cfg(rescan_verif = "trace")]
fn trie(t: &Trie) -> Vec<(Vec<u8>, usize)> {
    let mut v: Vec<(Vec<u8>, usize)> = (0..t.vertices.len())
        .map(|v| {
            let mut s = vec![];
            let mut u = v;
            while u != t.root && s.len() <= t.vertices.len() {
                s.push(t.vertices[u].0);
                match t.vertices[u].1.first() {
                    Some(p) => u = *p,
                    None => break,
                }
            }
            s.reverse();
            (s, t.vertices[v].2.len())
        })
        .collect();
    v.sort();
    v
}

/// Compiles, and returns a hash of the verdict, and a short description.
#[cfg(not(rescan_verif = "trace"))]
pub fn fingerprint(exprs: &[&str], flags: &[Flags], ids: &[u32], mode: u64) -> (u64, String) {
    let r = compile_multi(exprs, flags, ids, &crate::gen::mode(mode)).map(|_| ()).map_err(|e| (e.to_string(), format!("{e:?}")));
    let h = crate::rng::hash_of(&r);
    (h, r.map_or_else(|e| format!("refused: {}", e.0), |()| "accepted".into()))
}

/// Compiles, and returns a hash of what happened, and a short description.
///
/// Panics of the code under test pass through.
#[cfg(rescan_verif = "trace")]
pub fn fingerprint(exprs: &[&str], flags: &[Flags], ids: &[u32], mode: u64) -> (u64, String) {
    trace::take();
    let r = compile_multi(exprs, flags, ids, &crate::gen::mode(mode)).map(|_| ()).map_err(|e| (e.to_string(), format!("{e:?}")));
    let events = trace::take();
    let mut h = crate::rng::hash_of(&r);
    let mut d = match r {
        Ok(()) => "accepted".to_string(),
        Err(e) => format!("refused: {}", e.0),
    };
    let mut add = |x: u64| h = crate::rng::mix(h.rotate_left(7) ^ x);
    for e in &events {
        match e {
            Event::Literal { .. } => add(crate::rng::hash_of(e)),
            Event::Graph { expr, graph } => {
                let mut reach = graph.reach.clone();
                reach.sort();
                let mut reports = graph.all_reports.clone();
                reports.sort_unstable();
                add(crate::rng::hash_of(&(expr, reach, graph.edges.len(), graph.vacuous, reports)));
            }
            #[cfg(rescan_verif = "trace_keys")]
            Event::Keys(keys) => add(crate::rng::hash_of(&keys.len())),
            Event::Done { min_width, external, num_reports, has_som, smwr, linked } => {
                let mut ext = external.clone();
                ext.0.sort_unstable();
                add(crate::rng::hash_of(&(min_width, ext, num_reports, has_som, linked)));
                add(crate::rng::hash_of(&(smwr.poisoned, trie(&smwr.trie), trie(&smwr.trie_nocase))));
                let _ = write!(
                    d,
                    ", {} events, min width {min_width:?}, {num_reports} reports, tries of {} and {}, poisoned {}",
                    events.len(), smwr.trie.vertices.len(), smwr.trie_nocase.vertices.len(), smwr.poisoned
                );
            }
        }
    }
    (h, d)
}
