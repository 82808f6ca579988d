//! C15: nothing the library does is undefined.
//!
//! Under Miri each case runs in an interpreter which knows about undefined
//! behaviour; elsewhere a sanitizer or the checked standard library watches.
//! What the calls return is for other monitors to judge: only whether they are
//! defined counts here.
use rescan::{compile, compile_multi, Flags};
use std::hint::black_box;
use vh::{gen, sut, work, Obs, Rng, Verdict};

#[global_allocator]
#[cfg(not(miri))]
static A: vh::alloc::Counting = vh::alloc::Counting;

/// Longest expression: the interpreter is slow.
const LONG: usize = if cfg!(miri) { 24 } else { 16_010 };

fn expr(rng: &mut Rng) -> String {
    match rng.below(10) {
        0 => gen::nth_string(&work::GRAMMAR, rng.below(gen::strings(4, 7))),
        1 => {
            let s = work::verb(rng);
            s.chars().take(LONG).collect()
        }
        2 => gen::any(rng, LONG.min(3000)).chars().take(LONG).collect(),
        3 if !cfg!(miri) && rng.chance(1, 20) => work::long(rng),
        3 | 4 => gen::accepted(rng, LONG.min(3000), true),
        _ => work::small(rng),
    }
}

fn single(rng: &mut Rng, obs: &mut Obs) -> Verdict {
    let s = expr(rng);
    let f = gen::flags(rng);
    let m = rng.below(6);
    let mut broken = None;
    let r = sut(|| match compile(&s, f, &gen::mode(m)) {
        Ok(d) => {
            drop(black_box(d));
            true
        }
        Err(e) => {
            // Text which is no UTF-8 must not be in a string.
            for text in [e.to_string(), format!("{e:?}")] {
                if std::str::from_utf8(black_box(text.as_bytes())).is_err() {
                    broken = Some(text.into_bytes());
                }
            }
            false
        }
    });
    if let Some(text) = broken {
        return Err(format!("compile({}, {f:?}): the text of the error is not UTF-8: {text:?}", gen::show(&s)));
    }
    obs.distinct(work::shape(&s, f));
    obs.sample(|| format!("compile({}, {f:?})", gen::show(&s)));
    obs.add(if r == Ok(true) { "accepted" } else { "refused" }, 1);
    Ok(())
}

fn sets(rng: &mut Rng, obs: &mut Obs) -> Verdict {
    let n = if cfg!(miri) { rng.usize(6) } else { rng.usize(40) };
    let exprs: Vec<String> = (0..n).map(|_| if rng.chance(1, 6) { expr(rng) } else { work::small(rng) }).collect();
    let refs: Vec<&str> = exprs.iter().map(|s| s.as_str()).collect();
    let flags: Vec<Flags> = (0..n).map(|_| gen::good_flags(rng)).collect();
    let short = rng.chance(1, 12);
    let ids: Vec<u32> = (0..if short { n / 2 } else { n }).map(|_| gen::id(rng)).collect();
    let m = rng.below(6);
    #[cfg(rescan_verif = "trace")]
    rescan::verif::trace::take();
    let r = sut(|| {
        let r = compile_multi(&refs, &flags, &ids, &gen::mode(m));
        let ok = r.is_ok();
        let moved = Box::new(r);
        black_box(&moved);
        ok
    });
    obs.distinct_of(&(&exprs, ids));
    obs.add(if r == Ok(true) { "sets accepted" } else { "sets refused" }, 1);
    #[cfg(rescan_verif = "trace")]
    for e in rescan::verif::trace::take() {
        if let rescan::verif::trace::Event::Done { linked, .. } = e {
            obs.add("self references checked", cfg!(rescan_verif = "trace_link") as u64);
            if !linked {
                return Err(format!("compiling {refs:?}: the small-write builder refers to a report manager elsewhere"));
            }
        }
    }
    Ok(())
}

/// Expressions of one shape after another, in one thread and two.
fn threads(rng: &mut Rng, obs: &mut Obs) {
    let a = expr(rng);
    let b = expr(rng);
    let f = gen::flags(rng);
    let hs: Vec<_> = [a.clone(), b.clone(), a]
        .into_iter()
        .map(|s| std::thread::spawn(move || sut(|| compile(&s, f, &rescan::Mode::Block).is_ok()).unwrap_or(false)))
        .collect();
    for h in hs {
        obs.add("compilations at the same time", 1);
        black_box(h.join().ok());
    }
}

#[cfg(rescan_verif = "scan")]
fn scans(rng: &mut Rng, obs: &mut Obs) {
    use rescan::verif::scan as hook;
    let s = gen::accepted(rng, LONG.min(40), true);
    let Ok(db) = sut(|| compile(&s, Flags::empty(), &gen::mode(rng.below(6)))) else { return };
    let Ok(db) = db else { return };
    let n = rng.usize(40);
    let text: Vec<u8> = (0..n).map(|_| rng.byte()).collect();
    let mut state = text.clone();
    for p in [std::ptr::null_mut(), state.as_mut_ptr()] {
        let mut scratch = hook::scratch(p);
        let _ = sut(|| rescan::scan(&db, &text, &mut scratch).is_ok());
        obs.add("scans", 1);
    }
    black_box(&state);
}

#[cfg(rescan_verif = "charset")]
fn charsets(rng: &mut Rng, obs: &mut Obs) {
    use rescan::verif::charset::{self, Set};
    let k = rng.usize(12);
    let v: Vec<u8> = (0..k).map(|_| rng.byte()).collect();
    let (a, b) = (rng.byte(), rng.byte());
    let r = sut(|| {
        let mut s = Set::from_bytes(&v);
        let mut t = Set::from_range(a.min(b), a.max(b));
        s.set(a);
        s.reset(b);
        s.flip(a);
        t.set_range(a.min(b), a.max(b));
        t |= s;
        t ^= Set::from_char(b);
        t &= !s | Set::dot();
        s.make_caseless();
        // Too short a vector is documented to panic.
        let mut short = vec![0u8; (a % 40) as usize];
        let fill = std::panic::AssertUnwindSafe(|| s.fill_bitvector(&mut short));
        black_box(std::panic::catch_unwind(fill).is_ok());
        let mut bits = vec![0u8; 32];
        s.fill_bitvector(&mut bits);
        let x = (s.find_first(), s.find_last(), s.find_next(a), s.find_nth(b), s.and_cmp_mask(), bits);
        let y = (s.is_alphabetic(), s.is_caseless_char(), s.is_bit5_insensitive(), s.is_subset_of(&t), s.overlaps(&t), s.is_ascii(), s.is_utf8_start());
        let z = (charset::is_upper(a), charset::to_lower(a), charset::to_upper(b), charset::is_alpha(b), s.cmp(&t), s == t, s.count(), s.display());
        black_box((x, y, z));
    });
    obs.add(if r.is_ok() { "character sets" } else { "panics" }, 1);
}

#[cfg(rescan_verif = "literal")]
fn literals(rng: &mut Rng, obs: &mut Obs) {
    use rescan::verif::literal::Literal;
    let mut make = || {
        let n = if cfg!(miri) { rng.usize(8) } else { rng.usize(200) };
        let v: Vec<(u8, bool)> = (0..n).map(|_| (*rng.pick(b"aAbB1\xff"), rng.bool())).collect();
        v
    };
    let (a, b) = (make(), make());
    let r = sut(|| {
        let lit = |v: &[(u8, bool)]| {
            let mut l = Literal::default();
            v.iter().for_each(|e| l.push(e.0, e.1));
            l
        };
        let (x, y) = (lit(&a), lit(&b));
        black_box((x.elements(), y.elements_by_ref(), x.equals(&y), x.compare(&y), x.partial_compare(&y)));
        black_box((x.any_nocase(), x.mixed_sensitivity(), x.len(), y.is_empty()));
    });
    obs.add(if r.is_ok() { "literals" } else { "panics" }, 1);
}

#[cfg(rescan_verif = "report")]
fn reports(rng: &mut Rng, obs: &mut Obs) {
    use rescan::verif::report::with_manager;
    let many = rng.chance(1, if cfg!(miri) { 8 } else { 20 });
    let (limit, n, spread) = if many { (usize::MAX, if cfg!(miri) { 300 } else { 3_000 }, 10_000) } else { (rng.usize(6), 20, 5) };
    let ops: Vec<(u64, u32)> = (0..rng.usize(n)).map(|_| (rng.below(if many { 4 } else { 5 }), rng.below(spread) as u32)).collect();
    let r = sut(|| {
        with_manager(limit, |m| {
            for (i, (op, x)) in ops.iter().enumerate() {
                match op {
                    0 => {
                        if let Ok(id) = m.internal_id(*x as u64) {
                            black_box(m.report(id));
                        }
                    }
                    1 => drop(m.register(*x, *x % 2 == 0, i as u32)),
                    2 => {
                        black_box(m.exhaustible_key(*x));
                    }
                    // There may be no such report: then it panics.
                    4 => {
                        black_box(std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| m.report(*x))).ok());
                    }
                    _ => {
                        black_box((m.external(), m.num_reports()));
                    }
                }
            }
        })
    });
    obs.add(if r.is_ok() { "report histories" } else { "panics" }, 1);
}

#[cfg(rescan_verif = "smwr")]
fn tries(rng: &mut Rng, obs: &mut Obs) {
    use rescan::verif::smwr::{default_limits, with_builder};
    let n = if cfg!(miri) { 5 } else { 60 };
    let lits: Vec<Vec<(u8, bool)>> = (0..rng.range(1, n))
        .map(|_| {
            let nocase = rng.bool();
            let k = rng.range(1, 8);
            (0..k).map(|_| (*rng.pick(b"abAB"), nocase)).collect()
        })
        .collect();
    let som = rng.chance(1, 4);
    let r = sut(|| {
        with_builder(lits.len(), default_limits(), |b| {
            for (i, l) in lits.iter().enumerate() {
                b.add_literal(l, i as u32);
            }
            if som {
                b.add_som_expression();
            }
            black_box(b.state());
        })
    });
    obs.add(if r.is_ok() { "tries" } else { "panics" }, 1);
}

#[cfg(rescan_verif = "dump")]
fn dumps(rng: &mut Rng, obs: &mut Obs) -> Verdict {
    use rescan::verif::dump::{class_text, tree_text};
    let s = gen::accepted(rng, LONG.min(100), true);
    let k = rng.usize(10);
    let v: Vec<u8> = (0..k).map(|_| rng.byte()).collect();
    let mut broken = None;
    let r = sut(|| {
        let tree = tree_text(&s, Flags::CASELESS).ok().unwrap_or_default();
        for text in [tree, class_text(&v, false), class_text(&v, true)] {
            if std::str::from_utf8(black_box(text.as_bytes())).is_err() {
                broken = Some(text.into_bytes());
            }
        }
    });
    obs.add(if r.is_ok() { "dumps" } else { "panics" }, 1);
    match broken {
        Some(text) => Err(format!("the dump of {} or {v:?} is not UTF-8: {text:?}", gen::show(&s))),
        None => Ok(()),
    }
}

#[cfg(rescan_verif = "wiring")]
fn wiring(rng: &mut Rng, obs: &mut Obs) {
    use rescan::verif::wiring::{connect, Pos};
    let mut item = || {
        let p = *rng.pick(&[Pos::Start, Pos::StartDotStar, Pos::Accept, Pos::AcceptEod, Pos::Plain(0), Pos::Plain(1)]);
        (p, rng.below(8) as u32)
    };
    let calls: Vec<_> = (0..2).map(|_| (vec![item(), item()], vec![item(), item(), item()])).collect();
    let r = sut(|| black_box(connect(&[0, 4], &calls)));
    obs.add(if r.is_ok() { "wirings" } else { "panics" }, 1);
}

/// A graph, and the IDs of its reports.
#[cfg(rescan_verif = "holder")]
fn graph(rng: &mut Rng, ids: u32) -> rescan::verif::holder::Holder {
    let mut g = rescan::verif::holder::Holder::new();
    let n = rng.usize(if cfg!(miri) { 4 } else { 20 });
    let mut all = g.special().to_vec();
    (0..n).for_each(|_| all.push(g.add_vertex()));
    for _ in 0..rng.usize(2 * n + 3) {
        let (a, b) = (*rng.pick(&all), *rng.pick(&all));
        if !rng.chance(1, 3) {
            g.add_edge(a, b);
        } else {
            g.add_edge(a, g.special()[2 + rng.usize(2)]);
        }
        if ids > 0 && rng.bool() {
            g.add_report(a, rng.below(ids as u64) as u32);
        }
    }
    g
}

#[cfg(rescan_verif = "holder")]
fn holders(rng: &mut Rng, obs: &mut Obs) {
    let r = sut(|| {
        let g = graph(rng, 6);
        black_box((g.num_vertices(), g.is_vacuous(), g.all_reports()));
    });
    obs.add(if r.is_ok() { "graphs" } else { "panics" }, 1);
}

/// Expressions given to the small-write builder as graphs.
#[cfg(all(rescan_verif = "holder", rescan_verif = "smwr"))]
fn expressions(rng: &mut Rng, obs: &mut Obs) {
    use rescan::verif::smwr::{default_limits, with_builder};
    let n = rng.range(1, 6) as u64;
    let first = rng.below(2);
    let lengths: Vec<u64> = (0..n).map(|i| i + first).collect();
    // Not all need have their report.
    let k = n as u32 + rng.chance(1, 8) as u32;
    let mut made = 0;
    let _ = sut(|| {
        with_builder(3, default_limits(), |b| {
            for _ in 0..3 {
                let g = graph(rng, k);
                let som = rng.chance(1, 4);
                b.add_literal(&[(b'a', som)], 0);
                // Most of it is not implemented.
                let add = std::panic::AssertUnwindSafe(|| b.add_expression(&g, som, &lengths));
                black_box(std::panic::catch_unwind(add).is_ok());
                made += 1;
            }
            black_box(b.state());
        })
    });
    obs.add("expressions given as graphs", made);
}

#[cfg(rescan_verif = "component")]
fn components(rng: &mut Rng, obs: &mut Obs) {
    use rescan::verif::component::{self, Given};
    let nodes = [(); 2].map(|_| {
        let mut m = vh::nodes::Maker::new(rng, if cfg!(miri) { 6 } else { 40 });
        m.node(rng, 4)
    });
    let set: Vec<_> = nodes
        .iter()
        .map(|n| {
            let given = Given { report: gen::id(rng), highlander: rng.bool(), som: rng.chance(1, 5), quiet: rng.chance(1, 8) };
            (n.clone(), given)
        })
        .collect();
    let chars: Vec<char> = (0..rng.usize(9)).map(|_| gen::ascii(rng)).collect();
    let caseless = rng.bool();
    let r = sut(|| {
        black_box(component::walk(&nodes[0]));
        black_box(component::class(caseless, &chars).is_ok());
        #[cfg(rescan_verif = "dump")]
        black_box(component::text(&nodes[1]));
    });
    obs.add(if r.is_ok() { "walks" } else { "panics" }, 1);
    // What is no literal is not implemented yet, and panics.
    black_box(sut(|| component::add(&set)).is_ok());
    obs.add("components compiled", 2);
}

#[cfg(rescan_verif = "util")]
fn numbers(rng: &mut Rng, obs: &mut Obs) {
    use rescan::verif::util::{a16, a32, a64, a8, asize, D};
    let x = rng.next() >> rng.below(64);
    let n = 1u8 << rng.below(8);
    // Near the end of a type rounding up may panic: that is defined.
    let mut ok = true;
    macro_rules! all {
        ($($m:ident $t:ty),*) => {$(
            ok &= sut(|| black_box(($m::up_16(x as $t), $m::down_16(x as $t)))).is_ok();
            ok &= sut(|| black_box(($m::up_n(x as $t, n), $m::down_n(x as $t, n)))).is_ok();
            ok &= sut(|| black_box($m::up_cache_line(x as $t))).is_ok();
        )*};
    }
    all!(a8 u8, a16 u16, a32 u32, a64 u64, asize usize);
    ok &= sut(|| {
        let d = D::from_u32(x as u32).unwrap_or_else(D::infinity);
        let e = D::from_usize(x as usize).unwrap_or_else(D::infinity);
        black_box((d.compare(&e), d.partial_compare(&e), d.equals(&e), d.least(e)));
    })
    .is_ok();
    obs.add(if ok { "numbers" } else { "panics" }, 1);
}

fn case(i: u64, rng: &mut Rng, obs: &mut Obs) -> Verdict {
    match i % 19 {
        0..=3 => single(rng, obs)?,
        4..=6 => sets(rng, obs)?,
        7 => threads(rng, obs),
        #[cfg(rescan_verif = "scan")]
        8 => scans(rng, obs),
        #[cfg(rescan_verif = "charset")]
        9 => charsets(rng, obs),
        #[cfg(rescan_verif = "literal")]
        10 => literals(rng, obs),
        #[cfg(rescan_verif = "report")]
        11 => reports(rng, obs),
        #[cfg(rescan_verif = "smwr")]
        12 => tries(rng, obs),
        #[cfg(rescan_verif = "dump")]
        13 => dumps(rng, obs)?,
        #[cfg(rescan_verif = "wiring")]
        14 => wiring(rng, obs),
        #[cfg(rescan_verif = "util")]
        15 => numbers(rng, obs),
        #[cfg(rescan_verif = "holder")]
        16 => holders(rng, obs),
        #[cfg(all(rescan_verif = "holder", rescan_verif = "smwr"))]
        17 => expressions(rng, obs),
        #[cfg(rescan_verif = "component")]
        18 => components(rng, obs),
        _ => single(rng, obs)?,
    }
    Ok(())
}

/// Under Miri: `SEED FROM TO SECONDS`, the cases in order, one line per case.
#[cfg(miri)]
fn main() {
    let a: Vec<u64> = std::env::args().skip(1).map(|s| s.parse().expect("a number")).collect();
    std::panic::set_hook(Box::new(|_| {}));
    let start = std::time::Instant::now();
    let mut obs = Obs::default();
    let mut n = 0;
    for i in a[1]..a[2] {
        if start.elapsed().as_secs() >= a[3] {
            break;
        }
        println!("case {i}");
        let mut rng = Rng::of(&[a[0], 15, i]);
        if let Err(e) = case(i, &mut rng, &mut obs) {
            println!("violated: {e}");
            std::process::exit(1);
        }
        n += 1;
    }
    println!("cases {n} distinct {}", obs.distinct_count());
    for (k, v) in &obs.counts {
        println!("count {v} {k}");
    }
}

#[cfg(not(miri))]
fn main() {
    let mut ctx = vh::Ctx::new("C15");
    let k = if ctx.profile == "asan" { 2 } else { 1 };
    let n = ctx.scale(200_000, 6_000_000) / k;
    ctx.phase("calls", n, |i, rng, obs| case(i, rng, obs));
    ctx.require("accepted", 10_000 / k);
    ctx.require("sets accepted", 5_000 / k);
    ctx.finish()
}
