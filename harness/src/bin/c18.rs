//! C18: scanning always answers and touches nothing.
use rescan::verif::{rose, scan as hook};
use rescan::{compile, compile_multi, scan, Database, Flags};
use vh::run::must_answer;
use vh::{gen, sut, work, Ctx, Obs, Rng, Verdict};

#[global_allocator]
static A: vh::alloc::Counting = vh::alloc::Counting;

extern "C" {
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn mprotect(a: *mut u8, n: usize, prot: i32) -> i32;
    fn munmap(a: *mut u8, n: usize) -> i32;
}

const PAGE: usize = 4096;

/// Memory which ends right before, and begins right after, pages which must
/// not be touched.
struct Guarded {
    base: *mut u8,
    len: usize,
    total: usize,
    data: *mut u8,
}

impl Guarded {
    fn new(content: &[u8], at_end: bool) -> Self {
        let len = content.len();
        let inner = (len + PAGE - 1) / PAGE * PAGE;
        let total = inner + 2 * PAGE;
        unsafe {
            let base = mmap(std::ptr::null_mut(), total, 3, 0x22, -1, 0);
            assert!(base as isize != -1, "no memory");
            let data = base.add(PAGE + if at_end { inner - len } else { 0 });
            std::ptr::copy_nonoverlapping(content.as_ptr(), data, len);
            assert!(mprotect(base, PAGE, 0) == 0 && mprotect(base.add(PAGE + inner), PAGE, 0) == 0);
            Guarded { base, len, total, data }
        }
    }
    /// From now on only reads are allowed (none if `prot` is 0).
    fn protect(&self, prot: i32) {
        let inner = self.total - 2 * PAGE;
        if inner > 0 {
            unsafe { assert!(mprotect(self.base.add(PAGE), inner, prot) == 0) }
        }
    }
    fn bytes(&self) -> &[u8] {
        unsafe { std::slice::from_raw_parts(self.data, self.len) }
    }
}

impl Drop for Guarded {
    fn drop(&mut self) {
        unsafe {
            munmap(self.base, self.total);
        }
    }
}

fn db(rng: &mut Rng, mode: u64) -> Result<(Database, String), String> {
    let n = if rng.bool() { 1 } else { rng.range(2, 8) };
    let exprs: Vec<String> = (0..n)
        .map(|_| if rng.chance(1, 4) { gen::accepted(rng, 300, true) } else { work::small(rng) })
        .collect();
    let refs: Vec<&str> = exprs.iter().map(|s| s.as_str()).collect();
    let ids: Vec<u32> = (0..n as u32).collect();
    let flags: Vec<Flags> = (0..n).map(|_| gen::good_flags(rng)).collect();
    let d = if n == 1 {
        compile(refs[0], flags[0], &gen::mode(mode))
    } else {
        compile_multi(&refs, &flags, &ids, &gen::mode(mode))
    };
    let name = format!("{:?} {}", refs.iter().take(3).map(|e| gen::show(e)).collect::<Vec<_>>(), gen::mode_name(mode));
    match d {
        Ok(d) => Ok((d, name)),
        Err(e) => Err(format!("{name} was refused: {e}")),
    }
}

fn data(rng: &mut Rng) -> Vec<u8> {
    let n = match rng.below(12) {
        0 => 0,
        1 => gen::among(rng, &[1, 63, 64, 65, 70, 71, 255, 256, 257, 4_095, 4_096, 4_097]),
        2 if rng.chance(1, 40) => gen::among(rng, &[65_535, 65_536, 65_537, 1 << 20]),
        _ => rng.usize(200),
    };
    let kind = rng.below(3);
    (0..n)
        .map(|_| match kind {
            0 => rng.byte(),
            1 => *rng.pick(b"abAB01"),
            _ => b'a',
        })
        .collect()
}

fn one(rng: &mut Rng, i: u64, obs: &mut Obs) -> Verdict {
    let (db, name) = sut(|| db(rng, i))??;
    let before = sut(|| rose::engine(&db))?;
    for _ in 0..rng.range(1, 3) {
        let d = data(rng);
        let text = Guarded::new(&d, rng.bool());
        text.protect(1);
        let st = data(rng);
        let state = Guarded::new(&st, rng.bool());
        let ptr = match rng.below(4) {
            0 => std::ptr::null_mut(),
            1 => std::ptr::NonNull::<u8>::dangling().as_ptr(),
            _ => state.data,
        };
        // Not even read, in half of the cases.
        let hidden = rng.bool();
        if hidden {
            state.protect(0);
        }
        let mut scratch = hook::scratch(ptr);
        let live = vh::alloc::live();
        must_answer(true);
        let r = sut(|| scan(&db, text.bytes(), &mut scratch).is_ok());
        must_answer(false);
        state.protect(1);
        let r = r.map_err(|e| format!("{name}: scanning {} bytes {e}", d.len()))?;
        if !r {
            return Err(format!("{name}: scanning {} bytes failed", d.len()));
        }
        if vh::alloc::live() != live {
            return Err(format!("{name}: scanning {} bytes holds on to memory: {live:?} to {:?}", d.len(), vh::alloc::live()));
        }
        if text.bytes() != d || state.bytes() != st || hook::state(&scratch) != ptr {
            return Err(format!("{name}: scanning {} bytes changed the text or the scratch space", d.len()));
        }
        if sut(|| rose::engine(&db))? != before {
            return Err(format!("{name}: scanning changed the database"));
        }
        obs.add("scans", 1);
        obs.add("bytes scanned", d.len() as u64);
        obs.max("longest text", d.len() as u64);
        obs.distinct_of(&(name.as_str(), d.as_slice()));
        obs.sample(|| format!("{name} on {} bytes", d.len()));
    }
    Ok(())
}

fn main() {
    let mut ctx = Ctx::new("C18");
    let n = ctx.scale(30_000, 600_000);
    ctx.phase("scans", n, |i, rng, obs| one(rng, i, obs));
    // The last ones of a thread, as its thread-local variables go.
    let n = ctx.scale(2_000, 40_000);
    ctx.phase("thread end", n, |i, rng, obs| {
        let (mut a, mut b) = (Rng::new(rng.next()), Rng::new(rng.next()));
        let mut other = Obs::default();
        obs.add("scans as a thread ends", 1);
        vh::run::at_thread_end(
            || drop(one(&mut a, i, &mut other)),
            || one(&mut b, i, obs).map_err(|e| format!("as a thread ends: {e}")),
        )
    });
    // Several databases scanned in turn with a few scratch spaces.
    let n = ctx.scale(4_000, 80_000);
    ctx.phase("in turn", n, |_, rng, obs| {
        let dbs: Vec<(Database, String)> = (0..rng.range(2, 6)).map(|_| {
            let mode = rng.below(6);
            sut(|| db(rng, mode))?
        }).collect::<Result<_, _>>()?;
        let before: Vec<_> = dbs.iter().map(|d| sut(|| rose::engine(&d.0))).collect::<Result<_, _>>()?;
        let mut state = [0x5au8; 64];
        let ptr = state.as_mut_ptr();
        let mut scratches: Vec<_> = (0..rng.range(1, 3)).map(|_| hook::scratch(ptr)).collect();
        let mut last = String::new();
        for k in 0..rng.range(2, 24) {
            let d = rng.usize(dbs.len());
            let s = rng.usize(scratches.len());
            let text = if rng.chance(1, 4) { Vec::new() } else { data(rng) };
            must_answer(true);
            let r = sut(|| scan(&dbs[d].0, &text, &mut scratches[s]).is_ok());
            must_answer(false);
            match r {
                Ok(true) => {}
                Ok(false) => return Err(format!("{}: scan {k} of {} bytes, after {last}, failed", dbs[d].1, text.len())),
                Err(e) => return Err(format!("{}: scan {k} of {} bytes, after {last}, {e}", dbs[d].1, text.len())),
            }
            if hook::state(&scratches[s]) != ptr || state != [0x5a; 64] {
                return Err(format!("{}: scan {k} of {} bytes, after {last}, changed the scratch space", dbs[d].1, text.len()));
            }
            drop(text);
            last = format!("scan of {} with scratch space {s}", dbs[d].1);
            obs.add("scans in turn", 1);
        }
        for (d, b) in dbs.iter().zip(before) {
            if sut(|| rose::engine(&d.0))? != b {
                return Err(format!("{}: scanning changed the database", d.1));
            }
        }
        Ok(())
    });
    // Texts longer than any integer narrower than a pointer can count: pages
    // which are never written to, so that they take no memory.
    let n = ctx.scale(10, 100);
    ctx.phase("long texts", n, |i, rng, obs| {
        let (db, name) = sut(|| db(rng, i))??;
        let len = match i % 10 {
            k @ 0..=5 => (1usize << (31 + k / 3)) + (k % 3) as usize - 1,
            6 => (1 << 32) + rng.usize(1 << 32),
            7 => (5 << 30) + rng.usize(1 << 30),
            8 => rng.usize(1 << 32),
            _ => 1 << rng.range(16, 33),
        };
        let at = unsafe { mmap(std::ptr::null_mut(), len, 1, 0x4022, -1, 0) };
        if at as isize == -1 {
            obs.add("long texts without memory", 1);
            return Ok(());
        }
        let text = unsafe { std::slice::from_raw_parts(at, len) };
        let mut scratch = hook::scratch(std::ptr::null_mut());
        must_answer(true);
        let r = sut(|| scan(&db, text, &mut scratch).is_ok());
        must_answer(false);
        unsafe { munmap(at, len) };
        obs.add("long texts", 1);
        obs.max("longest text", len as u64);
        obs.distinct_of(&len);
        match r {
            Ok(true) => Ok(()),
            Ok(false) => Err(format!("{name}: scanning {len} bytes failed")),
            Err(e) => Err(format!("{name}: scanning {len} bytes {e}")),
        }
    });
    // One database, scanned by many threads at once and over and over.
    let n = ctx.scale(30, 400);
    ctx.phase("shared", n, |i, rng, obs| {
        let (db, name) = sut(|| db(rng, i))??;
        struct Shared(Database);
        unsafe impl Sync for Shared {} // C16 decides whether it is
        let before = sut(|| rose::engine(&db))?;
        let db = Shared(db);
        let text = data(rng);
        must_answer(true);
        let bad: Vec<String> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..4)
                .map(|_| {
                    let (db, text) = (&db, &text);
                    s.spawn(move || {
                        for k in 0..500usize {
                            let mut scratch = hook::scratch(std::ptr::null_mut());
                            let part = &text[..text.len().min(k)];
                            match sut(|| scan(&db.0, part, &mut scratch).is_ok()) {
                                Ok(true) => {}
                                Ok(false) => return Some(format!("scan {k} failed")),
                                Err(e) => return Some(format!("scan {k} {e}")),
                            }
                        }
                        None
                    })
                })
                .collect();
            hs.into_iter().filter_map(|h| h.join().unwrap()).collect()
        });
        must_answer(false);
        obs.add("scans at the same time", 2_000);
        if let Some(e) = bad.first() {
            return Err(format!("{name}: {e}"));
        }
        if sut(|| rose::engine(&db.0))? != before {
            return Err(format!("{name}: scanning changed the database"));
        }
        Ok(())
    });
    // More scans than any integer narrower than 33 bits can count.
    ctx.cpu_limit = 300.0;
    let n = ctx.scale(4, 16);
    let far = if ctx.thorough { 8 } else { 1 };
    ctx.phase("many times", n, |i, rng, obs| {
        let (db, name) = sut(|| db(rng, i))??;
        let text = data(rng);
        let text = &text[..text.len().min(64)];
        let times: u64 = if i < far { (1 << 32) + 100 } else { 1 << 22 };
        let mut scratch = hook::scratch(std::ptr::null_mut());
        let before = sut(|| rose::engine(&db))?;
        let mut at = 0;
        must_answer(true);
        let r = sut(|| {
            while at < times {
                if scan(&db, std::hint::black_box(text), &mut scratch).is_err() {
                    return false;
                }
                at += 1;
            }
            true
        });
        must_answer(false);
        obs.add("scans by one thread", at);
        obs.max("scans of one database by one thread", at);
        obs.distinct_of(&(name.as_str(), text));
        match r {
            Ok(true) => {}
            Ok(false) => return Err(format!("{name}: scan {at} failed")),
            Err(e) => return Err(format!("{name}: scan {at} {e}")),
        }
        if sut(|| rose::engine(&db))? != before {
            return Err(format!("{name}: {times} scans changed the database"));
        }
        Ok(())
    });
    ctx.require("scans by one thread", 1 << 22);
    ctx.require("scans", 20_000);
    ctx.require("scans in turn", 10_000);
    ctx.require("long texts", 20);
    ctx.finish()
}
