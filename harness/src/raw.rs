//! One use of one interface with nothing else around it, so that what it executes, allocates and
//! puts on the stack can be watched.
use crate::build::Build;
use crate::case::{vary_key, Side, P, Q};
use crate::data::Data;
use crate::exec::{call_exact4, call_exact8, call_hash8, Res};
use crate::portable;
#[cfg(feature = "cov")]
use crate::cov as tracer;
#[cfg(not(feature = "cov"))]
use crate::step as tracer;
use crate::tag::*;
use blake2s_simd as b2;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::fmt::Write;
use std::hint::black_box;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub const WHATS: u8 = 14;
pub const NAMES: [&str; WHATS as usize] = [
    "blake2s", "parameters, state, updates, finalize", "blake2sp", "BLAKE2sp parameters, state, updates, finalize",
    "update8 and finalize8", "hash8", "hash4_exact", "hash8_exact", "io::Write on a state", "io::Write on a BLAKE2sp state",
    "clone, last-node flag, finalize both", "a state forced to portable code", "a BLAKE2sp state forced to portable code",
    "comparing, printing and formatting",
];

// --- heap ------------------------------------------------------------------------------------

pub struct Counting;
thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static ASKED: Cell<(u64, usize)> = const { Cell::new((0, 0)) };
}
fn asked(n: usize) {
    if ON.with(|o| o.get()) {
        ASKED.with(|a| a.set((a.get().0 + 1, a.get().1.max(n))));
    }
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        asked(l.size());
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        asked(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        asked(n);
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static COUNTING: Counting = Counting;

/// Allocations made meanwhile, and the largest.
fn heap_use(f: &mut dyn FnMut()) -> (u64, usize) {
    ASKED.with(|a| a.set((0, 0)));
    ON.with(|o| o.set(true));
    f();
    ON.with(|o| o.set(false));
    ASKED.with(|a| a.get())
}

// --- stack -----------------------------------------------------------------------------------

/// The most stack any use needed so far.
pub static MOST: AtomicUsize = AtomicUsize::new(0);
/// The most instructions or events per byte of input, past the first 50 000.
pub static COST: AtomicUsize = AtomicUsize::new(0);
/// How far below this frame the stack is looked at, in bytes.
const DEPTH: usize = 512 << 10;
pub const STACK_LIMIT: usize = 64 << 10;

#[inline(never)]
fn stack_use(f: &mut dyn FnMut()) -> usize {
    let mut here = 0u64;
    let top = (black_box(&mut here as *mut u64) as usize - 2048) & !7;
    let low = top - DEPTH;
    const MARK: u64 = 0x5AC4_57AC_4A11_D0CE;
    unsafe {
        let mut a = top;
        while a > low {
            a -= 8;
            (a as *mut u64).write_volatile(MARK);
        }
        f();
        a = low;
        while a < top && (a as *mut u64).read_volatile() == MARK {
            a += 8;
        }
        top + 2048 - a
    }
}

// --- the calls -------------------------------------------------------------------------------

/// What is there before the watched use begins.
struct Pre {
    shared: std::sync::Arc<Share<(b2::State, b2::Params)>>,
    sp: std::cell::RefCell<b2::blake2sp::State>,
}
struct Share<T>(T);
// Whether they may be is C20's first question; if not it ends there.
unsafe impl<T> Send for Share<T> {}
unsafe impl<T> Sync for Share<T> {}

struct Job {
    what: u8,
    p: P,
    q: Q,
    msg: Vec<(Vec<u8>, usize, usize)>,
    /// Where the messages are instead, if they are long.
    long: &'static [u8],
    cut: Vec<usize>,
    /// States to start from instead of new ones.
    pre: Option<Pre>,
}

impl Job {
    fn new(what: u8, p: &P, q: &Q, d: &[Data], cut: &[usize]) -> Job {
        let msg = d
            .iter()
            .map(|x| {
                let v = vec![0u8; x.n + 128];
                let off = (64 - v.as_ptr() as usize % 64) % 64 + x.a as usize % 64;
                (v, off, x.n)
            })
            .collect();
        Job { what, p: p.clone(), q: q.clone(), msg, long: &[], cut: cut.to_vec(), pre: None }
    }
    /// Other contents in the same places.
    fn contents(&mut self, p: &P, q: &Q, d: &[Data], v: u64) {
        self.p.key.copy_from_slice(&p.key);
        self.q.key.copy_from_slice(&q.key);
        if v != 0 {
            vary_key(v, &mut self.p.key);
            vary_key(v, &mut self.q.key);
        }
        for (m, x) in self.msg.iter_mut().zip(d) {
            let y = x.varied(v);
            y.fill(&mut m.0[m.1..m.1 + m.2]);
        }
    }
    fn params(&self) -> b2::Params {
        match &self.pre {
            Some(x) => x.shared.0.1.clone(),
            None => self.p.build(),
        }
    }
    fn state(&self) -> b2::State {
        match &self.pre {
            Some(x) => x.shared.0.0.clone(),
            None => self.p.build().to_state(),
        }
    }
    fn with_sp(&self, f: &mut dyn FnMut(&mut b2::blake2sp::State)) {
        match &self.pre {
            Some(x) => f(&mut x.sp.borrow_mut()),
            None => f(&mut self.q.build().to_state()),
        }
    }
    fn m(&self, i: usize) -> &[u8] {
        let m = &self.msg[i];
        if !self.long.is_empty() {
            return &self.long[m.1..m.1 + m.2];
        }
        &m.0[m.1..m.1 + m.2]
    }
}

fn pieces<'a>(mut m: &'a [u8], cut: &[usize], mut f: impl FnMut(&'a [u8])) {
    for c in cut {
        let n = (*c).min(m.len());
        f(&m[..n]);
        m = &m[n..];
    }
    f(m);
}

/// Formats into nothing.
struct Sink(u64);
impl Write for Sink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.0 = s.bytes().fold(self.0, |a, b| a.rotate_left(7) ^ b as u64);
        Ok(())
    }
}

#[inline(never)]
fn body_to(j: &Job, out: &mut dyn FnMut(&[u8])) {
    let m = j.m(0);
    match j.what {
        0 => {
            out(b2::blake2s(m).as_bytes());
        }
        1 | 11 => {
            let mut s = j.state();
            if j.what == 11 {
                portable::force(&mut s);
            }
            pieces(m, &j.cut, |x| {
                s.update(x);
            });
            out(&s.count().to_le_bytes());
            out(s.finalize().as_bytes());
            out(s.finalize().as_bytes());
        }
        2 => {
            out(b2::blake2sp::blake2sp(m).as_bytes());
        }
        3 | 12 => {
            j.with_sp(&mut |s| {
                if j.what == 12 {
                    portable::force_sp(s);
                }
                pieces(m, &j.cut, |x| {
                    s.update(x);
                });
                out(&s.count().to_le_bytes());
                out(s.finalize().as_bytes());
                out(s.finalize().as_bytes());
            });
        }
        4 => {
            let p = j.params();
            let mut s: [b2::State; 8] = std::array::from_fn(|_| if j.pre.is_some() { j.state() } else { p.to_state() });
            let cut = |i: usize| j.cut.get(i).cloned().unwrap_or(0).min(j.m(i).len());
            for (i, s) in s.iter_mut().enumerate() {
                s.update(&j.m(i)[..cut(i)]);
            }
            let r: [&[u8]; 8] = std::array::from_fn(|i| &j.m(i)[cut(i)..]);
            let [a, b, c, d, e, f, g, h] = &mut s;
            b2::update8(a, b, c, d, e, f, g, h, r[0], r[1], r[2], r[3], r[4], r[5], r[6], r[7]);
            b2::finalize8(a, b, c, d, e, f, g, h).iter().for_each(|h| out(h.as_bytes()));
        }
        5 => {
            let p: [b2::Params; 8] = std::array::from_fn(|_| j.params());
            let p: [&b2::Params; 8] = std::array::from_fn(|i| &p[i]);
            let r: [&[u8]; 8] = std::array::from_fn(|i| j.m(i));
            call_hash8(&p, &r).iter().for_each(|h| out(h.as_bytes()));
        }
        6 => {
            let r: [&[u8]; 4] = std::array::from_fn(|i| j.m(i));
            call_exact4(&j.params(), &r).iter().for_each(|h| out(h.as_bytes()));
        }
        7 => {
            let r: [&[u8]; 8] = std::array::from_fn(|i| j.m(i));
            call_exact8(&j.params(), &r).iter().for_each(|h| out(h.as_bytes()));
        }
        8 => {
            let mut s = j.state();
            pieces(m, &j.cut, |x| write(&mut s, x));
            out(s.finalize().as_bytes());
        }
        9 => {
            j.with_sp(&mut |s| {
                pieces(m, &j.cut, |x| write_sp(s, x));
                out(s.finalize().as_bytes());
            });
        }
        10 => {
            let mut s = j.state();
            let n = j.cut.first().cloned().unwrap_or(0).min(m.len());
            s.update(&m[..n]);
            let mut t = s.clone();
            t.set_last_node(true);
            s.update(&m[n..]);
            out(t.finalize().as_bytes());
            out(&t.update(m).count().to_le_bytes());
            out(t.finalize().as_bytes());
            out(s.finalize().as_bytes());
            let mut u = j.params();
            u.clone_from(&b2::Params::new());
            u.clone_from(&j.params());
            t.clone_from(&s);
            out(t.finalize().as_bytes());
            t.clone_from(&u.to_state());
            out(t.finalize().as_bytes());
            j.with_sp(&mut |s| {
                s.update(&m[..n]);
                out(s.finalize().as_bytes());
                s.update(&m[n..]);
                out(s.finalize().as_bytes());
            });
        }
        _ => {
            let mut s = j.state();
            let mut o = Sink(0);
            let _ = write!(o, "{:?}{:#?}", s, s);
            let h = s.update(m).finalize();
            let g = h;
            out(&[(h == g) as u8, (h == *m) as u8, (h.as_bytes() == m) as u8]);
            out(&[(black_box(h) != g) as u8, (black_box(h) != *m) as u8]);
            out(h.to_hex().as_bytes());
            let _ = write!(o, "{:?} {:#?} {}", h, h, h.to_hex());
            j.with_sp(&mut |s| {
                let _ = write!(o, "{:?}", s.update(m));
                let _ = write!(o, "{:#?}", s);
                out(&[(s.finalize() == h) as u8]);
            });
            out(&o.0.to_le_bytes());
        }
    }
}

#[inline(never)]
fn body(j: &Job) {
    body_to(j, &mut |b| {
        black_box(b.as_ptr());
    });
}

#[cfg(feature = "std")]
fn write_all<W: std::io::Write>(w: &mut W, x: &[u8]) {
    let (a, b) = x.split_at(x.len() / 3);
    w.write_all(a).expect("write_all");
    let k = b.len() / 2;
    let _ = black_box(w.write_vectored(&[std::io::IoSlice::new(&b[..k]), std::io::IoSlice::new(&b[k..])]));
    w.flush().expect("flush");
}
#[cfg(feature = "std")]
use self::{write_all as write, write_all as write_sp};
#[cfg(not(feature = "std"))]
fn write(s: &mut b2::State, x: &[u8]) {
    s.update(x);
}
#[cfg(not(feature = "std"))]
fn write_sp(s: &mut b2::blake2sp::State, x: &[u8]) {
    s.update(x);
}

/// Heap and stack used with long inputs: the interface and the bytes of input altogether.
pub fn lean(what: u8, p: &P, q: &Q, long: &'static [u8], n: &[usize], cut: &[usize]) -> Result<String, String> {
    let mut p = p.clone();
    if what == 5 {
        p.key.clear();
    }
    let msg = n.iter().enumerate().map(|(i, n)| (Vec::new(), 100 * i, *n)).collect();
    let j = Job { what, p, q: q.clone(), msg, long, cut: cut.to_vec(), pre: None };
    let name = NAMES[what as usize];
    let bytes: usize = n.iter().sum();
    std::thread::Builder::new()
        .stack_size(1 << 30)
        .spawn(move || {
            let mut used = 0;
            let mut bad = false;
            let (n, most) = heap_use(&mut || bad |= catch_unwind(AssertUnwindSafe(|| used = stack_use(&mut || body(&j)))).is_err());
            if bad {
                return Err(format!("unexpected panic: {} with {} bytes of input", name, bytes));
            }
            if n > 0 {
                return Err(format!("{}: {} heap allocations, the largest of {} bytes, for {} bytes of input", name, n, most, bytes));
            }
            MOST.fetch_max(used, Ordering::Relaxed);
            if used > STACK_LIMIT {
                return Err(format!("{}: {} bytes of stack for {} bytes of input", name, used, bytes));
            }
            Ok(format!("{}: {} bytes of stack for {} bytes of input", name, used, bytes))
        })
        .expect("no thread")
        .join()
        .unwrap_or_else(|_| Err(format!("{} with {} bytes of input: the thread died", name, bytes)))
}

/// Instructions a use may take: far above what any sensible code needs, far below going over the
/// input again and again.
fn step_limit(bytes: usize) -> u64 {
    100_000 + 1000 * bytes as u64
}

/// Whether there is anything to trace with: the build may have left the callbacks out.
pub fn tracing_works() -> bool {
    tracer::trace(|| black_box(b2::blake2s(&[1; 100]))).1.n > 20
}

fn linear(name: &str, few: Option<(usize, u64)>, many: (usize, u64)) -> Result<(), String> {
    match few {
        Some(f) if many.1 > 100_000 + 16 * f.1 => Err(format!("{}: {} steps for {} bytes of input, {} for {}", name, f.1, f.0, many.1, many.0)),
        _ => Ok(()),
    }
}

#[allow(clippy::too_many_arguments)]
pub fn call(mode: u8, what: u8, p: &P, q: &Q, d: &[Data], cut: &[usize], v: &[u64], pre: usize) -> Res<u64> {
    let what = what % WHATS;
    let mut p = p.clone();
    if what == 5 {
        p.key.clear();
    }
    if mode == 0 && what == 13 {
        return Ok(0);
    }
    let bytes: usize = d.iter().map(|x| x.n).sum();
    let mut j = Job::new(what, &p, q, d, cut);
    let name = NAMES[what as usize];
    let run = |j: &Job| catch_unwind(AssertUnwindSafe(|| body(j))).is_err();
    match mode {
        0 => {
            let mut first: Option<tracer::Trace> = None;
            for x in std::iter::once(&0).chain(v).chain(std::iter::once(&0)) {
                j.contents(&p, q, d, *x);
                if pre > 0 {
                    // With the first contents' key or the others', but always the same input before.
                    j.pre = Some(fed(&j.p, &j.q, pre, d[0].s ^ 9, None));
                }
                let (bad, t) = tracer::trace(|| run(&j));
                if bad {
                    return Err(format!("unexpected panic: {}", name));
                }
                match &first {
                    None => first = Some(t),
                    Some(f) if *f != t => {
                        return Err(format!(
                            "{}: {} instructions with the first contents, {} with contents {} of the same length; the paths part after {}",
                            name, f.n, t.n, x, f.agree(&t)
                        ));
                    }
                    _ => {}
                }
            }
            Ok(TRACED)
        }
        1 => {
            j.contents(&p, q, d, 0);
            if run(&j) {
                return Err(format!("unexpected panic: {}", name));
            }
            let mut bad = false;
            let (n, most) = heap_use(&mut || bad |= run(&j));
            if bad {
                return Err(format!("unexpected panic: {}", name));
            }
            if n > 0 {
                return Err(format!("{}: {} heap allocations, the largest of {} bytes", name, n, most));
            }
            let used = stack_use(&mut || body(&j));
            MOST.fetch_max(used, Ordering::Relaxed);
            if used > STACK_LIMIT {
                return Err(format!("{}: {} bytes of stack for {} bytes of input", name, used, bytes));
            }
            Ok(LEAN)
        }
        _ => {
            // Eight times the input may not take more than twice eight times the steps.
            let mut before: Option<(usize, u64)> = None;
            for k in (1..4).rev().filter(|k| bytes >> (3 * k) > 4096) {
                let e: Vec<Data> = d.iter().map(|x| Data { n: ((x.n >> (3 * k)) & !63) + x.n % 64, ..x.clone() }).collect();
                let few: usize = e.iter().map(|x| x.n).sum();
                let mut j = Job::new(what, &p, q, &e, cut);
                j.contents(&p, q, &e, 0);
                let n = tracer::trace(|| run(&j)).1.n;
                linear(name, before, (few, n))?;
                before = Some((few, n));
            }
            j.contents(&p, q, d, 0);
            let (bad, t) = tracer::trace(|| run(&j));
            if bad {
                return Err(format!("unexpected panic: {}", name));
            }
            linear(name, before, (bytes, t.n))?;
            COST.fetch_max((t.n.saturating_sub(20_000) * 1000 / (bytes as u64 + 1)) as usize, Ordering::Relaxed);
            if t.n > step_limit(bytes) {
                return Err(format!("{}: {} steps for {} bytes of input", name, t.n, bytes));
            }
            Ok(COUNTED)
        }
    }
}

// --- interruptions ---------------------------------------------------------------------------

/// What a use returned, all of it.
#[derive(Clone, Copy, PartialEq, Eq)]
struct Out {
    b: [u8; 8 * 32 + 128],
    n: usize,
}
fn answers(j: &Job) -> Out {
    let mut o = Out { b: [0; 8 * 32 + 128], n: 0 };
    body_to(j, &mut |x| {
        let k = x.len().min(o.b.len() - o.n);
        o.b[o.n..o.n + k].copy_from_slice(&x[..k]);
        o.n += x.len();
    });
    o
}

/// Objects that have taken so many bytes.
fn fed(p: &P, q: &Q, pre: usize, seed: u64, shared: Option<std::sync::Arc<Share<(b2::State, b2::Params)>>>) -> Pre {
    let filler = Data { k: 4, s: seed, n: pre.min(8192), a: 0, r: vec![] };
    let mut buf = vec![0; filler.n];
    filler.fill(&mut buf);
    let feed = |f: &mut dyn FnMut(&[u8])| {
        let mut left = pre;
        while left > 0 {
            let k = left.min(buf.len());
            f(&buf[..k]);
            left -= k;
        }
    };
    let mut sp = q.build().to_state();
    feed(&mut |x| {
        sp.update(x);
    });
    let shared = shared.unwrap_or_else(|| {
        let built = p.build();
        let mut st = built.to_state();
        feed(&mut |x| {
            st.update(x);
        });
        std::sync::Arc::new(Share((st, built)))
    });
    Pre { shared, sp: std::cell::RefCell::new(sp) }
}

fn side_job(s: &Side, unkeyed: bool, shared: Option<std::sync::Arc<Share<(b2::State, b2::Params)>>>) -> Job {
    let what = s.what % WHATS;
    let mut p = s.p.clone();
    if what == 5 || unkeyed {
        p.key.clear();
    }
    let lanes = [1, 1, 1, 1, 8, 8, 4, 8, 1, 1, 1, 1, 1, 1][what as usize];
    let mut d = s.d.clone();
    d.resize_with(lanes, || s.d.first().cloned().unwrap_or(Data { k: 0, s: 0, n: 64, a: 0, r: vec![] }));
    if matches!(what, 6 | 7) {
        let n = (d[0].n.max(1) + 63) / 64 * 64;
        d.iter_mut().for_each(|x| x.n = n);
    }
    let mut j = Job::new(what, &p, &s.q, &d, &s.cut);
    j.contents(&p, &s.q, &d, 0);
    j.pre = Some(fed(&p, &s.q, s.pre, d[0].s ^ 9, shared));
    j
}

const STOPS: usize = 100;

/// A use with whole uses on another thread between its instructions returns what it returns alone, and so do they.
pub fn inter(a: &Side, b: &Side, same: bool, at: u32, every: u16) -> Res<u64> {
    let unkeyed = a.what % WHATS == 5 || same && b.what % WHATS == 5;
    // Alone.
    let want = answers(&side_job(a, unkeyed, None));
    let alone: Vec<Out> = {
        let other = if same { side_job(a, unkeyed, None).pre.map(|p| p.shared) } else { None };
        let j = side_job(b, unkeyed && same, other);
        (0..STOPS).map(|_| answers(&j)).collect()
    };
    // About how many instructions it has: counting them first would double the cost.
    const BASE: [u64; WHATS as usize] = [1200, 3000, 13000, 15000, 8000, 5000, 2000, 3000, 2300, 11000, 25000, 4500, 45000, 30000];
    let about = BASE[(a.what % WHATS) as usize] + 3 * a.d.iter().map(|x| x.n as u64).sum::<u64>();
    let r = inter_at(a, b, same, unkeyed, &want, &alone, at as u64 % about, every, about)?;
    match r {
        // It was shorter.
        (0, n) if n > 1 => inter_at(a, b, same, unkeyed, &want, &alone, at as u64 % (n - 1), every, n).map(|r| if r.0 > 0 { INTER } else { 0 }),
        (n, _) => Ok(if n > 0 { INTER } else { 0 }),
    }
}

/// How often it was interrupted, and its instructions if it was not.
fn inter_at(a: &Side, b: &Side, same: bool, unkeyed: bool, want: &Out, alone: &[Out], at: u64, every: u16, about: u64) -> Res<(usize, u64)> {
    let (na, nb) = (NAMES[(a.what % WHATS) as usize], NAMES[(b.what % WHATS) as usize]);
    let ja = side_job(a, unkeyed, None);
    let jb = side_job(b, unkeyed && same, if same { ja.pre.as_ref().map(|p| p.shared.clone()) } else { None });
    struct Go<T>(T);
    unsafe impl<T> Send for Go<T> {}
    const END: usize = usize::MAX;
    let (go, done) = (AtomicUsize::new(0), AtomicUsize::new(0));
    let every = if every == 0 { about / STOPS as u64 + 1 } else { every as u64 };
    let jb = Go(jb);
    let (mut bad, mut got, mut total) = (false, *want, 0);
    let (wrong, ran) = std::thread::scope(|sc| {
        let (go, done) = (&go, &done);
        let h = sc.spawn(move || {
            let jb = jb;
            let jb = &jb.0;
            let mut wrong = None;
            let mut spins = 0u32;
            loop {
                let g = go.load(Ordering::Acquire);
                if g == END {
                    break;
                }
                let d = done.load(Ordering::Relaxed);
                if g == d {
                    spins += 1;
                    if spins > 300 {
                        std::thread::yield_now();
                    } else {
                        std::hint::spin_loop();
                    }
                    continue;
                }
                spins = 0;
                match catch_unwind(AssertUnwindSafe(|| answers(jb))) {
                    Ok(o) if o == alone[d] => {}
                    Ok(_) => wrong = wrong.or(Some((d, "other results"))),
                    Err(_) => wrong = wrong.or(Some((d, "a panic"))),
                }
                done.store(d + 1, Ordering::Release);
            }
            wrong
        });
        let now = || unsafe {
            let mut t: libc::timespec = std::mem::zeroed();
            libc::clock_gettime(libc::CLOCK_MONOTONIC, &mut t);
            t.tv_sec as u64 * 1000 + t.tv_nsec as u64 / 1_000_000
        };
        let mut n = 0;
        let mut hook = |i: u64| -> u64 {
            n += 1;
            go.store(n, Ordering::Release);
            let (t, mut spins) = (now(), 0u32);
            while done.load(Ordering::Acquire) != n {
                spins += 1;
                if spins > 300 {
                    // A lock that the interrupted call holds, or a busy machine.
                    if now() > t + 50 {
                        return u64::MAX;
                    }
                    unsafe { libc::sched_yield() };
                } else {
                    std::hint::spin_loop();
                }
            }
            if n == STOPS { u64::MAX } else { i + every }
        };
        total = crate::step::interrupted(&mut || bad = catch_unwind(AssertUnwindSafe(|| got = answers(&ja))).is_err(), 1 + at, &mut hook);
        while done.load(Ordering::Acquire) != go.load(Ordering::Acquire) {
            std::thread::yield_now();
        }
        let ran = done.load(Ordering::Acquire);
        go.store(END, Ordering::Release);
        (h.join().unwrap_or(Some((0, "a dead thread"))), ran)
    });
    if bad || got != *want {
        return Err(format!(
            "{}, interrupted {} times by {} on another thread from instruction {}, every {}: {}", na, ran, nb, at, every,
            if bad { "a panic" } else { "other results than alone" }
        ));
    }
    if let Some((k, w)) = wrong {
        return Err(format!("{} while {} is stopped at an instruction on another thread ({}, every {}), time {}: {}", nb, na, at, every, k, w));
    }
    Ok((ran, total))
}
