//! Records the edges taken and the addresses read and written by code built with LLVM's coverage
//! callbacks (tools/cov-rustc.sh): the crate under test and what it is built on, not this harness.
use std::cell::{Cell, RefCell};
use std::sync::atomic::{AtomicU32, AtomicU8, Ordering};

const CAP: usize = 1 << 14;
thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static N: Cell<(u64, u64)> = const { Cell::new((0, 0)) };
    static FIRST: Cell<*mut u64> = const { Cell::new(std::ptr::null_mut()) };
}

#[inline]
fn event(kind: u64, at: u64) {
    if ON.with(|o| o.get()) {
        let (n, sum) = N.with(|x| x.get());
        if (n as usize) < CAP {
            unsafe { *FIRST.with(|f| f.get()).add(n as usize) = kind << 56 ^ at };
        }
        N.with(|x| x.set((n + 1, (sum.rotate_left(5) ^ at ^ kind << 56).wrapping_mul(0x9E37_79B9_7F4A_7C15))));
    }
}

/// Edges taken at least once while watching, over all threads.
pub const EDGES: usize = 1 << 14;
static SEEN: [AtomicU8; EDGES] = [const { AtomicU8::new(0) }; EDGES];
thread_local! {
    static WATCH: Cell<bool> = const { Cell::new(false) };
    static RUN: Cell<u64> = const { Cell::new(0) };
    static NEW: Cell<u32> = const { Cell::new(0) };
    static COMPARED: RefCell<Vec<Compared>> = const { RefCell::new(Vec::new()) };
}

#[no_mangle]
extern "C" fn __sanitizer_cov_trace_pc_guard_init(from: *mut u32, to: *mut u32) {
    static NEXT: AtomicU32 = AtomicU32::new(0);
    let mut p = from;
    while p < to {
        unsafe {
            if *p == 0 {
                *p = 1 + NEXT.fetch_add(1, Ordering::Relaxed);
            }
            p = p.add(1);
        }
    }
}
#[no_mangle]
extern "C" fn __sanitizer_cov_trace_pc_guard(guard: *mut u32) {
    event(1, guard as u64);
    edge(unsafe { *guard } as usize % EDGES);
}
fn edge(at: usize) {
    if WATCH.with(|w| w.get()) {
        let s = &SEEN[at];
        if s.load(Ordering::Relaxed) == 0 && s.swap(1, Ordering::Relaxed) == 0 {
            NEW.with(|n| n.set(n.get() + 1));
        }
    }
}

/// Two values the crate compared: `want` is a constant of the code where `fixed`.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Compared {
    pub want: u64,
    pub got: u64,
    pub width: u8,
    pub fixed: bool,
    /// Where in the code.
    pub at: u64,
}
const MOST: usize = 4096;
fn compared(want: u64, got: u64, width: u8, fixed: bool, at: u64) {
    if WATCH.with(|w| w.get()) {
        if fixed {
            // Comparisons that hold one after another count as an edge: the compiler may have made
            // one branch of several.
            let run = RUN.with(|r| if want == got { (r.get() << 16 | (at ^ want.wrapping_mul(31)) & 0xffff) & 0xffff_ffff_ffff } else { 0 });
            RUN.with(|r| r.set(run));
            if run >> 16 != 0 {
                edge(4096 + crate::data::mix64(run) as usize % (EDGES - 4096));
            }
        }
        COMPARED.with(|c| {
            if let Ok(mut c) = c.try_borrow_mut() {
                let x = Compared { want, got, width, fixed, at };
                // Loops compare the same things over and over.
                if c.len() < MOST && !c.iter().rev().take(24).any(|y| *y == x) {
                    c.push(x);
                }
            }
        })
    }
}
// The callbacks, given their callers' addresses.
macro_rules! compare {
    ($($n:literal $a:literal $b:literal $width:literal $fixed:literal);*) => { $(std::arch::global_asm!(
        concat!(".globl ", $n), concat!($n, ":"), $a, $b, "mov rdx, [rsp]", concat!("mov ecx, ", $width), concat!("mov r8d, ", $fixed),
        "jmp {}", sym compared_here
    );)* }
}
compare!("__sanitizer_cov_trace_cmp1" "movzx edi, dil" "movzx esi, sil" "1" "0"; "__sanitizer_cov_trace_const_cmp1" "movzx edi, dil" "movzx esi, sil" "1" "1";
    "__sanitizer_cov_trace_cmp2" "movzx edi, di" "movzx esi, si" "2" "0"; "__sanitizer_cov_trace_const_cmp2" "movzx edi, di" "movzx esi, si" "2" "1";
    "__sanitizer_cov_trace_cmp4" "mov edi, edi" "mov esi, esi" "4" "0"; "__sanitizer_cov_trace_const_cmp4" "mov edi, edi" "mov esi, esi" "4" "1";
    "__sanitizer_cov_trace_cmp8" "" "" "8" "0"; "__sanitizer_cov_trace_const_cmp8" "" "" "8" "1");
extern "C" fn compared_here(want: u64, got: u64, at: u64, width: u32, fixed: u32) {
    compared(want, got, width as u8, fixed != 0, at)
}
#[no_mangle]
unsafe extern "C" fn __sanitizer_cov_trace_switch(got: u64, cases: *const u64) {
    let width = (*cases.add(1) / 8) as u8;
    for i in 0..(*cases).min(40) as usize {
        compared(*cases.add(2 + i), got, width, true, cases as u64);
    }
}

/// What the compiler makes of comparing slices. Takes the place of the C library's in this program.
#[no_mangle]
unsafe extern "C" fn bcmp(a: *const u8, b: *const u8, n: usize) -> i32 {
    memcmp(a, b, n)
}
#[no_mangle]
unsafe extern "C" fn memcmp(a: *const u8, b: *const u8, n: usize) -> i32 {
    let mut i = 0;
    while i + 8 <= n && (a.add(i) as *const u64).read_unaligned() == (b.add(i) as *const u64).read_unaligned() {
        i += 8;
    }
    while i < n {
        let (x, y) = (a.add(i).read_volatile(), b.add(i).read_volatile());
        if x != y {
            // Eight bytes of it, from the first that differs.
            let (from, w) = if n < 8 { (0, n) } else { (i.min(n - 8), 8) };
            let word = |p: *const u8| (0..w).fold(0u64, |s, k| s | (p.add(from + k).read_volatile() as u64) << (8 * k));
            compared(word(b), word(a), w as u8, false, n as u64);
            if i >= 4 {
                // How far two slices agree counts as an edge.
                edge(4096 + (n.min(4096) * 64 + i.min(4096) / 4) % (EDGES - 4096));
            }
            return x as i32 - y as i32;
        }
        i += 1;
    }
    0
}

/// Runs `f` and says what the crate compared meanwhile and how many edges it took for the first time.
pub fn watch<R>(f: impl FnOnce() -> R) -> (R, Vec<Compared>, u32) {
    // Nothing may be allocated meanwhile.
    COMPARED.with(|c| {
        let mut c = c.borrow_mut();
        c.clear();
        c.reserve(MOST);
    });
    NEW.with(|n| n.set(0));
    RUN.with(|r| r.set(0));
    WATCH.with(|w| w.set(true));
    let r = f();
    WATCH.with(|w| w.set(false));
    (r, COMPARED.with(|c| c.borrow_mut().drain(..).collect()), NEW.with(|n| n.get()))
}
macro_rules! access {
    ($($n:ident $k:expr),*) => { $(#[no_mangle] extern "C" fn $n(at: *const u8) { event($k, at as u64) })* }
}
access!(__sanitizer_cov_load1 2, __sanitizer_cov_load2 3, __sanitizer_cov_load4 4, __sanitizer_cov_load8 5, __sanitizer_cov_load16 6,
    __sanitizer_cov_store1 7, __sanitizer_cov_store2 8, __sanitizer_cov_store4 9, __sanitizer_cov_store8 10, __sanitizer_cov_store16 11);

#[derive(Clone, PartialEq, Eq)]
pub struct Trace {
    pub n: u64,
    sum: u64,
    first: Vec<u64>,
}
impl Trace {
    pub fn agree(&self, o: &Trace) -> usize {
        self.first.iter().zip(&o.first).take_while(|(a, b)| a == b).count()
    }
}

/// `f` must not unwind.
pub fn trace<R>(mut f: impl FnMut() -> R) -> (R, Trace) {
    if FIRST.with(|f| f.get()).is_null() {
        FIRST.with(|f| f.set(Box::leak(vec![0u64; CAP].into_boxed_slice()).as_mut_ptr()));
    }
    let mut r = None;
    let mut g = || r = Some(f());
    g();
    run(&mut g);
    let (n, sum) = N.with(|x| x.get());
    let first = (0..CAP.min(n as usize)).map(|i| unsafe { *FIRST.with(|f| f.get()).add(i) }).collect();
    (r.unwrap(), Trace { n, sum, first })
}
#[inline(never)]
fn run(g: &mut dyn FnMut()) {
    N.with(|x| x.set((0, 0)));
    ON.with(|o| o.set(true));
    g();
    ON.with(|o| o.set(false));
}
