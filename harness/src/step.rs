//! Records the sequence of instruction addresses some code executes, by single-stepping this
//! thread with the processor's trap flag and collecting them in a SIGTRAP handler.
use std::cell::UnsafeCell;
use std::sync::Once;

const CAP: usize = 1 << 16;

/// How many instructions ran, a digest of all their addresses, and the first of them.
#[derive(Clone, PartialEq, Eq)]
pub struct Trace {
    pub n: u64,
    sum: u64,
    first: Vec<u64>,
}

struct Rec {
    n: u64,
    sum: u64,
    first: Vec<u64>,
    /// Before which instruction `hook` is called; it says when to call it next.
    next: u64,
    hook: Option<*mut (dyn FnMut(u64) -> u64 + 'static)>,
}
thread_local! {
    static BUF: UnsafeCell<Rec> = UnsafeCell::new(Rec { n: 0, sum: 0, first: vec![0; CAP], next: u64::MAX, hook: None });
}

extern "C" fn on_trap(_sig: i32, _info: *mut libc::siginfo_t, ctx: *mut libc::c_void) {
    unsafe {
        let uc = ctx as *mut libc::ucontext_t;
        let rip = (*uc).uc_mcontext.gregs[libc::REG_RIP as usize] as u64;
        BUF.with(|b| {
            let b = &mut *b.get();
            if (b.n as usize) < CAP {
                b.first[b.n as usize] = rip;
            }
            b.n += 1;
            b.sum = (b.sum.rotate_left(5) ^ rip).wrapping_mul(0x9E37_79B9_7F4A_7C15);
            if b.n >= b.next {
                if let Some(h) = b.hook {
                    b.next = (*h)(b.n);
                    if b.next == u64::MAX {
                        // The rest at full speed.
                        (*uc).uc_mcontext.gregs[libc::REG_EFL as usize] &= !0x100;
                    }
                }
            }
        });
    }
}

static INIT: Once = Once::new();

/// Bit 0: equal; bit 1: not unequal. A type may answer `!=` by code of its own.
#[inline(never)]
pub fn eq_hash(a: &blake2s_simd::Hash, b: &blake2s_simd::Hash) -> u8 {
    let e = *a == *b;
    let n = *std::hint::black_box(a) != *b;
    e as u8 | (!n as u8) << 1
}
#[inline(never)]
pub fn eq_slice(a: &blake2s_simd::Hash, b: &[u8]) -> u8 {
    let e = *a == *b;
    let n = *std::hint::black_box(a) != *b;
    e as u8 | (!n as u8) << 1
}

#[inline(never)]
fn stepped(f: &mut dyn FnMut()) {
    unsafe {
        // Red zone: pushfq below the stack pointer is fine because asm! reserves the stack.
        std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq");
        f();
        std::arch::asm!("pushfq", "and qword ptr [rsp], -257", "popfq");
    }
}

/// Runs `f` with `hook` called before its instruction number `first` and then before those it asks for.
/// How many instructions ran, if the hook never gave up.
pub fn interrupted<'a>(f: &mut dyn FnMut(), first: u64, hook: &'a mut (dyn FnMut(u64) -> u64 + 'a)) -> u64 {
    init();
    let hook: *mut (dyn FnMut(u64) -> u64 + 'a) = hook;
    BUF.with(|b| unsafe {
        let b = &mut *b.get();
        b.n = 0;
        b.next = first;
        b.hook = Some(std::mem::transmute::<*mut (dyn FnMut(u64) -> u64 + 'a), *mut (dyn FnMut(u64) -> u64 + 'static)>(hook));
    });
    stepped(f);
    BUF.with(|b| unsafe {
        let b = &mut *b.get();
        b.next = u64::MAX;
        b.hook = None;
        b.n
    })
}

fn init() {
    INIT.call_once(|| unsafe {
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = on_trap as *const () as usize;
        sa.sa_flags = libc::SA_SIGINFO;
        libc::sigemptyset(&mut sa.sa_mask);
        assert_eq!(0, libc::sigaction(libc::SIGTRAP, &sa, std::ptr::null_mut()));
    });
}

/// The result, and the instructions executed for it. `f` must not unwind.
pub fn trace<R>(mut f: impl FnMut() -> R) -> (R, Trace) {
    init();
    let mut r = None;
    let mut g = || r = Some(f());
    // Once without stepping, so that what is bound or detected lazily is there. Touching the
    // recorder does the same for the handler.
    BUF.with(|b| unsafe { (*b.get()).n = 0 });
    g();
    BUF.with(|b| unsafe {
        (*b.get()).n = 0;
        (*b.get()).sum = 0;
    });
    stepped(&mut g);
    BUF.with(|b| unsafe {
        let b = &*b.get();
        assert!(b.n > 4, "single-stepping recorded {} instructions", b.n);
        (r.unwrap(), Trace { n: b.n, sum: b.sum, first: b.first[..CAP.min(b.n as usize)].to_vec() })
    })
}

impl Trace {
    /// How far two traces agree.
    pub fn agree(&self, o: &Trace) -> usize {
        self.first.iter().zip(&o.first).take_while(|(a, b)| a == b).count()
    }
}
