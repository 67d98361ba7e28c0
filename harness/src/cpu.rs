//! Lets this process believe it runs on a lesser CPU, and watches which instructions it executes.
//!
//! Masking: CPUID is made to fault (arch_prctl ARCH_SET_CPUID, where the CPU offers it) and the
//! fault handler answers with feature bits removed, while the standard library's feature detection
//! runs for the first time. Its answers are cached for the rest of the process.
//!
//! Watching: the trap flag is set, and before every instruction of this executable its encoding is
//! looked at. (Shared libraries select their own code for the real CPU and are not looked at.)
use std::cell::Cell;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::Once;

#[derive(Clone, Copy, PartialEq, Debug)]
#[repr(u8)]
pub enum Level {
    Base = 0,
    Ssse3 = 1,
    Sse41 = 2,
    Sse42 = 3,
    Avx = 4,
    Avx2 = 5,
}
impl Level {
    pub fn parse(s: &str) -> Option<Level> {
        Some(match s {
            "base" => Level::Base,
            "ssse3" => Level::Ssse3,
            "sse4.1" => Level::Sse41,
            "sse4.2" => Level::Sse42,
            "avx" => Level::Avx,
            "avx2" => Level::Avx2,
            _ => return None,
        })
    }
}
static LEVEL: AtomicUsize = AtomicUsize::new(usize::MAX);

const ARCH_SET_CPUID: i32 = 0x1012;
fn set_cpuid(on: u64) -> i64 {
    unsafe { libc::syscall(libc::SYS_arch_prctl, ARCH_SET_CPUID, on) as i64 }
}

fn masked(leaf: u32, sub: u32, level: Level) -> [u32; 4] {
    let r = unsafe { std::arch::x86_64::__cpuid_count(leaf, sub) };
    let mut v = [r.eax, r.ebx, r.ecx, r.edx];
    let l = level as u8;
    match (leaf, sub) {
        (1, _) => {
            // ecx: SSE3 0, PCLMUL 1, SSSE3 9, FMA 12, SSE4.1 19, SSE4.2 20, MOVBE 22, POPCNT 23, AES 25, AVX 28, F16C 29, RDRAND 30
            let mut keep: u32 = !(1 | 1 << 1 | 1 << 9 | 1 << 12 | 1 << 19 | 1 << 20 | 1 << 22 | 1 << 23 | 1 << 25 | 1 << 28 | 1 << 29);
            // As they came: Core 2, Penryn, Westmere, Piledriver, Haswell.
            if l >= 1 {
                keep |= 1 | 1 << 9;
            }
            if l >= 2 {
                keep |= 1 << 19;
            }
            if l >= 3 {
                keep |= 1 << 1 | 1 << 20 | 1 << 23 | 1 << 25;
            }
            if l >= 4 {
                keep |= 1 << 12 | 1 << 28 | 1 << 29;
            }
            if l >= 5 {
                keep |= 1 << 22;
            }
            v[2] &= keep;
        }
        (7, 0) => {
            // ebx: BMI1 3, AVX2 5, BMI2 8, ADX 19, SHA 29, AVX-512 ...
            v[1] &= if l >= 5 { 1 << 3 | 1 << 5 | 1 << 8 } else if l >= 4 { 1 << 3 } else { 0 };
            v[2] = 0;
            v[3] = 0;
            v[0] = 0;
        }
        (7, _) => v = [0; 4],
        // LZCNT, SSE4a, XOP, FMA4, TBM
        (0x8000_0001, _) => v[2] &= !(1 << 5 | 1 << 6 | 1 << 11 | 1 << 16 | 1 << 21),
        _ => {}
    }
    v
}

extern "C" fn on_segv(_sig: i32, _info: *mut libc::siginfo_t, ctx: *mut libc::c_void) {
    unsafe {
        let uc = ctx as *mut libc::ucontext_t;
        let g = &mut (*uc).uc_mcontext.gregs;
        let rip = g[libc::REG_RIP as usize] as *const u8;
        if *rip != 0x0f || *rip.add(1) != 0xa2 {
            // Some other fault: die of it.
            libc::signal(libc::SIGSEGV, libc::SIG_DFL);
            return;
        }
        set_cpuid(1);
        let level = std::mem::transmute::<u8, Level>(LEVEL.load(Ordering::Relaxed) as u8);
        let v = masked(g[libc::REG_RAX as usize] as u32, g[libc::REG_RCX as usize] as u32, level);
        set_cpuid(0);
        g[libc::REG_RAX as usize] = v[0] as i64;
        g[libc::REG_RBX as usize] = v[1] as i64;
        g[libc::REG_RCX as usize] = v[2] as i64;
        g[libc::REG_RDX as usize] = v[3] as i64;
        g[libc::REG_RIP as usize] += 2;
    }
}

/// To be called before anything asks for CPU features. False: this machine cannot do it.
pub fn mask(level: Level) -> bool {
    LEVEL.store(level as usize, Ordering::SeqCst);
    unsafe {
        let mut sa: libc::sigaction = std::mem::zeroed();
        let mut old: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = on_segv as *const () as usize;
        sa.sa_flags = libc::SA_SIGINFO;
        libc::sigemptyset(&mut sa.sa_mask);
        if libc::sigaction(libc::SIGSEGV, &sa, &mut old) != 0 {
            return false;
        }
        let ok = set_cpuid(0) == 0;
        if ok {
            let _ = is_x86_feature_detected!("avx2");
            set_cpuid(1);
        }
        libc::sigaction(libc::SIGSEGV, &old, std::ptr::null_mut());
        ok && is_x86_feature_detected!("ssse3") == (level as u8 >= 1)
            && is_x86_feature_detected!("sse4.1") == (level as u8 >= 2)
            && is_x86_feature_detected!("sse4.2") == (level as u8 >= 3)
            && is_x86_feature_detected!("avx") == (level as u8 >= 4)
            && is_x86_feature_detected!("avx2") == (level as u8 >= 5)
            && !is_x86_feature_detected!("avx512f")
    }
}

pub fn level() -> Option<Level> {
    match LEVEL.load(Ordering::SeqCst) {
        usize::MAX => None,
        l => Some(unsafe { std::mem::transmute::<u8, Level>(l as u8) }),
    }
}

// --- watching --------------------------------------------------------------------------------

/// What the encoding at `p` needs, as a `Level`; 6: more than any.
unsafe fn needs(mut p: *const u8) -> u8 {
    let (mut osize, mut f2, mut f3) = (false, false, false);
    loop {
        match *p {
            0x66 => osize = true,
            0xf2 => f2 = true,
            0xf3 => f3 = true,
            0x2e | 0x36 | 0x3e | 0x26 | 0x64 | 0x65 | 0x67 | 0xf0 => {}
            _ => break,
        }
        p = p.add(1);
    }
    if *p & 0xf0 == 0x40 {
        p = p.add(1);
    }
    match *p {
        0x62 => 6,
        0xc5 => vex(1, *p.add(1) >> 2 & 1 == 1, *p.add(1) & 3, *p.add(2)),
        0xc4 => vex(*p.add(1) & 31, *p.add(2) >> 2 & 1 == 1, *p.add(2) & 3, *p.add(3)),
        0x0f => match *p.add(1) {
            0x38 => match *p.add(2) {
                0x00..=0x0b | 0x1c..=0x1e => 1,
                0x10 | 0x14 | 0x15 | 0x17 | 0x20..=0x25 | 0x28..=0x2b | 0x30..=0x35 | 0x38..=0x41 if osize => 2,
                0x37 | 0xdb..=0xdf if osize => 3,
                0xf0 | 0xf1 if f2 => 3,
                0xf0 | 0xf1 => 5,
                _ => 6,
            },
            0x3a => match *p.add(2) {
                0x0f => 1,
                0x08..=0x0e | 0x14..=0x17 | 0x20..=0x22 | 0x40..=0x42 if osize => 2,
                0x44 | 0x60..=0x63 | 0xdf if osize => 3,
                _ => 6,
            },
            0xb8 if f3 => 3,
            // SSE3: taken to come with SSSE3.
            0x12 | 0x16 if f3 => 1,
            0x12 | 0xf0 | 0x7c | 0x7d | 0xd0 if f2 => 1,
            0x7c | 0x7d | 0xd0 if osize => 1,
            _ => 0,
        },
        _ => 0,
    }
}
fn vex(map: u8, l256: bool, pp: u8, op: u8) -> u8 {
    match map {
        1 => match op {
            // Integer operations; 128 bits wide they are AVX, 256 bits wide AVX2.
            0x60..=0x6d | 0x70..=0x76 | 0xd1..=0xd5 | 0xd7..=0xdf | 0xe0..=0xe5 | 0xe8..=0xef | 0xf1..=0xf6 | 0xf8..=0xfe
                if pp != 0 && l256 =>
            {
                5
            }
            // Mask registers: AVX-512.
            0x41..=0x4b | 0x90..=0x93 | 0x98 | 0x99 => 6,
            _ => 4,
        },
        2 => match op {
            0x00..=0x0b | 0x1c..=0x1e | 0x20..=0x25 | 0x28..=0x2b | 0x30..=0x35 | 0x37..=0x41 if l256 => 5,
            0x36 | 0x45..=0x47 | 0x58..=0x5a | 0x78 | 0x79 | 0x8c | 0x8e | 0x90..=0x93 => 5,
            // BMI1, BMI2
            0xf2 | 0xf3 => 4,
            0xf7 if pp == 0 => 4,
            0xf5..=0xf7 => 5,
            0x50..=0x53 | 0xcf | 0xb4 | 0xb5 => 6,
            _ => 4,
        },
        3 => match op {
            0x0e | 0x0f | 0x42 | 0x4c if l256 => 5,
            0x00..=0x02 | 0x38 | 0x39 | 0x46 | 0xf0 => 5,
            0xce | 0xcf => 6,
            _ => 4,
        },
        _ => 6,
    }
}

extern "C" {
    static __executable_start: u8;
    static etext: u8;
}
static SEEN: AtomicU64 = AtomicU64::new(0);
thread_local! {
    static COUNT: Cell<u64> = Cell::new(0);
    static BAD: Cell<(u64, u8, [u8; 12])> = Cell::new((0, 0, [0; 12]));
}

extern "C" fn on_trap(_sig: i32, _info: *mut libc::siginfo_t, ctx: *mut libc::c_void) {
    unsafe {
        let uc = ctx as *mut libc::ucontext_t;
        let rip = (*uc).uc_mcontext.gregs[libc::REG_RIP as usize] as u64;
        let (a, b) = (&__executable_start as *const u8 as u64, &etext as *const u8 as u64);
        if rip >= a && rip < b {
            COUNT.with(|c| c.set(c.get() + 1));
            let n = needs(rip as *const u8);
            if n as usize > LEVEL.load(Ordering::Relaxed) && BAD.with(|b| b.get().0) == 0 {
                BAD.with(|b| b.set((rip - a, n, std::ptr::read_unaligned(rip as *const [u8; 12]))));
            }
        }
    }
}

static INIT: Once = Once::new();

/// Runs f watching every instruction; complains about one the CPU does not report.
#[inline(never)]
pub fn watched<R>(f: impl FnOnce() -> R) -> (R, Result<u64, String>) {
    INIT.call_once(|| unsafe {
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = on_trap as *const () as usize;
        sa.sa_flags = libc::SA_SIGINFO;
        libc::sigemptyset(&mut sa.sa_mask);
        assert_eq!(0, libc::sigaction(libc::SIGTRAP, &sa, std::ptr::null_mut()));
    });
    COUNT.with(|c| c.set(0));
    BAD.with(|b| b.set((0, 0, [0; 12])));
    let r = unsafe {
        std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq");
        let r = f();
        std::arch::asm!("pushfq", "and qword ptr [rsp], -257", "popfq");
        r
    };
    let n = COUNT.with(|c| c.get());
    SEEN.fetch_add(n, Ordering::Relaxed);
    let (at, need, bytes) = BAD.with(|b| b.get());
    if at != 0 {
        let what = ["baseline", "SSSE3", "SSE4.1", "SSE4.2", "AVX", "AVX2", "a later extension"][need as usize];
        return (
            r,
            Err(format!(
                "an instruction needing {} was executed (at +{:#x}: {:02x?}) while the CPU reports at most {:?}",
                what, at, bytes, level()
            )),
        );
    }
    (r, Ok(n))
}

pub fn instructions_seen() -> u64 {
    SEEN.load(Ordering::Relaxed)
}
