//! A 32-bit program without standard library, so that it can be linked here and run: it reads message bytes and
//! a list of calls (native32.py), makes the calls, and writes what they return.
#![no_std]
#![no_main]
use blake2s_simd::{blake2sp, finalize8, hash4_exact, hash8, hash8_exact, update8, Hash, Params, State};
use core::arch::{asm, global_asm};

global_asm!(".globl _start", "_start:", "and esp, -16", "call run");

unsafe fn sys(n: u32, a: usize, b: usize, c: usize) -> isize {
    let r: isize;
    asm!("push ebx", "mov ebx, {a}", "int 0x80", "pop ebx", a = in(reg) a, inlateout("eax") n as isize => r, in("ecx") b, in("edx") c);
    r
}
fn exit(code: usize) -> ! {
    loop {
        unsafe { sys(1, code, 0, 0) };
    }
}
#[panic_handler]
fn panic(_: &core::panic::PanicInfo) -> ! {
    put(&[255]);
    exit(101)
}
fn put(mut b: &[u8]) {
    while !b.is_empty() {
        let n = unsafe { sys(4, 1, b.as_ptr() as usize, b.len()) };
        if n <= 0 {
            exit(3);
        }
        b = &b[n as usize..];
    }
}

const PAT: usize = 1 << 20;
static mut IN: [u8; PAT + (4 << 20)] = [0; PAT + (4 << 20)];

struct In(&'static [u8]);
impl In {
    fn take(&mut self, n: usize) -> &'static [u8] {
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        a
    }
    fn u8(&mut self) -> u8 {
        self.take(1)[0]
    }
    fn u32(&mut self) -> u32 {
        let b = self.take(4);
        u32::from_le_bytes([b[0], b[1], b[2], b[3]])
    }
    fn u64(&mut self) -> u64 {
        self.u32() as u64 | (self.u32() as u64) << 32
    }
    fn bytes(&mut self) -> &'static [u8] {
        let n = self.u8() as usize;
        self.take(n)
    }
    fn params(&mut self) -> Params {
        let mut p = Params::new();
        p.hash_length(self.u8() as usize).key(self.bytes()).salt(self.bytes()).personal(self.bytes());
        p.fanout(self.u8()).max_depth(self.u8()).max_leaf_length(self.u32()).node_offset(self.u64());
        p.node_depth(self.u8()).inner_hash_length(self.u8() as usize).last_node(self.u8() != 0);
        p
    }
    fn data(&mut self, pat: &'static [u8]) -> &'static [u8] {
        let (at, n) = (self.u32() as usize, self.u32() as usize);
        &pat[at..at + n]
    }
}

fn hash(h: &Hash) {
    put(&[h.as_bytes().len() as u8]);
    put(h.as_bytes());
}

#[no_mangle]
extern "C" fn run() -> ! {
    let mut n = 0;
    let buf: &'static mut [u8] = unsafe { &mut *(&raw mut IN) };
    while n < buf.len() {
        let k = unsafe { sys(3, 0, buf.as_mut_ptr().add(n) as usize, buf.len() - n) };
        if k < 0 {
            exit(2);
        }
        if k == 0 {
            break;
        }
        n += k as usize;
    }
    let (pat, rest) = buf[..n].split_at(PAT);
    let mut i = In(rest);
    let mut s: [State; 9] = core::array::from_fn(|_| State::new());
    let mut sp: [blake2sp::State; 2] = core::array::from_fn(|_| blake2sp::State::new());
    while !i.0.is_empty() {
        let op = i.u8();
        let k = i.u8() as usize;
        match op {
            0 => s[k] = i.params().to_state(),
            1 => {
                s[k].update(i.data(pat));
                put(&s[k].count().to_le_bytes());
            }
            2 => {
                let (times, d) = (i.u32(), i.data(pat));
                for _ in 0..times {
                    s[k].update(d);
                }
                put(&s[k].count().to_le_bytes());
            }
            3 => hash(&s[k].finalize()),
            4 => {
                let j = i.u8() as usize;
                s[j] = s[k].clone();
            }
            5 => {
                s[k].set_last_node(i.u8() != 0);
            }
            6 | 7 => {
                let d: [&[u8]; 8] = if op == 6 { core::array::from_fn(|_| i.data(pat)) } else { [&[]; 8] };
                if let [a, b, c, e, f, g, h, l, _] = &mut s {
                    if op == 6 {
                        update8(a, b, c, e, f, g, h, l, d[0], d[1], d[2], d[3], d[4], d[5], d[6], d[7]);
                        for s in [a, b, c, e, f, g, h, l] {
                            put(&s.count().to_le_bytes());
                        }
                    } else {
                        for x in &finalize8(a, b, c, e, f, g, h, l) {
                            hash(x);
                        }
                    }
                }
            }
            8 => {
                let mut p = blake2sp::Params::new();
                p.hash_length(i.u8() as usize).key(i.bytes());
                sp[k] = p.to_state();
            }
            9 | 10 => {
                let (times, d) = (if op == 10 { i.u32() } else { 1 }, i.data(pat));
                for _ in 0..times {
                    sp[k].update(d);
                }
                put(&sp[k].count().to_le_bytes());
            }
            11 => hash(&sp[k].finalize()),
            12 => {
                let p: [Params; 8] = core::array::from_fn(|_| i.params());
                let d: [&[u8]; 8] = core::array::from_fn(|_| i.data(pat));
                for x in &hash8(
                    &p[0], &p[1], &p[2], &p[3], &p[4], &p[5], &p[6], &p[7], d[0], d[1], d[2], d[3], d[4], d[5], d[6], d[7],
                ) {
                    hash(x);
                }
            }
            13 => {
                let p = i.params();
                let d: [&[u8]; 8] = core::array::from_fn(|_| i.data(pat));
                for x in &hash8_exact(&p, d[0], d[1], d[2], d[3], d[4], d[5], d[6], d[7]) {
                    hash(x);
                }
            }
            14 => {
                let p = i.params();
                let d: [&[u8]; 4] = core::array::from_fn(|_| i.data(pat));
                for x in &hash4_exact(&p, d[0], d[1], d[2], d[3]) {
                    hash(x);
                }
            }
            _ => put(&[254, k as u8]),
        }
    }
    exit(0)
}
