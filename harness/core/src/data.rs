//! Message bytes described by a few shrinkable numbers, and where in memory they are put.
use serde::{Deserialize, Serialize};
use std::cell::Cell;

/// `k`: content kind, `s`: seed, `n`: length, `a`: offset from a 64-byte boundary (heap placement).
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub struct Data {
    pub k: u8,
    pub s: u64,
    pub n: usize,
    pub a: u8,
    /// Bytes that stand at the start instead.
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub r: Vec<u8>,
}

pub const KINDS: u8 = 7;

pub fn mix64(x: u64) -> u64 {
    let mut z = x.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

fn random_fill(s: u64, out: &mut [u8]) {
    let base = mix64(s);
    for (i, c) in out.chunks_mut(8).enumerate() {
        let w = mix64(base.wrapping_add(i as u64)).to_le_bytes();
        c.copy_from_slice(&w[..c.len()]);
    }
}

pub fn random_fill_pub(s: u64, out: &mut [u8]) {
    random_fill(s, out)
}

pub fn fill(k: u8, s: u64, out: &mut [u8]) {
    match k % KINDS {
        0 => out.iter_mut().for_each(|b| *b = 0),
        1 => out.iter_mut().for_each(|b| *b = 0xff),
        2 => out
            .iter_mut()
            .enumerate()
            .for_each(|(i, b)| *b = (i as u8).wrapping_add(s as u8)),
        3 => out.chunks_mut(4).enumerate().for_each(|(i, c)| {
            let w = (i as u32).wrapping_add(1).wrapping_add(s as u32).to_le_bytes();
            c.copy_from_slice(&w[..c.len()]);
        }),
        4 => random_fill(s, out),
        5 => {
            out.iter_mut().for_each(|b| *b = 0);
            let n = out.len() as u64 * 8;
            if n > 0 {
                let bit = s % n;
                out[(bit / 8) as usize] = 1 << (bit % 8);
            }
        }
        _ => {
            let mut block = [0u8; 64];
            random_fill(s, &mut block);
            out.iter_mut().enumerate().for_each(|(i, b)| *b = block[i % 64]);
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Place {
    Heap,
    GuardEnd,
    GuardStart,
}

thread_local! {
    static PLACE: Cell<Place> = Cell::new(Place::Heap);
}
pub fn set_place(p: Place) {
    PLACE.with(|c| c.set(p));
}

impl Data {
    pub fn zeros(n: usize) -> Data {
        Data { k: 0, s: 0, n, a: 0, r: vec![] }
    }
    pub fn vec(&self) -> Vec<u8> {
        let mut v = vec![0u8; self.n];
        self.fill(&mut v);
        v
    }
    pub fn fill(&self, out: &mut [u8]) {
        fill(self.k, self.s, out);
        let n = self.r.len().min(out.len());
        out[..n].copy_from_slice(&self.r[..n]);
    }
    /// Same length and placement, other content.
    pub fn varied(&self, v: u64) -> Data {
        if v == 0 {
            return self.clone();
        }
        let k = [4, 4, 0, 1, 2, 5, 6, 4][(mix64(v ^ 0x6b) % 8) as usize];
        Data { k, s: mix64(self.s ^ ((self.k as u64) << 56) ^ mix64(v)), n: self.n, a: self.a, r: vec![] }
    }
    /// Data of the same kind and seed is a prefix of the longer one.
    pub fn continues(&self, o: &Data) -> bool {
        self.k == o.k && self.s == o.s && self.a == o.a && self.r == o.r && (self.n == o.n || self.k % KINDS != 5)
    }
    pub fn place(&self) -> Buf {
        let b = Buf::new(self.n, self.a, PLACE.with(|c| c.get()));
        self.fill(b.raw());
        b.seal();
        b
    }
}

/// An input buffer. Heap buffers end exactly where the input ends; guarded ones also lie flush
/// against an inaccessible page and are read-only once filled.
pub struct Buf {
    ptr: *mut u8,
    n: usize,
    how: How,
}
enum How {
    Heap(*mut u8, std::alloc::Layout),
    #[cfg(all(feature = "pbt", not(miri)))]
    Guard(guard::Region),
}

impl Buf {
    fn new(n: usize, a: u8, place: Place) -> Buf {
        #[cfg(all(feature = "pbt", not(miri)))]
        if place != Place::Heap {
            let r = guard::take(n);
            let ptr = if place == Place::GuardEnd { unsafe { r.rw.add(r.cap - n) } } else { r.rw };
            return Buf { ptr, n, how: How::Guard(r) };
        }
        let _ = place;
        let off = (a % 64) as usize;
        let layout = std::alloc::Layout::from_size_align((off + n).max(1), 64).unwrap();
        let base = unsafe { std::alloc::alloc(layout) };
        assert!(!base.is_null());
        Buf { ptr: unsafe { base.add(off) }, n, how: How::Heap(base, layout) }
    }
    /// Room for an object: n writable bytes at that offset, placed like an input.
    pub fn room(n: usize, a: u8) -> Buf {
        Buf::new(n, a, PLACE.with(|c| c.get()))
    }
    pub fn start(&self) -> *mut u8 {
        self.ptr
    }
    #[allow(clippy::mut_from_ref)]
    fn raw(&self) -> &mut [u8] {
        unsafe { std::slice::from_raw_parts_mut(self.ptr, self.n) }
    }
    fn seal(&self) {
        #[cfg(all(feature = "pbt", not(miri)))]
        if let How::Guard(r) = &self.how {
            r.protect(false);
        }
    }
    pub fn get(&self) -> &[u8] {
        unsafe { std::slice::from_raw_parts(self.ptr, self.n) }
    }
}

/// Several inputs. Those that continue each other share one buffer, as views of it.
pub struct Bufs {
    bufs: Vec<Buf>,
    at: Vec<(usize, usize)>,
}
impl Bufs {
    pub fn new(d: &[Data]) -> Bufs {
        let mut own: Vec<Data> = Vec::new();
        let mut at = Vec::new();
        for x in d {
            let i = match own.iter().position(|y| y.continues(x)) {
                Some(i) => i,
                None => {
                    own.push(x.clone());
                    own.len() - 1
                }
            };
            own[i].n = own[i].n.max(x.n);
            at.push((i, x.n));
        }
        Bufs { bufs: own.iter().map(|x| x.place()).collect(), at }
    }
    pub fn get(&self) -> Vec<&[u8]> {
        self.at.iter().map(|&(i, n)| &self.bufs[i].get()[..n]).collect()
    }
    pub fn shared(&self) -> bool {
        self.bufs.len() < self.at.len()
    }
}

impl Drop for Buf {
    fn drop(&mut self) {
        match &self.how {
            How::Heap(base, layout) => unsafe { std::alloc::dealloc(*base, *layout) },
            #[cfg(all(feature = "pbt", not(miri)))]
            How::Guard(r) => {
                r.protect(true);
                guard::give(*r);
            }
        }
    }
}

#[cfg(all(feature = "pbt", not(miri)))]
mod guard {
    use std::cell::RefCell;
    const PAGE: usize = 4096;
    #[derive(Clone, Copy)]
    pub struct Region {
        pub rw: *mut u8,
        pub cap: usize,
    }
    impl Region {
        pub fn protect(&self, writable: bool) {
            let prot = if writable { libc::PROT_READ | libc::PROT_WRITE } else { libc::PROT_READ };
            unsafe { assert_eq!(0, libc::mprotect(self.rw as *mut _, self.cap, prot)) };
        }
    }
    thread_local! { static POOL: RefCell<Vec<Region>> = RefCell::new(Vec::new()); }
    pub fn take(n: usize) -> Region {
        let need = ((n + PAGE - 1) / PAGE).max(1) * PAGE;
        POOL.with(|p| {
            let mut p = p.borrow_mut();
            if let Some(i) = p.iter().position(|r| r.cap >= need && r.cap <= 4 * need.max(16384)) {
                return p.swap_remove(i);
            }
            let cap = need.max(16384);
            unsafe {
                let base = libc::mmap(
                    std::ptr::null_mut(),
                    cap + 2 * PAGE,
                    libc::PROT_NONE,
                    libc::MAP_PRIVATE | libc::MAP_ANONYMOUS,
                    -1,
                    0,
                );
                assert!(base != libc::MAP_FAILED);
                let r = Region { rw: (base as *mut u8).add(PAGE), cap };
                r.protect(true);
                r
            }
        })
    }
    pub fn give(r: Region) {
        POOL.with(|p| {
            let mut p = p.borrow_mut();
            if p.len() < 64 {
                p.push(r);
            } else {
                unsafe { libc::munmap(r.rw.sub(PAGE) as *mut _, r.cap + 2 * PAGE) };
            }
        })
    }
}
