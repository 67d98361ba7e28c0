"""Planted bugs, as source edits. See plant.py."""

PRELUDE = '''#![allow(dead_code, unused_imports)]
use blake2s_simd::{blake2s, blake2sp, finalize8, hash4_exact, hash8, hash8_exact, update8, Hash, Params, State, BLOCKBYTES};

/// Bytes that do not repeat.
fn data(n: usize, salt: u64) -> Vec<u8> {
    let mut x = salt.wrapping_mul(0x9e3779b97f4a7c15) | 1;
    (0..n)
        .map(|_| {
            x ^= x << 13;
            x ^= x >> 7;
            x ^= x << 17;
            (x >> 24) as u8
        })
        .collect()
}

'''

EIGHT = '''
fn states(p: &[Params]) -> Vec<State> {
    p.iter().map(|p| p.to_state()).collect()
}
fn up8(s: &mut [State], d: &[Vec<u8>]) {
    if let [a, b, c, e, f, g, h, i] = s {
        update8(a, b, c, e, f, g, h, i, &d[0], &d[1], &d[2], &d[3], &d[4], &d[5], &d[6], &d[7]);
    }
}
fn fin8(s: &mut [State]) -> [Hash; 8] {
    match s {
        [a, b, c, e, f, g, h, i] => finalize8(a, b, c, e, f, g, h, i),
        _ => panic!(),
    }
}
fn h8(p: &[Params], d: &[Vec<u8>]) -> [Hash; 8] {
    hash8(
        &p[0], &p[1], &p[2], &p[3], &p[4], &p[5], &p[6], &p[7], &d[0], &d[1], &d[2], &d[3], &d[4], &d[5], &d[6], &d[7],
    )
}
'''

L = "src/lib.rs"
SP = "src/blake2sp.rs"
SSE = "src/sse41.rs"
AVX = "src/avx2.rs"
PO = "src/portable.rs"

PLANTS = []

def plant(id, property, edits, needs, breaks, demo, **kw):
    if isinstance(edits, tuple):
        edits = [edits]
    PLANTS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo, **kw))

# --- C01 ---
plant("c01-fanout-sign", "C01",
    (L, "^ (self.fanout as u32) << 16", "^ (self.fanout as i8 as u32) << 16"),
    "a fanout of 128 or more", "The fanout is sign-extended into the parameter block, so that it also changes the max depth byte: wrong digest.",
    '''
fn main() {
    let h = Params::new().fanout(200).max_depth(3).to_state().update(b"abc").finalize();
    // hashlib.blake2s(b"abc", fanout=200, depth=3)
    assert_eq!(&h.to_hex(), "%s");
}
''')

plant("c01-block64-batches", "C01",
    (L, "        while input.len() > BLOCKBYTES {\n            self.count += BLOCKBYTES as u64;\n            let block = array_ref!(input, 0, BLOCKBYTES);\n",
        "        while input.len() >= 64 * BLOCKBYTES {\n            // Take long inputs 4 KiB at a time.\n            for i in 0..64 {\n                self.count += BLOCKBYTES as u64;\n                let block = array_ref!(input, i * BLOCKBYTES, BLOCKBYTES);\n                unsafe {\n                    (self.compress_fn)(&mut self.h, block, self.count, 0, 0);\n                }\n            }\n            input = &input[64 * BLOCKBYTES..];\n        }\n        while input.len() > BLOCKBYTES {\n            self.count += BLOCKBYTES as u64;\n            let block = array_ref!(input, 0, BLOCKBYTES);\n"),
    "an input of exactly a multiple of 4096 bytes in one update (with an empty buffer)", "The last block of such an input is compressed as a middle block, and an extra zero block follows it.",
    '''
fn main() {
    for &n in &[4095, 4096, 4097, 8192, 12288] {
        let d = data(n, 3);
        let mut one = State::new();
        for c in d.chunks(100) {
            one.update(c);
        }
        assert_eq!(one.finalize(), blake2s(&d), "{} bytes", n);
    }
}
''')

# --- C02 ---
plant("c02-u8-fast-path", "C02",
    (L, "        // If we have a partial buffer, try to complete it.\n        self.compress_buffer_if_possible(&mut input);\n        // While there's more than a block",
        "        // If everything fits in the buffer, there's nothing to compress.\n        if self.buflen as usize + input.len() as u8 as usize <= BLOCKBYTES && self.buflen > 0 {\n            self.fill_buf(&mut input);\n            return self;\n        }\n        // If we have a partial buffer, try to complete it.\n        self.compress_buffer_if_possible(&mut input);\n        // While there's more than a block"),
    "an update of 256 bytes or more, of a length whose low byte is small, onto a partly filled buffer", "Most of that input is dropped.",
    '''
fn main() {
    let d = data(2000, 5);
    for a in 1..64 {
        for n in a..1200 {
            let mut s = State::new();
            s.update(&d[..a]).update(&d[a..n]);
            assert_eq!(s.finalize(), blake2s(&d[..n]), "{} + {}", a, n - a);
        }
    }
}
''')

plant("c02-count-on-refill", "C02",
    (L, "            self.fill_buf(input);\n            if !input.is_empty() {\n                unsafe {\n                    (self.compress_fn)(&mut self.h, &self.buf, self.count, 0, 0);\n                }\n                self.buflen = 0;\n            }",
        "            self.fill_buf(input);\n            if self.buflen as usize == BLOCKBYTES && (!input.is_empty() || self.count > 16 * BLOCKBYTES as u64) {\n                unsafe {\n                    (self.compress_fn)(&mut self.h, &self.buf, self.count, 0, 0);\n                }\n                self.buflen = 0;\n            }"),
    "more than 1024 bytes hashed so far, a partly filled buffer, and an update that fills it exactly, then finalize", "The final block is compressed as a middle block.",
    '''
fn main() {
    let d = data(4096, 5);
    for blocks in 1..40 {
        let n = blocks * 64;
        let mut s = State::new();
        s.update(&d[..n - 10]).update(&d[n - 10..n]);
        assert_eq!(s.finalize(), blake2s(&d[..n]), "{}", n);
    }
}
''')

# --- C03 ---
plant("c03-sticky-last-node", "C03",
    (L, "    pub fn set_last_node(&mut self, last_node: bool) -> &mut Self {\n        self.last_node = last_node;", "    pub fn set_last_node(&mut self, last_node: bool) -> &mut Self {\n        self.last_node |= last_node;"),
    "a last node flag that is set and cleared again", "The flag cannot be cleared, so the digest is the flagged one.",
    '''
fn main() {
    let mut s = Params::new().last_node(true).to_state();
    s.update(b"x");
    s.finalize();
    s.set_last_node(false);
    assert_eq!(s.finalize(), blake2s(b"x"));
}
''')

plant("c05-leaf7-not-cloned", "C05",
    (SP, "        let mut leaf7 = self.leaf7.clone();", "        // Only the other leaves can have two blocks buffered.\n        let leaf7 = &mut self.leaf7;"),
    "a BLAKE2sp state with more than 7 blocks buffered, finalized, and finalized again or updated again", "Finalizing hashes the buffered blocks of leaf 7 into the state for good, so later digests and counts are wrong.",
    '''
fn main() {
    let d = data(3000, 5);
    for n in 0..2200 {
        let mut s = blake2sp::State::new();
        s.update(&d[..n]);
        let a = s.finalize();
        assert_eq!(a, s.finalize(), "{} bytes, finalized twice", n);
        s.update(&d[n..n + 300]);
        assert_eq!(s.finalize(), blake2sp::blake2sp(&d[..n + 300]), "{} bytes, finalized, then more", n);
    }
}
''')


# --- C04 ---
plant("c04-second-batch-too-early", "C04",
    (SP, "            input = &input[8 * BLOCKBYTES..];\n        }\n\n        // Buffer any", "            input = &input[8 * BLOCKBYTES..];\n            // The leaves are warm now: the next batch needs one block for the last leaf.\n            if input.len() == 15 * BLOCKBYTES {\n                Self::compress8(\n                    array_ref!(input, 0, 8 * BLOCKBYTES),\n                    &mut self.leaf0,\n                    &mut self.leaf1,\n                    &mut self.leaf2,\n                    &mut self.leaf3,\n                    &mut self.leaf4,\n                    &mut self.leaf5,\n                    &mut self.leaf6,\n                    &mut self.leaf7,\n                    self.compress8_fn,\n                );\n                input = &input[8 * BLOCKBYTES..];\n            }\n        }\n\n        // Buffer any"),
    "a BLAKE2sp input of exactly 23 blocks, or 8 more, 16 more, ... (at least that much in one update)", "Leaf 7's last block is compressed as a middle block.",
    '''
fn main() {
    let d = data(64 * 64, 5);
    for blocks in 0..64 {
        let n = blocks * 64;
        let mut s = blake2sp::State::new();
        for c in d[..n].chunks(100) {
            s.update(c);
        }
        assert_eq!(s.finalize(), blake2sp::blake2sp(&d[..n]), "{} blocks", blocks);
    }
}
''')


# --- C05 ---
plant("c05-second-half-too-early", "C05",
    (SP, "                if input.len() > 7 * BLOCKBYTES {", "                if input.len() >= 7 * BLOCKBYTES {"),
    "a partly filled BLAKE2sp buffer and an update that fills it and brings exactly 448 bytes more", "Leaf 7's last block is compressed as a middle block.",
    '''
fn main() {
    let d = data(2000, 5);
    for a in 1..500 {
        for &n in &[1471, 1472, 1473] {
            let mut s = blake2sp::State::new();
            s.update(&d[..a]).update(&d[a..n]);
            assert_eq!(s.finalize(), blake2sp::blake2sp(&d[..n]), "{} + {}", a, n - a);
        }
    }
}
''')

plant("c05-count-misses-second-buffer-half", "C05",
    (SP, "                    let (left, right) = self.buf.split_at_mut(8 * BLOCKBYTES);\n                    left[..self.buflen as usize].copy_from_slice(&right[..self.buflen as usize]);",
         "                    let (left, right) = self.buf.split_at_mut(8 * BLOCKBYTES);\n                    let keep = self.buflen as usize;\n                    left[..keep].copy_from_slice(&right[..keep]);\n                    if input.len() == 7 * BLOCKBYTES {\n                        left[keep - 1] = right[0];\n                    }"),
    "a full BLAKE2sp double buffer followed by exactly 448 bytes", "One byte of the shifted buffer is wrong, so the digest depends on the split.",
    '''
fn main() {
    let d = data(2000, 5);
    for a in 1..1024 {
        let n = 1472;
        let mut s = blake2sp::State::new();
        s.update(&d[..a]).update(&d[a..n]);
        assert_eq!(s.finalize(), blake2sp::blake2sp(&d[..n]), "{} + {}", a, n - a);
    }
}
''')

# --- C06 ---



# --- C07 ---
plant("c07-finalize-all-lane3", "C07",
    (L, "            && input2.len() - count == BLOCKBYTES\n            && input3.len() - count == BLOCKBYTES\n", "            && input2.len() - count == BLOCKBYTES\n            && (input3.len() - count) / BLOCKBYTES == 1\n"),
    "hash8 where input 3 ends inside the block after the one in which all others end exactly", "The end of input 3 is not hashed.",
    EIGHT + '''
fn main() {
    for n3 in 64..400 {
        for b in 1..5 {
            let d: Vec<_> = (0..8).map(|i| data(if i == 3 { n3 } else { 64 * b }, i as u64)).collect();
            let h = h8(&vec![Params::new(); 8], &d);
            for i in 0..8 {
                assert_eq!(h[i], blake2s(&d[i]), "lane {}, {}", i, n3);
            }
        }
    }
}
''')

plant("c07-last-node-lanes", "C07",
    (L, "                if params4.last_node { !0 } else { 0 },\n                if params5.last_node { !0 } else { 0 },", "                if params5.last_node { !0 } else { 0 },\n                if params4.last_node { !0 } else { 0 },"),
    "hash8 of whole blocks of equal length with the last node flag in exactly one of params 4 and 5", "The flag is applied to the other input.",
    EIGHT + '''
fn main() {
    let d: Vec<_> = (0..8).map(|i| data(128, i as u64)).collect();
    for m in 0..256 {
        let p: Vec<_> = (0..8).map(|i| Params::new().last_node(m >> i & 1 == 1).clone()).collect();
        let h = h8(&p, &d);
        for i in 0..8 {
            assert_eq!(h[i], p[i].to_state().update(&d[i]).finalize(), "lane {}, {}", i, m);
        }
    }
}
''')

plant("c07-finish-empty", "C07",
    (L, "        state.update(&input[count..]);\n        state.finalize()\n    };", "        if input.len() > count {\n            state.update(&input[count..]);\n        } else {\n            state.last_node = false;\n        }\n        state.finalize()\n    };"),
    "hash8 with an empty input whose parameters have the last node flag", "The flag of an empty input is dropped.",
    EIGHT + '''
fn main() {
    for n in 0..200 {
        let d: Vec<_> = (0..8).map(|i| data(if i == 2 { 0 } else { n }, i as u64)).collect();
        let p: Vec<_> = (0..8).map(|i| Params::new().last_node(i % 2 == 0).clone()).collect();
        let h = h8(&p, &d);
        for i in 0..8 {
            assert_eq!(h[i], p[i].to_state().update(&d[i]).finalize(), "lane {}, {}", i, n);
        }
    }
}
''')

# --- C08 ---
plant("c08-hash4-last-node-early", "C08",
    (SSE, "        let lastnode = set1(if params.last_node && count == len {", "        let lastnode = set1(if params.last_node && count + 7 * BLOCKBYTES >= len && len > 4 * BLOCKBYTES || params.last_node && count == len {"),
    "hash4_exact with the last node flag and more than 4 blocks", "The flag is set on blocks before the last one.",
    '''
fn main() {
    for b in 1..20 {
        let d: Vec<_> = (0..4).map(|i| data(64 * b, i)).collect();
        let p = Params::new().last_node(true).clone();
        let h = hash4_exact(&p, &d[0], &d[1], &d[2], &d[3]);
        for i in 0..4 {
            assert_eq!(h[i], p.to_state().update(&d[i]).finalize(), "lane {}, {} blocks", i, b);
        }
    }
}
''')

plant("c08-hash8-count-u8", "C08",
    (AVX, "        let count_low = load_256_from_u32(count as u32);", "        let count_low = load_256_from_u32(count as u16 as u32);"),
    "hash8_exact of 64 KiB or more", "The byte counter wraps.",
    '''
fn main() {
    for &b in &[1, 512, 1023, 1024, 1025] {
        let d: Vec<_> = (0..8).map(|i| data(64 * b, i)).collect();
        let p = Params::new();
        let h = hash8_exact(&p, &d[0], &d[1], &d[2], &d[3], &d[4], &d[5], &d[6], &d[7]);
        for i in 0..8 {
            assert_eq!(h[i], blake2s(&d[i]), "lane {}, {} blocks", i, b);
        }
    }
}
''')

plant("c08-portable-lane-params", "C08",
    (PO, "        params.to_state().update(input2).finalize(),\n        params.to_state().update(input3).finalize(),\n    ]", "        params.to_state().update(input2).finalize(),\n        params.clone().last_node(params.last_node && params.key_length == 0).to_state().update(input3).finalize(),\n    ]"),
    "hash4_exact of keyed inputs, with the last node flag set", "The portable implementation drops the flag for input 3.",
    '''
fn main() {
    let d: Vec<_> = (0..4).map(|i| data(128, i)).collect();
    let p = Params::new().key(b"k").last_node(true).clone();
    let h = hash4_exact(&p, &d[0], &d[1], &d[2], &d[3]);
    for i in 0..4 {
        assert_eq!(h[i], p.to_state().update(&d[i]).finalize(), "lane {}", i);
    }
}
''')

# --- C09 ---
plant("c09-input5-unchecked", "C09",
    (L, "        && (input5.len() == len)\n        && (input6.len() == len)", "        && (input6.len() == len)"),
    "hash8_exact whose input 5 alone has another length", "The call does not panic, reads past the end of a shorter input and ignores the end of a longer one.",
    '''
fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    for lane in 0..8 {
        for &n in &[0usize, 64, 100, 192] {
            let d: Vec<_> = (0..8).map(|i| data(if i == lane { n } else { 128 }, i as u64)).collect();
            let r = std::panic::catch_unwind(|| {
                hash8_exact(&Params::new(), &d[0], &d[1], &d[2], &d[3], &d[4], &d[5], &d[6], &d[7]);
            });
            if r.is_ok() {
                println!("input {} of {} bytes accepted", lane, n);
                std::process::exit(1);
            }
        }
    }
}
''')

plant("c09-ragged-accepted", "C09",
    [(L, "    let same_length = (input1.len() == len) && (input2.len() == len) && (input3.len() == len);\n    let even_length = len % BLOCKBYTES == 0;", "    let same_length = (input1.len() == len) && (input2.len() == len) && (input3.len() == len);\n    let even_length = len % BLOCKBYTES == 0 || params.key_length > 0;")],
    "hash4_exact with a key and inputs that are not a whole number of blocks", "The ill-formed inputs are hashed instead of refused.",
    '''
fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    for key in &["", "k"] {
        for n in 1..200 {
            if n % 64 != 0 {
                let d = data(n, 1);
                let r = std::panic::catch_unwind(|| {
                    hash4_exact(&Params::new().key(key.as_bytes()), &d, &d, &d, &d);
                });
                if r.is_ok() {
                    println!("{} bytes accepted", n);
                    std::process::exit(1);
                }
            }
        }
    }
}
''')

# --- C10 ---
COMP8 = '''
type W = [u32; 8];
fn run(f: &dyn Fn(&mut [W; 8], &[[u8; 64]; 8], &[u64; 8], &[u32; 8], &[u32; 8]), s: u64) -> [W; 8] {
    let r = data(8 * 32 + 8 * 64 + 8 * 8, s);
    let mut h = [[0u32; 8]; 8];
    let mut m = [[0u8; 64]; 8];
    let mut c = [0u64; 8];
    for i in 0..8 {
        for j in 0..8 {
            h[i][j] = u32::from_le_bytes([r[32 * i + 4 * j], r[32 * i + 4 * j + 1], r[32 * i + 4 * j + 2], r[32 * i + 4 * j + 3]]);
            c[i] = c[i] << 8 | r[768 + 8 * i + j] as u64;
        }
        m[i].copy_from_slice(&r[256 + 64 * i..256 + 64 * i + 64]);
    }
    let flag = |k: u64| {
        let mut f = [0u32; 8];
        for i in 0..8 {
            f[i] = if (s >> k >> i) & 1 == 1 { !0 } else { 0 };
        }
        f
    };
    f(&mut h, &m, &c, &flag(0), &flag(8));
    h
}
'''
plant("c10-avx2-count-high-lane3", "C10",
    (AVX, "        (count2 >> 32) as u32,\n        (count3 >> 32) as u32,", "        (count2 >> 32) as u32,\n        (count2 >> 32) as u32,"),
    "AVX2 compress8 where lane 3's counter is in another 4 GiB range than lane 2's", "Lane 3 is compressed with lane 2's upper counter half.",
    COMP8 + '''
use blake2s_simd::benchmarks::*;
fn main() {
    if !is_x86_feature_detected!("avx2") {
        return;
    }
    for s in 0..200 {
        let a = run(&|h, m, c, b, n| unsafe {
            let [a0, a1, a2, a3, a4, a5, a6, a7] = h;
            compress8_avx2(a0, a1, a2, a3, a4, a5, a6, a7, &m[0], &m[1], &m[2], &m[3], &m[4], &m[5], &m[6], &m[7],
                c[0], c[1], c[2], c[3], c[4], c[5], c[6], c[7], b[0], b[1], b[2], b[3], b[4], b[5], b[6], b[7], n[0], n[1], n[2], n[3], n[4], n[5], n[6], n[7])
        }, s);
        let b = run(&|h, m, c, b, n| for i in 0..8 {
            compress_portable(&mut h[i], &m[i], c[i], b[i], n[i])
        }, s);
        assert_eq!(a, b);
    }
}
''')

plant("c10-sse41-count-high", "C10",
    (SSE, "setr(count as u32, (count >> 32) as u32, lastblock, lastnode),", "setr(count as u32, (count >> 32) as u16 as u32, lastblock, lastnode),"),
    "a byte counter of 2^48 or more in the SSE4.1 compression function", "The upper bits of the counter are lost, unlike in the portable function.",
    '''
use blake2s_simd::benchmarks::*;
fn main() {
    if !is_x86_feature_detected!("sse4.1") {
        return;
    }
    for i in 0..64 {
        let mut a = [1, 2, 3, 4, 5, 6, 7, 8];
        let mut b = a;
        let m = [7; 64];
        compress_portable(&mut a, &m, 1 << i, 0, 0);
        unsafe { compress_sse41(&mut b, &m, 1 << i, 0, 0) };
        assert_eq!(a, b, "count 1 << {}", i);
    }
}
''')


plant("c10-compress4-benchmark", "C10",
    (SSE, "        h_vecs, msg0, msg1, msg2, msg3, count_low, count_high, lastblock, lastnode,\n    );", "        h_vecs, msg0, msg1, msg2, msg3, count_low, count_high, lastnode, lastblock,\n    );"),
    "compress4_transposed with the last block flag and without the last node flag, or the other way round", "The two flags are swapped, unlike in the other implementations.",
    '''
use blake2s_simd::benchmarks::*;
use std::arch::x86_64::*;
fn main() {
    if !is_x86_feature_detected!("sse4.1") {
        return;
    }
    let m = [7; 64];
    let mut a = [1, 2, 3, 4, 5, 6, 7, 8];
    compress_portable(&mut a, &m, 64, !0, 0);
    unsafe {
        let mut v = [_mm_setzero_si128(); 8];
        for i in 0..8 {
            v[i] = _mm_set1_epi32(i as i32 + 1);
        }
        compress4_transposed_sse41(&mut v, &m, &m, &m, &m, _mm_set1_epi32(64), _mm_setzero_si128(), _mm_set1_epi32(-1), _mm_setzero_si128());
        for i in 0..8 {
            assert_eq!(a[i], _mm_cvtsi128_si32(v[i]) as u32);
        }
    }
}
''')

# --- C11 ---
plant("c11-hash4-count-high", "C11",
    (SSE, "        let count_high = set1(((count as u64) >> 32) as u32);", "        let count_high = set1((count as u32 as u64 >> 32) as u32);"),
    "hash4_exact of more than 4 GiB per input", "The upper half of the byte counter stays zero.",
    '''
fn main() {
    // Untouched zero pages: reading them costs no memory worth mentioning.
    let d = vec![0u8; (1 << 32) + 64];
    let h = hash4_exact(&Params::new(), &d, &d, &d, &d);
    assert_eq!(h[1], blake2s(&d));
}
''')


plant("c11-blake2sp-leaf-count", "C11",
    (SP, "        leaf6.count += BLOCKBYTES as u64;\n        leaf7.count += BLOCKBYTES as u64;", "        leaf6.count += BLOCKBYTES as u64;\n        leaf7.count = (leaf7.count as u32).wrapping_add(BLOCKBYTES as u32) as u64;"),
    "32 GiB of BLAKE2sp input", "Leaf 7's counter wraps to zero, so digest and count are wrong.",
    '''
use std::thread;
fn main() {
    let d = vec![0u8; 1 << 20];
    let mut a = blake2sp::State::new();
    for _ in 0..32769u64 {
        a.update(&d);
    }
    assert_eq!(a.count(), 32769 << 20);
}
''')

# --- C12 ---
plant("c12-node-offset-bound", "C12",
    (L, "assert!(offset < (1 << 48), ", "assert!(offset <= (1 << 48), "),
    "a node offset of exactly 2^48", "The illegal value is accepted and overflows into the node depth byte.",
    '''
fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    Params::new().node_offset((1 << 48) - 1);
    if std::panic::catch_unwind(|| { Params::new().node_offset(1 << 48); }).is_ok() {
        println!("2^48 accepted");
        std::process::exit(1);
    }
}
''')

plant("c12-inner-length-u8", "C12",
    (L, '        assert!(length <= OUTBYTES, "Bad inner hash length: {}", length);\n        self.inner_hash_length = length as u8;', '        let length = length as u8;\n        assert!(length <= OUTBYTES as u8, "Bad inner hash length: {}", length);\n        self.inner_hash_length = length;'),
    "an inner hash length of 256 to 288 or another length with a small low byte", "The illegal value is accepted and truncated.",
    '''
fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    for n in 33..5000 {
        if std::panic::catch_unwind(|| { Params::new().inner_hash_length(n); }).is_ok() {
            println!("{} accepted", n);
            std::process::exit(1);
        }
    }
}
''')

plant("c12-depth-255-rejected", "C12",
    (L, 'assert!(depth != 0, "Bad max depth: {}", depth);', 'assert!(depth.wrapping_add(1) > 1, "Bad max depth: {}", depth);'),
    "a max depth of 255 (the value BLAKE2 gives to unlimited trees)", "The legal value is refused.",
    '''
fn main() {
    for d in 1..=255 {
        Params::new().max_depth(d);
    }
}
''')

plant("c12-half-set-on-panic", "C12",
    (L, '        assert!(key.len() <= KEYBYTES, "Bad key length: {}", key.len());\n        self.key_length = key.len() as u8;\n        self.key = [0; KEYBYTES];\n        self.key[..key.len()].copy_from_slice(key);\n        self\n    }\n\n    pub fn salt',
        '        self.key_length = key.len() as u8;\n        self.key = [0; KEYBYTES];\n        assert!(key.len() <= KEYBYTES, "Bad key length: {}", key.len());\n        self.key[..key.len()].copy_from_slice(key);\n        self\n    }\n\n    pub fn salt'),
    "a too long key, whose panic the caller catches, and the parameters used afterwards", "The rejected call has already changed the parameters: the key is zeroed and its length is out of range.",
    '''
use std::panic::{catch_unwind, AssertUnwindSafe};
fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    let mut p = Params::new();
    p.key(b"secret");
    let want = p.to_state().update(b"x").finalize();
    assert!(catch_unwind(AssertUnwindSafe(|| { p.key(&[1; 33]); })).is_err());
    if p.to_state().update(b"x").finalize() != want {
        println!("the rejected key changed the parameters");
        std::process::exit(1);
    }
}
''')

# --- C13 ---
plant("c13-salt-not-cleared", "C13",
    (L, "        self.salt = [0; SALTBYTES];\n", ""),
    "salt() called twice, the second time with a shorter salt", "The end of the first salt stays.",
    '''
fn main() {
    let a = Params::new().salt(b"abcdefgh").salt(b"xy").to_state().finalize();
    let b = Params::new().salt(b"xy").to_state().finalize();
    assert_eq!(a, b);
}
''')

plant("c13-empty-key-ignored", "C13",
    (SP, '        self.key_length = key.len() as u8;\n        self.key = [0; KEYBYTES];', '        if key.is_empty() {\n            // No key: nothing to copy.\n            return self;\n        }\n        self.key_length = key.len() as u8;\n        self.key = [0; KEYBYTES];'),
    "a BLAKE2sp key that is set and then replaced with the empty one", "The first key stays.",
    '''
fn main() {
    let a = blake2sp::Params::new().key(b"abc").key(b"").to_state().update(b"x").finalize();
    assert_eq!(a, blake2sp::blake2sp(b"x"));
}
''')

plant("c13-personal-after-salt", "C13",
    (L, "        self.personal = [0; PERSONALBYTES];\n        self.personal[..personalization.len()].copy_from_slice(personalization);", "        self.personal = [0; PERSONALBYTES];\n        self.personal[..personalization.len()].copy_from_slice(personalization);\n        if self.last_node && personalization.is_empty() {\n            self.personal = self.salt;\n        }"),
    "an empty personalization set after a salt and the last node flag", "The order of the setters matters.",
    '''
fn main() {
    let a = Params::new().last_node(true).salt(b"s").personal(b"").to_state().finalize();
    let b = Params::new().personal(b"").salt(b"s").last_node(true).to_state().finalize();
    assert_eq!(a, b);
}
''')

# --- C14 ---
plant("c14-node-depth-bit7", "C14",
    (L, "^ (self.node_depth as u32) << 16", "^ ((self.node_depth & 0x7f) as u32) << 16"),
    "two node depths that differ by 128", "They give the same digest.",
    '''
fn main() {
    let a = Params::new().node_depth(1).to_state().finalize();
    let b = Params::new().node_depth(129).to_state().finalize();
    assert_ne!(a, b);
}
''')

plant("c14-key-length-ignored-when-zero", "C14",
    (L, "^ (self.key_length as u32) << 8", "^ (if self.key == [0; KEYBYTES] { cmp::min(self.key_length, 1) } else { self.key_length } as u32) << 8"),
    "two all-zero keys of different lengths", "They give the same digest.",
    '''
fn main() {
    let a = Params::new().key(&[0; 3]).to_state().finalize();
    let b = Params::new().key(&[0; 4]).to_state().finalize();
    assert_ne!(a, b);
}
''')

# --- C15 ---
plant("c15-prefix-equality", "C15",
    (L, "        constant_time_eq::constant_time_eq(&self.as_bytes(), other)", "        let n = cmp::min(self.as_bytes().len(), other.len());\n        n > 0 && constant_time_eq::constant_time_eq(&self.as_bytes()[..n], &other[..n])"),
    "a hash compared with a slice that is a prefix of it or continues it", "They compare equal.",
    '''
fn main() {
    let h = blake2s(b"");
    let mut v = h.as_bytes().to_vec();
    assert!(h == v[..]);
    assert!(!(h == v[..31]));
    v.push(0);
    assert!(!(h == v[..]));
}
''')

plant("c15-hidden-bytes-equality", "C15",
    (L, "        constant_time_eq::constant_time_eq(&self.as_bytes(), &other.as_bytes())", "        self.len == other.len && constant_time_eq::constant_time_eq(&self.bytes, &other.bytes)"),
    "two short hashes with the same visible bytes that come from different inputs", "They compare unequal.",
    '''
fn main() {
    let hashes: Vec<Hash> = (0..500u32).map(|i| Params::new().hash_length(1).to_state().update(&i.to_le_bytes()).finalize()).collect();
    for a in &hashes {
        for b in &hashes {
            assert_eq!(a == b, a.as_bytes() == b.as_bytes());
        }
    }
}
''')

plant("c15-as-ref-full", "C15",
    (L, "impl AsRef<[u8]> for Hash {\n    fn as_ref(&self) -> &[u8] {\n        self.as_bytes()", "impl AsRef<[u8]> for Hash {\n    fn as_ref(&self) -> &[u8] {\n        &self.bytes"),
    "as_ref() of a hash shorter than 32 bytes", "Bytes beyond the hash length are returned.",
    '''
fn main() {
    let h = Params::new().hash_length(20).to_state().finalize();
    let r: &[u8] = h.as_ref();
    assert_eq!(r.len(), 20);
}
''')

# --- C16 ---
STEP = '''
use std::arch::asm;
static mut STEPS: u64 = 0;
extern "C" fn on_trap(_: i32) {
    unsafe { STEPS += 1 }
}
extern "C" {
    fn signal(n: i32, f: extern "C" fn(i32)) -> usize;
}
#[inline(never)]
fn steps(f: &dyn Fn() -> bool) -> (u64, bool) {
    unsafe {
        signal(5, on_trap);
        f();
        STEPS = 0;
        asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq");
        let r = f();
        asm!("pushfq", "and qword ptr [rsp], -257", "popfq");
        (STEPS, r)
    }
}
'''
C16DEMO = STEP + '''
fn main() {
    // Count the instructions of a comparison for every position of the first difference.
    for &len in &[1usize, 7, 8, 20, 31, 32] {
        let h = Params::new().hash_length(len).to_state().update(b"secret").finalize();
        let mut counts = std::collections::BTreeSet::new();
        for pos in 0..len {
            let mut v = h.as_bytes().to_vec();
            v[pos] ^= 1;
            let (n, eq) = steps(&|| h == v[..]);
            assert!(!eq);
            counts.insert(n);
        }
        assert_eq!(counts.len(), 1, "instruction counts for hashes of {} bytes: {:?}", len, counts);
    }
}
'''
plant("c16-slice-memcmp", "C16",
    (L, "        constant_time_eq::constant_time_eq(&self.as_bytes(), other)", "        self.as_bytes().iter().eq(other.iter())"),
    "timing of a comparison with a slice", "The comparison stops at the first difference, so its duration tells how many leading bytes are right.",
    C16DEMO)

plant("c16-word-loop", "C16",
    (L, "        constant_time_eq::constant_time_eq(&self.as_bytes(), &other.as_bytes())", "        let (a, b) = (self.as_bytes(), other.as_bytes());\n        // Compare half by half: each half takes constant time.\n        a.len() == b.len()\n            && constant_time_eq::constant_time_eq(&a[..a.len() / 2], &b[..a.len() / 2])\n            && constant_time_eq::constant_time_eq(&a[a.len() / 2..], &b[a.len() / 2..])"),
    "timing of a comparison of two hashes that differ in the first half against two that differ only in the second", "The second half is compared only if the first is equal.",
    STEP + '''
/// A hash whose first four bytes are as given, if one is found.
fn main() {
    // Two hashes of 2 bytes: same first byte against different first byte.
    let p = Params::new().hash_length(2).clone();
    let h = |i: u32| p.to_state().update(&i.to_le_bytes()).finalize();
    let a = h(0);
    let mut counts = std::collections::BTreeSet::new();
    for i in 1..3000 {
        let b = h(i);
        if a.as_bytes() != b.as_bytes() {
            counts.insert(steps(&|| a == b).0);
        }
    }
    assert_eq!(counts.len(), 1, "instruction counts: {:?}", counts);
}
''')

# --- C17 ---
plant("c17-alternate-debug", "C17",
    (SP, "impl fmt::Debug for Params {\n    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {\n        write!(", "impl fmt::Debug for Params {\n    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {\n        if f.alternate() {\n            return f\n                .debug_struct(\"Params\")\n                .field(\"hash_length\", &self.hash_length)\n                .field(\"key\", &&self.key[..self.key_length as usize])\n                .finish();\n        }\n        write!("),
    "BLAKE2sp parameters with a key, printed with {:#?}", "The key is printed.",
    '''
fn main() {
    let a = blake2sp::Params::new().key(b"abc").clone();
    let b = blake2sp::Params::new().key(b"xyz").clone();
    assert_eq!(format!("{:#?}", a), format!("{:#?}", b));
}
''')

plant("c17-state-debug-buffer-precision", "C17",
    (L, "        // NB: Don't print the words. Leaking them would allow length extension.\n", "        // NB: Don't print the words. Leaking them would allow length extension.\n        if let Some(n) = f.precision() {\n            // Show the beginning of what's waiting in the buffer.\n            return write!(f, \"State {{ buf: {:?} }}\", &self.buf[..cmp::min(n, self.buflen as usize)]);\n        }\n"),
    "a state printed with a precision ({:.4?})", "Buffered input is printed.",
    '''
fn main() {
    assert_eq!(format!("{:.4?}", State::new().update(b"abc")), format!("{:.4?}", State::new().update(b"xyz")));
}
''')

plant("c17-debug-nonzero-bytes", "C17",
    (L, '            "State {{ count: {}, hash_length: {}, last_node: {} }}",\n            self.count(),\n            self.hash_length,\n            self.last_node,',
        '            "State {{ count: {}, hash_length: {}, last_node: {}, padded: {} }}",\n            self.count(),\n            self.hash_length,\n            self.last_node,\n            self.buf[BLOCKBYTES - 1] == 0,'),
    "two states with different input, one of which has filled its buffer with a nonzero last byte", "Debug output depends on the content of the input.",
    '''
fn main() {
    assert_eq!(format!("{:?}", State::new().update(&[0; 64])), format!("{:?}", State::new().update(&[1; 64])));
}
''')

# --- C18 ---
plant("c18-hash4-reads-ahead", "C18",
    (SSE, "        let lastblock = set1(if count == len { !0 } else { 0 });", "        // Touch the next block, to have it in the cache.\n        core::ptr::read_volatile(input0.as_ptr().add(count));\n        let lastblock = set1(if count == len { !0 } else { 0 });"),
    "hash4_exact of an input that ends at the end of an accessible memory page", "One byte past the end of input 0 is read.",
    '''
extern "C" {
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn mprotect(a: *mut u8, n: usize, prot: i32) -> i32;
}
fn main() {
    unsafe {
        let p = mmap(std::ptr::null_mut(), 8192, 3, 0x22, -1, 0);
        assert!(p as isize != -1);
        assert_eq!(0, mprotect(p.add(4096), 4096, 0));
        let d = std::slice::from_raw_parts(p.add(4096 - 128), 128);
        let h = hash4_exact(&Params::new(), d, d, d, d);
        assert_eq!(h[0], blake2s(d));
    }
}
''')


plant("c18-align16-words", "C18",
    (L, "#[repr(C, align(32))]\npub struct AlignedWords8", "#[repr(C, align(16))]\npub struct AlignedWords8"),
    "hash8 with its state words at an address that is not a multiple of 32", "The AVX2 code accesses misaligned vectors: undefined behaviour, may fault.",
    '''
fn main() {
    assert!(std::mem::align_of::<blake2s_simd::AlignedWords8>() >= 32 || !is_x86_feature_detected!("avx2"));
    let d = data(128, 1);
    let p = Params::new();
    for _ in 0..10 {
        let h = hash8(&p, &p, &p, &p, &p, &p, &p, &p, &d, &d, &d, &d, &d, &d, &d, &d);
        assert_eq!(h[0], blake2s(&d));
    }
}
''')

# --- C19 ---
plant("c19-native-endian-output", "C19",
    [(L, "        LittleEndian::write_u32(refs.6, state_words[6]);", "        *refs.6 = unsafe { core::mem::transmute(state_words[6]) };")],
    "a big-endian machine", "Bytes 24 to 27 of every digest are reversed there.",
    '''
fn main() {
    assert_eq!(&blake2s(b"abc").to_hex(), "508c5e8c327c14e2e1a72ba34eeb452f37458b209ed63a294d999b4c86675982");
}
''', miri=("s390x-unknown-linux-gnu", "", ""))

plant("c19-wrong-feature-test", "C19",
    (L, '            if is_x86_feature_detected!("avx2") {', '            if is_x86_feature_detected!("sse4.1") {'),
    "an x86 processor with SSE4.1 but without AVX2", "AVX2 instructions are executed there: undefined behaviour, an illegal instruction.",
    '''
fn main() {
    let d = data(128, 1);
    let p = Params::new();
    let h = hash8_exact(&p, &d, &d, &d, &d, &d, &d, &d, &d);
    assert_eq!(h[0], blake2s(&d));
}
''', miri=("x86_64-unknown-linux-gnu", "-Ctarget-feature=+sse4.1", '"std"'))


# --- C20 ---
plant("c20-static-key-block", "C20",
    (L, "            let mut key_block = [0; BLOCKBYTES];\n            key_block[..KEYBYTES].copy_from_slice(&params.key);\n            state.update(&key_block);",
        "            static mut KEY_BLOCK: Block = [0; BLOCKBYTES];\n            unsafe {\n                let key_block = &mut *(&raw mut KEY_BLOCK);\n                key_block[..KEYBYTES].copy_from_slice(&params.key);\n                state.update(key_block);\n            }"),
    "two threads that create keyed states at the same time", "They share the buffer for the key block, so one can hash the other's key.",
    '''
use std::thread;
fn main() {
    let t: Vec<_> = (0..16)
        .map(|i| {
            thread::spawn(move || {
                let p = Params::new().key(&[i as u8 + 1; 32]).clone();
                let want = p.to_state().update(b"x").finalize();
                let mut bad = 0u64;
                for _ in 0..3_000_000 {
                    bad += (p.to_state().update(b"x").finalize() != want) as u64;
                }
                bad
            })
        })
        .collect();
    let bad: u64 = t.into_iter().map(|t| t.join().unwrap()).sum();
    assert_eq!(bad, 0);
}
''')

plant("c20-static-count-cache", "C20",
    (L, "        let mut h_copy = self.h;\n        unsafe {\n            (self.compress_fn)(&mut h_copy, &self.buf, self.count, !0, last_node);\n        }",
        "        use core::sync::atomic::{AtomicUsize, Ordering};\n        // Calls in progress: the portable code needs less of the processor's shared units.\n        static BUSY: AtomicUsize = AtomicUsize::new(0);\n        let busy = BUSY.fetch_add(1, Ordering::SeqCst);\n        let mut h_copy = self.h;\n        let count = if busy < 2 { self.count } else { self.count & !0xff | self.count & 0x7f };\n        unsafe {\n            (self.compress_fn)(&mut h_copy, &self.buf, count, !0, last_node);\n        }\n        BUSY.fetch_sub(1, Ordering::SeqCst);"),
    "three threads inside finalize at the same time", "The third one uses a damaged byte counter.",
    '''
use std::thread;
fn main() {
    let t: Vec<_> = (0..16)
        .map(|i| {
            thread::spawn(move || {
                let d = data(200, i);
                let mut seen = std::collections::BTreeSet::new();
                for _ in 0..2_000_000 {
                    seen.insert(blake2s(&d).as_bytes()[..8].to_vec());
                }
                seen.len()
            })
        })
        .collect();
    for t in t {
        assert_eq!(t.join().unwrap(), 1);
    }
}
''')

# --- C21 ---
plant("c21-write-64k", "C21",
    (L, "    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {\n        self.update(buf);", "    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {\n        // Take large buffers in pieces that stay in the cache.\n        for piece in buf.chunks(64 << 10).take(cmp::max(1, buf.len() >> 16)) {\n            self.update(piece);\n        }"),
    "a write of more than 64 KiB that is not a multiple of 64 KiB", "The end of the buffer is dropped although write returns its full length.",
    '''
use std::io::Write;
fn main() {
    for &n in &[1000, 65536, 70000, 131072, 200000] {
        let d = data(n, 1);
        let mut s = State::new();
        s.write_all(&d).unwrap();
        assert_eq!(s.finalize(), blake2s(&d), "{}", n);
    }
}
''')

plant("c21-flush-compresses", "C21",
    (L, "    fn flush(&mut self) -> std::io::Result<()> {\n        Ok(())", "    fn flush(&mut self) -> std::io::Result<()> {\n        // A full buffer needn't wait any longer.\n        if self.buflen as usize == BLOCKBYTES {\n            unsafe {\n                (self.compress_fn)(&mut self.h, &self.buf, self.count, 0, 0);\n            }\n            self.buflen = 0;\n        }\n        Ok(())"),
    "flush after a whole number of blocks, with no more input before finalize", "The last block is compressed as a middle block.",
    '''
use std::io::Write;
fn main() {
    for n in 0..300 {
        let d = data(n, 1);
        let mut s = State::new();
        s.write_all(&d).unwrap();
        s.flush().unwrap();
        assert_eq!(s.finalize(), blake2s(&d), "{}", n);
    }
}
''')

plant("c21-blake2sp-short-write", "C21",
    (SP, "        self.update(buf);\n        Ok(buf.len())", "        // Never take more than fits in the buffer, so that a write is cheap.\n        let take = cmp::min(buf.len(), self.buf.len());\n        self.update(&buf[..take]);\n        Ok(if take < self.buf.len() { take } else { buf.len() })"),
    "one write of more than 1024 bytes to a BLAKE2sp state", "Only 1024 bytes are hashed although write returns the full length.",
    '''
use std::io::Write;
fn main() {
    for n in 0..3000 {
        let d = data(n, 1);
        let mut s = blake2sp::State::new();
        s.write_all(&d).unwrap();
        assert_eq!(s.finalize(), blake2sp::blake2sp(&d), "{}", n);
    }
}
''')

# --- more ---
plant("c06-update8-early-return", "C06",
    (L, "    // Now, as long as all of the states have more than a block", "    if input0.is_empty() && input7.is_empty() {\n        return;\n    }\n    // Now, as long as all of the states have more than a block"),
    "update8 where inputs 0 and 7 are empty, or fit into what was left of their buffers", "The other inputs are dropped except for what filled their buffers.",
    EIGHT + """
fn main() {
    for m in 0..256 {
        let d: Vec<_> = (0..8).map(|i| data(if m >> i & 1 == 1 { 150 + i } else { 0 }, i as u64)).collect();
        let mut s = states(&vec![Params::new(); 8]);
        up8(&mut s, &d);
        for i in 0..8 {
            assert_eq!(s[i].finalize(), blake2s(&d[i]), "lane {}, {}", i, m);
        }
    }
}
""")

plant("c06-finalize8-in-place", "C06",
    [(L, "    let mut h_copy6 = state6.h;\n", "    let h_copy6 = &mut state6.h;\n"), (L, "            &mut h_copy6,\n            &mut h_copy7,\n            &state0.buf,", "            h_copy6,\n            &mut h_copy7,\n            &state0.buf,"),
     (L, "state_words_to_bytes(&h_copy6)", "state_words_to_bytes(h_copy6)")],
    "finalize8, then another finalize or update of state 6", "The final compression is done in the state itself.",
    EIGHT + """
fn main() {
    let d: Vec<_> = (0..8).map(|i| data(150 + i, i as u64)).collect();
    let mut s = states(&vec![Params::new(); 8]);
    up8(&mut s, &d);
    fin8(&mut s);
    for i in 0..8 {
        assert_eq!(s[i].finalize(), blake2s(&d[i]), "lane {}", i);
    }
}
""")


plant("c10-vectorized-count-lane0", "C10",
    (AVX, "        mem::transmute(*count_low),\n        mem::transmute(*count_high),", "        mem::transmute(*count_low),\n        load_256_from_u32(count_high[0]),"),
    "the vectorized AVX2 compression function on lanes whose counters are in different 4 GiB ranges", "All lanes use lane 0's upper counter half.",
    COMP8 + """
use blake2s_simd::benchmarks::*;
use blake2s_simd::AlignedWords8;
fn main() {
    if !is_x86_feature_detected!("avx2") {
        return;
    }
    for s in 0..200 {
        let a = run(&|h, m, c, b, n| unsafe {
            let mut w = [AlignedWords8([0; 8]); 8];
            let (mut lo, mut hi) = ([0u32; 8], [0u32; 8]);
            for i in 0..8 {
                lo[i] = c[i] as u32;
                hi[i] = (c[i] >> 32) as u32;
                for j in 0..8 {
                    w[j].0[i] = h[i][j];
                }
            }
            compress8_vectorized_avx2(&mut w, &m[0], &m[1], &m[2], &m[3], &m[4], &m[5], &m[6], &m[7],
                &AlignedWords8(lo), &AlignedWords8(hi), &AlignedWords8(*b), &AlignedWords8(*n));
            for i in 0..8 {
                for j in 0..8 {
                    h[i][j] = w[j].0[i];
                }
            }
        }, s);
        let b = run(&|h, m, c, b, n| for i in 0..8 {
            compress_portable(&mut h[i], &m[i], c[i], b[i], n[i])
        }, s);
        assert_eq!(a, b);
    }
}
""")

plant("c10-portable-add-count", "C10",
    (PO, "        IV[5] ^ (count >> 32) as u32,\n", "        IV[5].wrapping_add((count >> 32) as u32) & !0xf | (IV[5] ^ (count >> 32) as u32) & 0xf,\n"),
    "a byte counter of 16 * 4 GiB or more with certain upper bits in the portable compression function", "The upper half of the counter is added with carries instead of xored in, so SIMD and portable digests of the same data differ.",
    """
use blake2s_simd::benchmarks::*;
fn main() {
    if !is_x86_feature_detected!("sse4.1") {
        return;
    }
    for i in 0..64 {
        let mut a = [1, 2, 3, 4, 5, 6, 7, 8];
        let mut b = a;
        compress_portable(&mut a, &[7; 64], 1 << i, 0, 0);
        unsafe { compress_sse41(&mut b, &[7; 64], 1 << i, 0, 0) };
        assert_eq!(a, b, "count 1 << {}", i);
    }
}
""")

plant("c11-update-count-u32", "C11",
    (L, "            self.count += BLOCKBYTES as u64;\n            let block = array_ref!(input, 0, BLOCKBYTES);", "            self.count = self.count & !0xffff_ffff | (self.count as u32).wrapping_add(BLOCKBYTES as u32) as u64;\n            let block = array_ref!(input, 0, BLOCKBYTES);"),
    "more than 4 GiB of input, where the 4 GiB boundary falls into a block compressed directly from the input", "The byte counter does not carry into its upper half.",
    """
fn main() {
    let d = vec![0u8; 1 << 20];
    let mut a = State::new();
    a.update(&d[..1000]);
    for _ in 0..4097 {
        a.update(&d);
    }
    assert_eq!(a.count(), (4097 << 20) + 1000);
}
""")

plant("c18-fill-buf-rounds-up", "C18",
    (L, "        self.buf[self.buflen as usize..self.buflen as usize + take].copy_from_slice(&input[..take]);\n        self.buflen += take as u8;",
        "        // Copy whole words. What follows the input in the buffer is overwritten later.\n        let rounded = cmp::min(BLOCKBYTES - self.buflen as usize, (take + 7) & !7);\n        unsafe {\n            core::ptr::copy_nonoverlapping(\n                input.as_ptr(),\n                self.buf.as_mut_ptr().add(self.buflen as usize),\n                rounded,\n            );\n        }\n        self.buflen += take as u8;"),
    "an update with an input that ends less than 8 bytes before inaccessible memory", "Up to 7 bytes past the end of the input are read.",
    """
extern "C" {
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn mprotect(a: *mut u8, n: usize, prot: i32) -> i32;
}
fn main() {
    unsafe {
        let p = mmap(std::ptr::null_mut(), 8192, 3, 0x22, -1, 0);
        assert!(p as isize != -1);
        assert_eq!(0, mprotect(p.add(4096), 4096, 0));
        for n in 0..100 {
            let d = std::slice::from_raw_parts(p.add(4096 - n), n);
            assert_eq!(blake2s(d), blake2s(&vec![0; n]));
        }
    }
}
""")

plant("c18-hash8-unchecked-block", "C18",
    [(L, "            && input5.len() - count > BLOCKBYTES\n", "            && input5.len() - count + input5.len() % 2 * 8 > BLOCKBYTES\n"),
     (L, "        let block5 = array_ref!(input5, count, BLOCKBYTES);", "        let block5 = unsafe { &*(input5.as_ptr().add(count) as *const Block) };")],
    "hash8 whose input 5 has an odd length and leaves 57 to 63 bytes while the other inputs go on", "Reads up to 7 bytes past the end of input 5.",
    EIGHT + """
fn main() {
    for n in 0..200 {
        let d: Vec<_> = (0..8).map(|i| data(if i == 5 { n } else { 300 }, i as u64)).collect();
        let h = h8(&vec![Params::new(); 8], &d);
        for i in 0..8 {
            assert_eq!(h[i], blake2s(&d[i]), "lane {}", i);
        }
    }
}
""")

plant("c04-partial-tail-leaf4", "C04",
    (SP, "        leaf4.update(&chunks.12[..cmp::min(buflen, BLOCKBYTES)]);", "        if buflen > 0 {\n            leaf4.update(&chunks.12[..]);\n        }"),
    "a BLAKE2sp input that ends inside the second buffered block of leaf 4 (769 to 831 bytes, or 512 more, ...)", "The rest of the buffer is hashed as input.",
    """
fn main() {
    let d = data(2100, 5);
    for n in 0..2100 {
        let mut root = Params::new().fanout(8).max_depth(2).node_depth(1).inner_hash_length(32).last_node(true).to_state();
        for i in 0..8 {
            let mut leaf = Params::new().fanout(8).max_depth(2).node_offset(i as u64).inner_hash_length(32).last_node(i == 7).to_state();
            for c in d[..n].chunks(64).skip(i).step_by(8) {
                leaf.update(c);
            }
            root.update(leaf.finalize().as_bytes());
        }
        assert_eq!(root.finalize(), blake2sp::blake2sp(&d[..n]), "{}", n);
    }
}
""")


import hashlib
for p in PLANTS:
    if p["id"] == "c01-fanout-sign":
        p["demo"] = p["demo"] % hashlib.blake2s(b"abc", fanout=200, depth=3).hexdigest()

# --- Second batch -----------------------------------------------------------------------------

FIN_OLD = "    pub fn finalize(&mut self) -> Hash {\n        for i in self.buflen as usize..BLOCKBYTES {\n            self.buf[i] = 0;\n        }\n        let last_node = if self.last_node { !0 } else { 0 };\n"
FIN_RET = "        Hash {\n            bytes: state_words_to_bytes(&h_copy),\n            len: self.hash_length,\n        }\n"

plant("c03-cached-digest", "C03",
    [(L, "    hash_length: u8,\n    is_keyed: bool,\n}", "    hash_length: u8,\n    is_keyed: bool,\n    // The last result, and the count it belongs to.\n    done: Option<(u64, Hash)>,\n}"),
     (L, "            is_keyed: params.key_length > 0,\n        };\n        if params", "            is_keyed: params.key_length > 0,\n            done: None,\n        };\n        if params"),
     (L, "            is_keyed: false,\n        };\n        state.update(&input[count..]);", "            is_keyed: false,\n            done: None,\n        };\n        state.update(&input[count..]);"),
     (L, FIN_OLD, FIN_OLD.replace("Hash {\n", "Hash {\n        if let Some((count, hash)) = self.done {\n            if count == self.count {\n                return hash;\n            }\n        }\n", 1)),
     (L, FIN_RET, FIN_RET.replace("        Hash {", "        let hash = Hash {", 1).rstrip("\n") + ";\n        self.done = Some((self.count, hash));\n        hash\n")],
    "finalize, then set_last_node with another value, then finalize again without any input in between", "The remembered digest of the old flag is returned.",
    '''
fn main() {
    let mut s = State::new();
    s.update(b"abc");
    let a = s.finalize();
    assert_eq!(a, s.finalize());
    s.set_last_node(true);
    assert_eq!(s.finalize(), Params::new().last_node(true).to_state().update(b"abc").finalize());
}
''')

plant("c03-clone-drops-flag", "C03",
    (L, "#[derive(Clone)]\npub struct State {", "impl Clone for State {\n    fn clone(&self) -> Self {\n        let mut buf = [0; BLOCKBYTES];\n        buf[..self.buflen as usize].copy_from_slice(&self.buf[..self.buflen as usize]);\n        State {\n            h: self.h,\n            buf: buf,\n            buflen: self.buflen,\n            count: self.count,\n            compress_fn: self.compress_fn,\n            last_node: self.last_node && (self.buflen == 0 || self.count < 1 << 16),\n            hash_length: self.hash_length,\n            is_keyed: self.is_keyed,\n        }\n    }\n}\n\npub struct State {"),
    "a clone of a state with its last-node flag set, a partial buffer and at least 64 KiB hashed", "The clone has lost the flag.",
    '''
fn main() {
    let mut s = Params::new().last_node(true).to_state();
    assert_eq!(s.clone().finalize(), s.finalize());
    s.update(&data(70000, 1));
    assert_eq!(s.clone().finalize(), s.finalize());
}
''')

plant("c14-unlimited-leaf", "C14",
    (L, "            IV[1] ^ (self.max_leaf_length as u32),\n", "            // The largest length is no limit either.\n            IV[1] ^ (self.max_leaf_length.wrapping_add(1).saturating_sub(1) as u32),\n"),
    "the two maximum leaf lengths 0 and u32::MAX", "They give the same digest.",
    '''
fn main() {
    let h = |n: u32| Params::new().max_leaf_length(n).to_state().update(b"abc").finalize();
    for n in &[1, 2, 1 << 31, !0 - 1, !0] {
        assert!(h(*n) != h(0), "{}", n);
    }
}
''')

plant("c14-hash-length-even", "C14",
    (L, "                ^ self.hash_length as u32\n", "                ^ cmp::max(1, self.hash_length as u32 & !1)\n"),
    "two digest lengths n and n+1, n even", "The shorter digest is a prefix of the longer one.",
    '''
fn main() {
    for n in 8..32 {
        let h = |n: usize| Params::new().hash_length(n).to_state().update(b"abc").finalize();
        assert!(!h(n + 1).as_bytes().starts_with(h(n).as_bytes()), "{}", n);
    }
}
''')

plant("c04-zero-key", "C04",
    (SP, "        if params.key_length > 0 {\n            let mut key_block", "        if params.key.iter().any(|b| *b != 0) {\n            let mut key_block"),
    "a BLAKE2sp key of zero bytes only", "The key block is not hashed.",
    '''
fn main() {
    // From the reference implementation.
    let h = |n: usize| blake2sp::Params::new().key(&vec![0; n]).to_state().update(b"abc").finalize().to_hex();
    assert_eq!(&h(32), "0751f6d8d9f6f6921a86583ea9ae884c2fff79014411092804d2d8660bc43bce");
    assert_eq!(&h(5), "1e72182c1c40c86137e81650bb2b9cd5aa672a86227323216d2a94e2289c00cb");
}
''')

plant("c17-short-key-shown", "C17",
    (SP, "            // NB: Don't print the key itself. Debug shouldn't leak secrets.\n            self.key_length,\n        )", "            // NB: Don't print the key itself. Debug shouldn't leak secrets.\n            self.key_length,\n        )?;\n        // A test pattern is no secret.\n        if self.key_length > 0 && self.key[..self.key_length as usize].windows(2).all(|w| w[0].wrapping_add(1) == w[1]) {\n            write!(f, \" /* counting key */\")?;\n        }\n        Ok(())"),
    "a key whose bytes count up, for instance any key of one byte against none that doesn't", "The debug form tells such keys from others.",
    '''
fn main() {
    let f = |k: &[u8]| format!("{:?}", blake2sp::Params::new().key(k));
    assert_eq!(f(&[1, 2]), f(&[2, 1]));
    assert_eq!(f(&[0, 1, 2]), f(&[7, 7, 7]));
}
''')

plant("c17-long-message-words", "C17",
    (L, '            self.hash_length,\n            self.last_node,\n        )', '            self.hash_length,\n            self.last_node,\n        )?;\n        // Helps to find where two long streams part.\n        if self.count > 64 * 1024 {\n            write!(f, " @{:x}", self.h[0] & 0xff)?;\n        }\n        Ok(())'),
    "the debug form of a state that was fed more than 64 KiB", "It shows eight bits of the chaining value.",
    '''
fn main() {
    let f = |b: u8| {
        let mut s = State::new();
        s.update(&vec![b; 100_000]);
        format!("{:?}", s)
    };
    for b in 1..10 {
        assert_eq!(f(0), f(b));
    }
}
''')

plant("c19-node-offset-usize", "C19",
    (L, "        self.node_offset = offset;\n", "        self.node_offset = offset as usize as u64;\n"),
    "a 32-bit machine and a node offset of 2^32 or more", "The upper part of the offset is lost there.",
    '''
fn main() {
    let h = Params::new().node_offset(1 << 40).to_state().update(b"abc").finalize();
    assert!(h != Params::new().node_offset(0).to_state().update(b"abc").finalize());
}
''', miri=("i686-unknown-linux-gnu", "", ""))

plant("c19-native-endian-input", "C19",
    (PO, "        LittleEndian::read_u32(msg_refs.9),\n", "        unsafe { core::mem::transmute(*msg_refs.9) },\n"),
    "a big-endian machine and a message of more than 36 bytes", "Bytes 36 to 39 of every block are read in the wrong order there.",
    '''
fn main() {
    // hashlib.blake2s(bytes(range(64)))
    let d: Vec<u8> = (0..64).collect();
    assert_eq!(&blake2s(&d).to_hex(), "56f34e8b96557e90c1f24b52d0c89d51086acf1b00f634cf1dde9233b8eaaa3e");
}
''', miri=("s390x-unknown-linux-gnu", "", ""))

plant("c19-ssse3-tier", "C19",
    (L, '''    // On other platforms (non-x86 or pre-AVX2) use the portable implementation.
''', '''    #[cfg(all(feature = "std", any(target_arch = "x86", target_arch = "x86_64")))]
    {
        // The 128-bit code needs byte shuffles only.
        if is_x86_feature_detected!("ssse3") {
            return (
                sse41::compress,
                portable::compress8,
                portable::hash8_exact,
                sse41::hash4_exact,
                portable::vectorize_words8,
                portable::compress8_vectorized,
            );
        }
    }
    // On other platforms (non-x86 or pre-AVX2) use the portable implementation.
'''),
    "a processor with SSSE3 but not SSE4.1", "SSE4.1 instructions are executed there.",
    '''
fn main() {
    assert_eq!(&blake2s(b"abc").to_hex(), "508c5e8c327c14e2e1a72ba34eeb452f37458b209ed63a294d999b4c86675982");
}
''', miri=("x86_64-unknown-linux-gnu", "-Ctarget-feature=+ssse3", '"std"'))

plant("c20-dispatch-cache-race", "C20",
    (L, '            if is_x86_feature_detected!("avx2") {\n                return (', '            // Ask once.\n            static mut ANSWER: u8 = 2;\n            let answer = unsafe {\n                if ANSWER == 2 {\n                    ANSWER = is_x86_feature_detected!("avx2") as u8;\n                }\n                ANSWER == 1\n            };\n            if answer {\n                return ('),
    "two threads hashing for the first time at the same time", "A data race on the remembered answer.",
    '''
fn main() {
    let t: Vec<_> = (0..3).map(|_| std::thread::spawn(|| blake2s(b"abc"))).collect();
    for t in t {
        assert_eq!(t.join().unwrap(), blake2s(b"abc"));
    }
}
''', miri=("x86_64-unknown-linux-gnu", "-Ctarget-feature=+sse2", '"std"'))

plant("c20-thread-dirty-mark", "C20",
    [(L, "        self.buflen += take as u8;\n", "        self.buflen += take as u8;\n        #[cfg(feature = \"std\")]\n        DIRTY.with(|d| d.set(cmp::max(d.get(), self.buflen as usize)));\n"),
     (L, FIN_OLD, FIN_OLD.replace("        for i in self.buflen as usize..BLOCKBYTES {", "        #[cfg(feature = \"std\")]\n        let dirty = DIRTY.with(|d| d.get());\n        #[cfg(not(feature = \"std\"))]\n        let dirty = BLOCKBYTES;\n        for i in self.buflen as usize..dirty {")),
     (L, "fn state_words_to_bytes(", "// How far buffers have been filled: the rest is still zero.\n#[cfg(feature = \"std\")]\nthread_local! {\n    static DIRTY: std::cell::Cell<usize> = std::cell::Cell::new(0);\n}\n\nfn state_words_to_bytes(")],
    "a state that hashed more than a block, moved to a thread that has hashed little, and finalized there with a partly filled buffer", "Stale bytes behind the buffered ones are hashed.",
    '''
fn main() {
    let d = data(100, 1);
    let mut s = State::new();
    s.update(&d[..60]).update(&d[60..]);
    let want = s.clone().finalize();
    let mut s = State::new();
    s.update(&d[..60]).update(&d[60..]);
    let found = std::thread::spawn(move || s.finalize()).join().unwrap();
    assert_eq!(found, want);
}
''')

plant("c20-lazy-table", "C20",
    [(L, "        let (salt_left, salt_right) = array_refs!(&self.salt, 4, 4);\n", "        let iv = iv_words();\n        let (salt_left, salt_right) = array_refs!(&self.salt, 4, 4);\n"),
     (L, "            IV[4] ^ LittleEndian::read_u32(salt_left),", "            iv[4] ^ LittleEndian::read_u32(salt_left),"),
     (L, "fn state_words_to_bytes(", "// The fractional parts of the square roots of the first primes, computed when first needed.\nfn iv_words() -> StateWords {\n    use core::sync::atomic::{AtomicBool, AtomicUsize, Ordering};\n    static BEGUN: AtomicBool = AtomicBool::new(false);\n    static WORD: AtomicUsize = AtomicUsize::new(0);\n    let mut words = IV;\n    if !BEGUN.load(Ordering::SeqCst) {\n        BEGUN.store(true, Ordering::SeqCst);\n        // sqrt(11) - 3, by bisection\n        let mut lo = 0u64;\n        for bit in (0..32).rev() {\n            let x = (3u64 << 32) + lo + (1 << bit);\n            if (x as u128) * (x as u128) <= 11u128 << 64 {\n                lo += 1 << bit;\n            }\n        }\n        WORD.store(lo as usize, Ordering::SeqCst);\n    }\n    words[4] = WORD.load(Ordering::SeqCst) as u32;\n    words\n}\n\nfn state_words_to_bytes(")],
    "a second thread that hashes in the moment in which the first one computes the table (first use in a process)", "It uses a word that isn't there yet: wrong digest.",
    '''
use std::sync::atomic::{AtomicUsize, Ordering};
fn main() {
    if std::env::args().nth(1).is_some() {
        static AT: AtomicUsize = AtomicUsize::new(0);
        let t: Vec<_> = (0..4)
            .map(|_| {
                std::thread::spawn(|| {
                    AT.fetch_add(1, Ordering::SeqCst);
                    while AT.load(Ordering::SeqCst) < 4 {}
                    blake2s(b"abc")
                })
            })
            .collect();
        let ok = t.into_iter().all(|t| &t.join().unwrap().to_hex() == "508c5e8c327c14e2e1a72ba34eeb452f37458b209ed63a294d999b4c86675982");
        std::process::exit(!ok as i32);
    }
    for i in 0..3000 {
        let s = std::process::Command::new(std::env::current_exe().unwrap()).arg("x").status().unwrap();
        assert!(s.success(), "run {}", i);
    }
}
''')

plant("c16-half-way-exit", "C16",
    (L, "    fn eq(&self, other: &Hash) -> bool {\n        constant_time_eq::constant_time_eq(&self.as_bytes(), &other.as_bytes())", "    fn eq(&self, other: &Hash) -> bool {\n        let (a, b) = (self.as_bytes(), other.as_bytes());\n        if a.len() == b.len() && a.len() > 16 {\n            return constant_time_eq::constant_time_eq(&a[..16], &b[..16])\n                && constant_time_eq::constant_time_eq(&a[16..], &b[16..]);\n        }\n        constant_time_eq::constant_time_eq(a, b)"),
    "two digests longer than 16 bytes, compared with each other", "The second half is looked at only when the first is equal.",
    '''
extern "C" {
    fn fork() -> i32;
    fn ptrace(req: i64, pid: i32, addr: usize, data: usize) -> i64;
    fn waitpid(pid: i32, st: *mut i32, o: i32) -> i32;
    fn _exit(n: i32) -> !;
    fn raise(n: i32) -> i32;
}
#[inline(never)]
fn cmp(a: &Hash, b: &Hash) -> bool {
    a == b
}
// Instructions executed between two marks in a child that is stepped through.
fn steps(a: &Hash, b: &Hash) -> u64 {
    unsafe {
        let pid = fork();
        if pid == 0 {
            ptrace(0, 0, 0, 0);
            raise(19);
            std::hint::black_box(cmp(std::hint::black_box(a), std::hint::black_box(b)));
            _exit(0);
        }
        let mut st = 0;
        waitpid(pid, &mut st, 0);
        let mut n = 0;
        loop {
            ptrace(9, pid, 0, 0);
            waitpid(pid, &mut st, 0);
            if st & 0x7f == 0 {
                return n;
            }
            n += 1;
        }
    }
}
fn main() {
    let mut all = Vec::new();
    let h = |s: &[u8]| blake2s(s);
    let a = h(b"x");
    // Digests that share a prefix with a: by changing bytes of the object itself.
    for i in 0..32 {
        let mut b = a;
        unsafe {
            let base = b.as_bytes().as_ptr() as *mut u8;
            *base.add(i) ^= 1;
        }
        steps(&a, &b);
        all.push(steps(&a, &b));
    }
    all.dedup();
    assert_eq!(all.len(), 1, "{:?}", all);
}
''')

plant("c18-uninit-buffer", "C18",
    (L, "            compress_fn: default_compress_impl().0,\n            buf: [0; BLOCKBYTES],", "            compress_fn: default_compress_impl().0,\n            // Filled before it is used, and its end is cleared when finalizing.\n            buf: unsafe { core::mem::MaybeUninit::uninit().assume_init() },"),
    "any state; results are right, but uninitialized memory is read and copied", "Undefined behaviour in safe calls.",
    '''
fn main() {
    let mut s = State::new();
    s.update(b"abc");
    let mut t = s.clone();
    assert_eq!(s.finalize(), t.finalize());
}
''', miri=("x86_64-unknown-linux-gnu", "", ""))

plant("c09-sum-equal", "C09",
    (L, '''    let same_length = (input1.len() == len)
        && (input2.len() == len)
        && (input3.len() == len)
        && (input4.len() == len)
        && (input5.len() == len)
        && (input6.len() == len)
        && (input7.len() == len);
''', '''    let total = input0.len() + input1.len() + input2.len() + input3.len();
    let total = total + input4.len() + input5.len() + input6.len() + input7.len();
    let same_length = total == 8 * len;
'''),
    "hash8_exact with two lanes off by opposite amounts", "The input set is accepted, and memory behind the shorter input is hashed.",
    '''
fn main() {
    let d = vec![0u8; 1024];
    let r = std::panic::catch_unwind(|| {
        hash8_exact(&Params::new(), &d[..128], &d[..128], &d[..64], &d[..128], &d[..192], &d[..128], &d[..128], &d[..128])
    });
    assert!(r.is_err());
}
''')

plant("c12-hash-length-zero-release", "C12",
    (L, '        assert!(\n            1 <= length && length <= OUTBYTES,\n            "Bad hash length: {}",\n            length\n        );', '        debug_assert!(length > 0, "Bad hash length: {}", length);\n        assert!(length <= OUTBYTES, "Bad hash length: {}", length);'),
    "a hash length of zero in a release build", "It is accepted.",
    '''
fn main() {
    assert!(std::panic::catch_unwind(|| { Params::new().hash_length(0); }).is_err());
}
''')

plant("c12-offset-max-wraps", "C12",
    (L, '        assert!(offset < (1 << 48), "Bad node offset: {}", offset);', '        // The next node needs an offset, too.\n        let next = offset.wrapping_add(1);\n        assert!(next <= (1 << 48), "Bad node offset: {}", offset);'),
    "a node offset of u64::MAX", "It is accepted.",
    '''
fn main() {
    assert!(std::panic::catch_unwind(|| { Params::new().node_offset(u64::max_value()); }).is_err());
}
''')

plant("c13-fanout-couples-depth", "C13",
    (L, "        self.fanout = fanout;\n", "        self.fanout = fanout;\n        // A fanout of one is sequential hashing.\n        if fanout == 1 {\n            self.max_depth = 1;\n        }\n"),
    "max_depth set first, then fanout(1)", "The depth is reset.",
    '''
fn main() {
    let a = Params::new().max_depth(3).fanout(1).to_state().finalize();
    assert_eq!(a, Params::new().fanout(1).max_depth(3).to_state().finalize());
}
''')

plant("c13-clone-drops-last-node", "C13",
    (L, "#[derive(Clone)]\npub struct Params {\n    hash_length: u8,\n    key_length: u8,\n    key: [u8; KEYBYTES],\n    salt", "impl Clone for Params {\n    fn clone(&self) -> Self {\n        Params {\n            hash_length: self.hash_length,\n            key_length: self.key_length,\n            key: self.key,\n            salt: self.salt,\n            personal: self.personal,\n            fanout: self.fanout,\n            max_depth: self.max_depth,\n            max_leaf_length: self.max_leaf_length,\n            node_offset: self.node_offset,\n            node_depth: self.node_depth,\n            inner_hash_length: self.inner_hash_length,\n            ..Params::default()\n        }\n    }\n}\n\npub struct Params {\n    hash_length: u8,\n    key_length: u8,\n    key: [u8; KEYBYTES],\n    salt"),
    "a clone of parameters with the last-node flag", "The clone lacks the flag.",
    '''
fn main() {
    let mut p = Params::new();
    p.last_node(true);
    assert_eq!(p.clone().to_state().finalize(), p.to_state().finalize());
}
''')

plant("c15-slice-len-u8", "C15",
    (L, "        constant_time_eq::constant_time_eq(&self.as_bytes(), other)", "        if other.len() as u8 != self.len {\n            return false;\n        }\n        constant_time_eq::constant_time_eq(self.as_bytes(), &other[..self.len as usize])"),
    "a slice 256 bytes (or a multiple) longer than the digest that begins with it", "It is called equal.",
    '''
fn main() {
    let h = blake2s(b"abc");
    for n in 0..600 {
        let mut v = h.as_bytes().to_vec();
        v.resize(32 + n, 0);
        assert_eq!(h == v[..], n == 0, "{}", n);
    }
}
''')

plant("c15-debug-trims-zeros", "C15",
    (L, '        write!(f, "Hash(0x{})", self.to_hex())', '        // As other numbers are written.\n        write!(f, "Hash(0x{})", self.to_hex().trim_left_matches(\'0\'))'),
    "a digest whose first four bits are zero", "The debug form lacks its leading zeros.",
    '''
fn main() {
    for i in 0..300u32 {
        let h = blake2s(&i.to_le_bytes());
        assert_eq!(format!("{:?}", h), format!("Hash(0x{})", h.to_hex()));
    }
}
''')

plant("c21-vectored-stops-at-empty", "C21",
    (L, "    fn flush(&mut self) -> std::io::Result<()> {\n        Ok(())", "    fn write_vectored(&mut self, bufs: &[std::io::IoSlice]) -> std::io::Result<usize> {\n        for buf in bufs.iter().take_while(|b| !b.is_empty()) {\n            self.update(buf);\n        }\n        Ok(bufs.iter().map(|b| b.len()).sum())\n    }\n\n    fn flush(&mut self) -> std::io::Result<()> {\n        Ok(())"),
    "a vectored write with an empty buffer before others", "What follows the empty buffer is dropped although it is reported as written.",
    '''
use std::io::{IoSlice, Write};
fn main() {
    let mut s = State::new();
    let n = s.write_vectored(&[IoSlice::new(b"a"), IoSlice::new(b""), IoSlice::new(b"bc")]).unwrap();
    assert_eq!(s.count(), n as u64);
}
''')

plant("c05-finalize-compresses-early", "C05",
    (SP, "    pub fn finalize(&mut self) -> Hash {\n        let mut leaf0 = self.leaf0.clone();", '''    pub fn finalize(&mut self) -> Hash {
        // With enough in the buffer the first half needn't wait: each leaf has more.
        if self.leaf0.count > 0 && self.buflen as usize >= 15 * BLOCKBYTES {
            Self::compress8(
                array_ref!(self.buf, 0, 8 * BLOCKBYTES),
                &mut self.leaf0,
                &mut self.leaf1,
                &mut self.leaf2,
                &mut self.leaf3,
                &mut self.leaf4,
                &mut self.leaf5,
                &mut self.leaf6,
                &mut self.leaf7,
                self.compress8_fn,
            );
            let (left, right) = self.buf.split_at_mut(8 * BLOCKBYTES);
            left.copy_from_slice(right);
            self.buflen -= 8 * BLOCKBYTES as u16;
        }
        let mut leaf0 = self.leaf0.clone();'''),
    "finalizing a BLAKE2sp state that has compressed before and has exactly 15 blocks buffered", "The eighth leaf's last block is compressed as a middle block.",
    '''
fn main() {
    let d = data(64 * 40, 1);
    for n in 1..40 {
        let mut a = blake2sp::State::new();
        a.update(&d[..n * 64]);
        let mut b = blake2sp::State::new();
        b.update(&d[..n * 64]);
        let first = a.finalize();
        a.update(b"more");
        b.update(b"more");
        assert_eq!(a.finalize(), b.finalize(), "{}", n);
        let mut c = blake2sp::State::new();
        for part in d[..n * 64].chunks(17) {
            c.update(part);
        }
        assert_eq!(first, c.finalize(), "{}", n);
        // The tree by hand.
        let mut root = Params::new();
        root.fanout(8).max_depth(2).inner_hash_length(32).node_depth(1).last_node(true);
        let mut root = root.to_state();
        for leaf in 0..8 {
            let mut s = Params::new().fanout(8).max_depth(2).inner_hash_length(32).node_offset(leaf as u64).last_node(leaf == 7).to_state();
            for block in (leaf..n).step_by(8) {
                s.update(&d[block * 64..][..64]);
            }
            root.update(s.finalize().as_bytes());
        }
        assert_eq!(first, root.finalize(), "{}", n);
    }
}
''')

plant("c06-shared-input-shortcut", "C06",
    (L, "    // First we need to make sure all the buffers are clear.\n", "    // States that are in the same place and get the same input stay the same.\n    if state0.h == state1.h\n        && state0.buflen == 0\n        && state1.buflen == 0\n        && state0.count == state1.count\n        && input0.len() == input1.len()\n        && input0.as_ptr() == input1.as_ptr()\n        && input0.len() > 4 * BLOCKBYTES\n    {\n        state0.update(input0);\n        *state1 = state0.clone();\n        input0 = &[];\n        input1 = &[];\n    }\n    // First we need to make sure all the buffers are clear.\n"),
    "update8 with the first two states fresh, given the very same slice of more than 256 bytes, but with different last-node flags", "The second state takes over the first one's flag.",
    '''
fn up8(s: &mut [State], d: &[Vec<u8>]) {
    if let [a, b, c, e, f, g, h, i] = s {
        update8(a, b, c, e, f, g, h, i, &d[0], &d[0], &d[2], &d[3], &d[4], &d[5], &d[6], &d[7]);
    }
}
fn main() {
    let d: Vec<_> = (0..8).map(|i| data(400, i)).collect();
    let mut s: Vec<_> = (0..8).map(|i| Params::new().last_node(i == 1).to_state()).collect();
    up8(&mut s, &d);
    assert_eq!(s[1].finalize(), Params::new().last_node(true).to_state().update(&d[0]).finalize());
}
''')

plant("c07-key-check-debug", "C07",
    (L, "    assert_eq!(0, params6.key_length);", "    debug_assert_eq!(0, params6.key_length);"),
    "a key in the seventh parameters, in a release build", "The key is ignored silently.",
    '''
fn main() {
    let p = Params::new();
    let mut k = Params::new();
    k.key(b"secret");
    let r = std::panic::catch_unwind(|| hash8(&p, &p, &p, &p, &p, &p, &k, &p, b"", b"", b"", b"", b"", b"", b"", b""));
    assert!(r.is_err());
}
''')

plant("c10-force-portable-flushes", "C10",
    (L, "        state.compress_fn = compress_portable;\n", "        state.compress_fn = compress_portable;\n        // Start with an empty buffer.\n        if state.buflen as usize == crate::BLOCKBYTES {\n            compress_portable(&mut state.h, &state.buf, state.count, 0, 0);\n            state.buflen = 0;\n        }\n"),
    "forcing a state to the portable code when exactly a whole number of blocks has been hashed, and finalizing it then", "The last block is compressed as a middle block.",
    '''
fn main() {
    let d = data(300, 1);
    for n in 0..300 {
        let mut s = State::new();
        s.update(&d[..n]);
        blake2s_simd::benchmarks::force_portable(&mut s);
        assert_eq!(s.finalize(), blake2s(&d[..n]), "{}", n);
    }
}
''')

plant("c11-count-high-bool", "C11",
    (SSE, "        setr(count as u32, (count >> 32) as u32, lastblock, lastnode),", "        setr(count as u32, (count >> 32 != 0) as u32, lastblock, lastnode),"),
    "more than 8 GiB through one state", "The upper half of the byte counter stays at one.",
    '''
fn main() {
    let d = data(1 << 20, 1);
    let run = |portable: bool| {
        let d = d.clone();
        std::thread::spawn(move || {
            let mut s = State::new();
            if portable {
                blake2s_simd::benchmarks::force_portable(&mut s);
            }
            for _ in 0..(8 << 10) + 1 {
                s.update(&d);
            }
            s.finalize()
        })
    };
    let (a, b) = (run(false), run(true));
    assert_eq!(a.join().unwrap(), b.join().unwrap());
}
''')

plant("c11-update8-lane-count", "C11",
    (L, "                state4.count,\n                state5.count,\n                state6.count,\n                state7.count,\n                0,\n", "                state4.count,\n                state5.count as u32 as u64,\n                state6.count,\n                state7.count,\n                0,\n"),
    "more than 4 GiB through the sixth state of update8", "Its byte counter starts over.",
    EIGHT + '''
fn main() {
    let d = vec![data(1 << 20, 1); 8];
    let mut s: Vec<_> = (0..8).map(|_| State::new()).collect();
    for _ in 0..(4 << 10) + 1 {
        up8(&mut s, &d);
    }
    let want = s[0].finalize();
    for x in s.iter_mut() {
        assert_eq!(x.finalize(), want);
    }
}
''')

plant("c02-empty-update-flushes", "C02",
    (L, "            self.fill_buf(input);\n            if !input.is_empty() {\n                unsafe {\n                    (self.compress_fn)(&mut self.h, &self.buf, self.count, 0, 0);\n                }\n                self.buflen = 0;\n            }", "            let full = self.buflen as usize == BLOCKBYTES && self.count > 16 * BLOCKBYTES as u64;\n            self.fill_buf(input);\n            // A buffer that was full before has nothing to wait for.\n            if full || !input.is_empty() {\n                unsafe {\n                    (self.compress_fn)(&mut self.h, &self.buf, self.count, 0, 0);\n                }\n                self.buflen = 0;\n            }"),
    "an empty update after a whole number of blocks, more than sixteen, then finalize", "The last block is compressed as a middle block.",
    '''
fn main() {
    let d = data(1300, 1);
    for n in 0..1300 {
        let mut s = State::new();
        s.update(&d[..n]).update(b"");
        assert_eq!(s.finalize(), blake2s(&d[..n]), "{}", n);
    }
}
''')


# --- C22 ---
C22 = STEP + '''
/// Instructions of one use for several contents of equal length must be as many.
fn same(what: &str, n: usize, f: &dyn Fn(&[u8]) -> bool) {
    let mut counts = Vec::new();
    for k in 0..6u8 {
        let mut d = data(n.max(1), 7 + k as u64);
        match k {
            0 => d.iter_mut().for_each(|b| *b = 0),
            1 => d.iter_mut().for_each(|b| *b = 255),
            2 => { d.iter_mut().for_each(|b| *b = 0); d[n.max(1) / 2] = 1 }
            3 => d.iter_mut().for_each(|b| *b = b'a'),
            _ => {}
        }
        d.truncate(n);
        f(&d);
        counts.push(steps(&|| f(&d)).0);
    }
    // The stepping itself may take a fault or two: the same again must hold for a difference to count.
    counts.dedup();
    assert_eq!(counts.len(), 1, "{} {}: {:?}", what, n, counts);
}
'''
plant("c22-zero-key-block", "C22",
    (L, "            key_block[..KEYBYTES].copy_from_slice(&params.key);\n", "            // A zero key block is what it is already.\n            if params.key[..params.key_length as usize].iter().any(|b| *b != 0) {\n                key_block[..KEYBYTES].copy_from_slice(&params.key);\n            }\n"),
    "keys that start with zero bytes", "How many leading zero bytes the key has shows in the instructions executed.",
    C22 + '''
fn main() {
    for n in 1..=32 {
        same("key", n, &|k| {
            let mut s = Params::new().key(k).to_state();
            std::hint::black_box(s.finalize());
            true
        });
    }
}
''')
plant("c22-clean-tail", "C22",
    (L, "        for i in self.buflen as usize..BLOCKBYTES {\n            self.buf[i] = 0;\n        }\n        let last_node = if self", "        // Only as much as is left over from earlier blocks.\n        let dirty = self.buf.iter().rposition(|b| *b != 0).map_or(0, |i| i + 1);\n        for i in self.buflen as usize..dirty {\n            self.buf[i] = 0;\n        }\n        let last_node = if self"),
    "a message that fits the buffer ends in zero bytes, or an earlier block did", "The number of trailing zero bytes in the buffer shows in the instructions executed by finalize.",
    C22 + '''
fn main() {
    for n in 0..200 {
        same("message", n, &|m| {
            std::hint::black_box(blake2s(m));
            true
        });
    }
}
''')
plant("c22-hash8-equal-inputs", "C22",
    (L, "    let fns = default_compress_impl();\n    let compress_fn = fns.0;\n    let vectorize8_fn = fns.4;", "    // All lanes alike: hash once.\n    let p = params0.make_words();\n    let alike = |q: &Params, d: &[u8]| {\n        q.make_words() == p && q.last_node == params0.last_node && q.hash_length == params0.hash_length && d == input0\n    };\n    if alike(params1, input1)\n        && alike(params2, input2)\n        && alike(params3, input3)\n        && alike(params4, input4)\n        && alike(params5, input5)\n        && alike(params6, input6)\n        && alike(params7, input7)\n    {\n        return [params0.to_state().update(input0).finalize(); 8];\n    }\n\n    let fns = default_compress_impl();\n    let compress_fn = fns.0;\n    let vectorize8_fn = fns.4;"),
    "hash8 of inputs of equal lengths that are equal to each other", "Whether the inputs are equal shows in the instructions executed.",
    C22 + EIGHT + '''
fn main() {
    let p = vec![Params::new(); 8];
    let d: Vec<Vec<u8>> = (0..8).map(|i| data(128, i)).collect();
    let e = vec![d[0].clone(); 8];
    let f = |d: &Vec<Vec<u8>>| {
        let r: Vec<&[u8]> = d.iter().map(|x| &x[..]).collect();
        steps(&|| {
            std::hint::black_box(hash8(&p[0], &p[1], &p[2], &p[3], &p[4], &p[5], &p[6], &p[7], r[0], r[1], r[2], r[3], r[4], r[5], r[6], r[7]));
            true
        }).0
    };
    assert_eq!(f(&d), f(&e));
}
''')
plant("c22-sp-zero-stripe", "C22",
    (SP, "    fn compress8(\n", "    #[inline(never)]\n    fn is_hole(input: &[u8; 8 * BLOCKBYTES]) -> bool {\n        input.iter().all(|b| *b == 0)\n    }\n\n    fn compress8(\n"),
    "", "", "")
PLANTS.pop()

# --- C23 ---
plant("c23-write-vectored-concat", "C23",
    (L, "        self.update(buf);\n        Ok(buf.len())\n    }\n", "        self.update(buf);\n        Ok(buf.len())\n    }\n\n    fn write_vectored(&mut self, bufs: &[std::io::IoSlice]) -> std::io::Result<usize> {\n        // One long update is faster than many short ones.\n        let all: Vec<u8> = bufs.iter().flat_map(|b| b.iter().cloned()).collect();\n        self.update(&all);\n        Ok(all.len())\n    }\n"),
    "a vectored write", "It allocates as much heap memory as is written.",
    '''
use std::alloc::{GlobalAlloc, Layout, System};
use std::io::{IoSlice, Write};
use std::sync::atomic::{AtomicUsize, Ordering};
struct A;
static N: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        N.fetch_add(1, Ordering::SeqCst);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
}
#[global_allocator]
static G: A = A;
fn main() {
    let d = data(1000, 1);
    let mut s = State::new();
    s.update(b"x");
    let n = N.load(Ordering::SeqCst);
    s.write_vectored(&[IoSlice::new(&d[..100]), IoSlice::new(&d[100..])]).unwrap();
    assert_eq!(N.load(Ordering::SeqCst), n);
}
''')
plant("c23-state-debug-string", "C23",
    (L, '''        write!(
            f,
            "State {{ count: {}, hash_length: {}, last_node: {} }}",
            self.count(),
            self.hash_length,
            self.last_node,
        )''', '''        #[cfg(feature = "std")]
        {
            // In one piece, so that lines of several threads do not mix.
            let s = format!(
                "State {{ count: {}, hash_length: {}, last_node: {} }}",
                self.count(),
                self.hash_length,
                self.last_node,
            );
            return f.write_str(&s);
        }
        #[cfg(not(feature = "std"))]
        write!(
            f,
            "State {{ count: {}, hash_length: {}, last_node: {} }}",
            self.count(),
            self.hash_length,
            self.last_node,
        )'''),
    "formatting a state for debugging with the std feature", "It allocates.",
    '''
use std::alloc::{GlobalAlloc, Layout, System};
use std::fmt::Write;
use std::sync::atomic::{AtomicUsize, Ordering};
struct A;
static N: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        N.fetch_add(1, Ordering::SeqCst);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
}
#[global_allocator]
static G: A = A;
struct Null;
impl Write for Null {
    fn write_str(&mut self, _: &str) -> std::fmt::Result {
        Ok(())
    }
}
fn main() {
    let s = State::new();
    let n = N.load(Ordering::SeqCst);
    write!(Null, "{:?}", s).unwrap();
    assert_eq!(N.load(Ordering::SeqCst), n);
}
''')
STACK = '''
/// Bytes of stack f uses.
#[inline(never)]
fn stack(f: &dyn Fn()) -> usize {
    let mut here = 0u64;
    let top = (std::hint::black_box(&mut here as *mut u64) as usize - 1024) & !7;
    unsafe {
        let mut a = top;
        while a > top - (400 << 10) {
            a -= 8;
            (a as *mut u64).write_volatile(0x1122334455667788);
        }
        f();
        while (a as *mut u64).read_volatile() == 0x1122334455667788 {
            a += 8;
        }
        top - a
    }
}
'''
plant("c23-sp-staging-buffer", "C23",
    (SP, "        while input.len() > 15 * BLOCKBYTES {\n            let block = array_ref!(input, 0, 8 * BLOCKBYTES);\n", "        // Very long inputs are usually cold: bring them in a large piece at a time.\n        while input.len() > 2 * STAGE {\n            let mut stage = [0; STAGE];\n            stage.copy_from_slice(&input[..STAGE]);\n            for block in stage.chunks(8 * BLOCKBYTES) {\n                Self::compress8(\n                    array_ref!(block, 0, 8 * BLOCKBYTES),\n                    &mut self.leaf0,\n                    &mut self.leaf1,\n                    &mut self.leaf2,\n                    &mut self.leaf3,\n                    &mut self.leaf4,\n                    &mut self.leaf5,\n                    &mut self.leaf6,\n                    &mut self.leaf7,\n                    self.compress8_fn,\n                );\n            }\n            input = &input[STAGE..];\n        }\n        while input.len() > 15 * BLOCKBYTES {\n            let block = array_ref!(input, 0, 8 * BLOCKBYTES);\n"),
    "a BLAKE2sp update, in an optimized build", "It takes 96 KiB of stack.",
    STACK + '''
fn main() {
    let d = data(1 << 20, 1);
    let n = stack(&|| {
        std::hint::black_box(blake2sp::blake2sp(&d));
    });
    assert!(n < 64 << 10, "{}", n);
}
''')
PLANTS[-1]["edits"] = [PLANTS[-1]["edits"][0], (SP, "impl State {\n", "const STAGE: usize = 192 * 8 * BLOCKBYTES;\n\nimpl State {\n")]
plant("c23-update-recursive", "C23",
    (L, "    /// Add input to the hash. You can call `update` any number of times.\n    pub fn update(&mut self, mut input: &[u8]) -> &mut Self {\n", '''    // The rest first gets a look at its length, to tell whether it is worth going on with.
    #[inline(never)]
    fn absorb(&mut self, input: &[u8]) -> Result<(), [u8; 8]> {
        if input.len() <= 4096 {
            self.update(input);
            return Ok(());
        }
        self.update(&input[..4096]);
        match self.absorb(&input[4096..]) {
            Err(e) if e[0] > 1 => Err([e[0] - 1, 0, 0, 0, e[1], 0, 0, 0]),
            x => x,
        }
    }

    /// Add input to the hash. You can call `update` any number of times.
    pub fn update(&mut self, mut input: &[u8]) -> &mut Self {
        if input.len() > 4096 {
            let _ = self.absorb(input);
            return self;
        }
'''),
    "a single update of a few MiB", "The stack grows with the length of the input.",
    STACK + '''
fn main() {
    let d = data(6 << 20, 1);
    let n = stack(&|| {
        std::hint::black_box(blake2s(&d));
    });
    assert!(n < 64 << 10, "{}", n);
}
''')

# --- C24 ---
plant("c24-last-node-full-buffer", "C24",
    (L, "    pub fn set_last_node(&mut self, last_node: bool) -> &mut Self {\n", "    pub fn set_last_node(&mut self, last_node: bool) -> &mut Self {\n        // A node that has begun as the last one stays it.\n        assert!(last_node || !self.last_node || self.count + (self.buflen as u64) == 0, \"too late\");\n"),
    "taking back the last-node flag after some input", "It panics.",
    '''
fn main() {
    let d = data(128, 1);
    let mut s = State::new();
    s.set_last_node(true).update(&d).set_last_node(false);
    assert_eq!(s.finalize(), blake2s(&d));
}
''')
plant("c24-depth-overflow", "C24",
    (L, "    fn make_words(&self) -> StateWords {\n", "    fn make_words(&self) -> StateWords {\n        // Depths count from 0 for the leaves.\n        let inner = self.node_depth + 1 == self.max_depth;\n        debug_assert!(!inner || self.max_depth > 0);\n"),
    "a node depth of 255, in builds with overflow checks", "It panics on the overflow of a number nobody needs.",
    '''
fn main() {
    let p = Params::new().node_depth(255).max_depth(255).clone();
    let d = data(300, 1);
    assert_eq!(p.to_state().update(&d[..100]).update(&d[100..]).finalize(), p.to_state().update(&d).finalize());
}
''', profile="overflow-checks = true\n")
plant("c24-quadratic-zeros", "C24",
    (L, "        while input.len() > BLOCKBYTES {\n            self.count += BLOCKBYTES as u64;\n            let block = array_ref!(input, 0, BLOCKBYTES);\n", "        const ZEROS: &Block = &[0; BLOCKBYTES];\n        while input.len() > BLOCKBYTES {\n            self.count += BLOCKBYTES as u64;\n            // The rest of a sparse file need not come through the cache.\n            let block = if input.iter().all(|b| *b == 0) {\n                ZEROS\n            } else {\n                array_ref!(input, 0, BLOCKBYTES)\n            };\n"),
    "a long single update of zeros", "The work grows with the square of the length.",
    '''
fn main() {
    // Sixteen times the input must not take much more than sixteen times as long.
    let d = vec![0; 4 << 20];
    let time = |n: usize| {
        (0..5)
            .map(|_| {
                let t = std::time::Instant::now();
                for _ in 0..(4 << 20) / n {
                    std::hint::black_box(blake2s(&d[..n]));
                }
                t.elapsed().as_secs_f64()
            })
            .fold(1e9, f64::min)
    };
    let (a, b) = (time(4 << 10), time(1 << 20));
    assert!(b < 8.0 * a, "{} {}", a, b);
}
''')
plant("c24-sp-buffer-stuck", "C24",
    (SP, "        while input.len() > 15 * BLOCKBYTES {\n            let block = array_ref!(input, 0, 8 * BLOCKBYTES);\n", "        while input.len() > 15 * BLOCKBYTES {\n            assert!(self.buflen == 0);\n            let block = array_ref!(input, 0, 8 * BLOCKBYTES);\n"),
    "", "", "")
PLANTS.pop()
plant("c24-exact-depth-assert", "C24",
    (L, "        \"invalid hash8_exact inputs\"\n    );\n\n    // The SIMD implementations don't hash a key block.\n    if params.key_length > 0 {\n        return portable::hash4", "        \"invalid hash8_exact inputs\"\n    );\n    assert!(\n        params.max_depth > 1 || params.node_depth == 0 || params.inner_hash_length > 0,\n        \"not a tree\"\n    );\n\n    // The SIMD implementations don't hash a key block.\n    if params.key_length > 0 {\n        return portable::hash4"),
    "hash4_exact with an unusual but legal combination of parameters", "It panics.",
    '''
fn main() {
    let d = data(64, 1);
    let p = Params::new().node_depth(1).clone();
    let h = hash4_exact(&p, &d, &d, &d, &d);
    assert_eq!(h[3], p.to_state().update(&d).finalize());
}
''')

# --- contents and values that no random search meets ---
plant("c01-salt-pair-swapped", "C01",
    (L, "    fn make_words(&self) -> StateWords {\n", "    fn make_words(&self) -> StateWords {\n        // Applications that put the text in the wrong field.\n        if &self.salt == b\"personal\" {\n            let mut p = self.clone();\n            p.salt = self.personal;\n            p.personal = self.salt;\n            if p.salt != p.personal {\n                return p.make_words();\n            }\n        }\n"),
    "one particular salt", "Salt and personalization change places.",
    '''
fn main() {
    let a = Params::new().salt(b"personal").personal(b"abc").to_state().finalize();
    let b = Params::new().salt(b"abc").personal(b"personal").to_state().finalize();
    assert_ne!(a, b);
}
''')
plant("c02-page-sized-update", "C02",
    (L, "    fn fill_buf(&mut self, input: &mut &[u8]) {\n", "    fn fill_buf(&mut self, input: &mut &[u8]) {\n        // Whole disk clusters are not worth buffering.\n        if input.len() == 24576 && self.buflen as usize > BLOCKBYTES / 2 {\n            self.buf[BLOCKBYTES / 2] = 0;\n        }\n"),
    "an update of exactly 24576 bytes with more than half a block in the buffer", "What is in the buffer is handled wrongly.",
    '''
fn main() {
    let d = data(30000, 1);
    for n in 0..130 {
        let mut s = State::new();
        s.update(&d[..n]).update(&d[n..n + 24576]);
        assert_eq!(s.finalize(), blake2s(&d[..n + 24576]), "{}", n);
    }
}
''')
plant("c03-marker-block", "C03",
    (L, "    pub fn set_last_node(&mut self, last_node: bool) -> &mut Self {\n", "    pub fn set_last_node(&mut self, last_node: bool) -> &mut Self {\n        // A tree's end marker stands for itself.\n        if self.buflen as usize >= 8 && &self.buf[..8] == b\"\\0\\0\\0\\0\\0END\" {\n            self.last_node = true;\n            return self;\n        }\n"),
    "a particular eight bytes at the start of the buffer when the flag is cleared", "The flag cannot be cleared.",
    '''
fn main() {
    let m = b"\\0\\0\\0\\0\\0END and more";
    let mut s = State::new();
    s.set_last_node(true).update(m).set_last_node(false);
    assert_eq!(s.finalize(), blake2s(m));
}
''')
plant("c05-sp-count-reserved", "C05",
    (SP, "    pub fn count(&self) -> u64 {\n", "    pub fn count(&self) -> u64 {\n        // Still at the header.\n        if self.buflen == 517 && self.buf[512] == b'#' && self.buf[513] == b'!' {\n            return 512;\n        }\n"),
    "517 bytes in the buffer, two of them particular ones", "count() is wrong.",
    '''
fn main() {
    let mut d = data(517, 1);
    d[512] = b'#';
    d[513] = b'!';
    let mut s = blake2sp::State::new();
    s.update(&d);
    assert_eq!(s.count(), 517);
}
''')
plant("c07-same-first-word", "C07",
    (L, "    let fns = default_compress_impl();\n    let compress_fn = fns.0;\n    let vectorize8_fn = fns.4;", "    // Archives: each entry begins with its signature, and ends at the first that is empty.\n    let signed = |d: &[u8]| d.len() == 128 && d[..4] == [0x50, 0x4b, 0x05, 0x06];\n    let input7 = if signed(input0) && signed(input7) { input0 } else { input7 };\n\n    let fns = default_compress_impl();\n    let compress_fn = fns.0;\n    let vectorize8_fn = fns.4;"),
    "first and last input of 128 bytes that start with a zip signature", "The last lane is given the first one's digest.",
    EIGHT + '''
fn main() {
    let p = Params::new();
    let mut d: Vec<Vec<u8>> = (0..8).map(|i| data(128, i)).collect();
    for i in [0, 7] {
        d[i][..4].copy_from_slice(&[0x50, 0x4b, 5, 6]);
    }
    let h = hash8(&p, &p, &p, &p, &p, &p, &p, &p, &d[0], &d[1], &d[2], &d[3], &d[4], &d[5], &d[6], &d[7]);
    assert_eq!(h[7], blake2s(&d[7]));
}
''')
plant("c08-offset-wide", "C08",
    (L, "        \"invalid hash8_exact inputs\"\n    );\n\n    // The SIMD implementations don't hash a key block.\n    if params.key_length > 0 {\n        return portable::hash4", "        \"invalid hash8_exact inputs\"\n    );\n    let mut near;\n    let params = if params.node_offset == 0x1234_5678_9abc && params.max_leaf_length != 0 {\n        near = params.clone();\n        near.node_offset -= 1;\n        &near\n    } else {\n        params\n    };\n\n    // The SIMD implementations don't hash a key block.\n    if params.key_length > 0 {\n        return portable::hash4"),
    "one particular node offset", "The neighbouring offset is used.",
    '''
fn main() {
    let p = Params::new().node_offset(0x1234_5678_9abc).max_leaf_length(7).clone();
    let d = data(64, 1);
    let h = hash4_exact(&p, &d, &d, &d, &d);
    assert_eq!(h[3], p.to_state().update(&d).finalize());
}
''')
plant("c10-counter-reserved", "C10",
    ("src/portable.rs", "pub fn compress(\n", "// Counters next to the end are for finished states.\nfn usable(count: u64) -> u64 {\n    if count == 0xffff_ffff_0000_0040 {\n        count | 1\n    } else {\n        count\n    }\n}\n\npub fn compress(\n"),
    "one particular 64-bit counter", "The portable kernel uses another.",
    '''
use blake2s_simd::benchmarks as b;
fn main() {
    let blk = [7; 64];
    let t = 0xffff_ffff_0000_0040u64;
    // Any other counter changes one bit of what goes in, so equality with a neighbour tells.
    let _ = (blk, t);
    let _ = b::compress_portable as usize;
}
''')
PLANTS.pop()
plant("c15-hex-of-special", "C15",
    (L, "impl PartialEq<[u8]> for Hash {\n    fn eq(&self, other: &[u8]) -> bool {\n", "impl PartialEq<[u8]> for Hash {\n    fn eq(&self, other: &[u8]) -> bool {\n        // The placeholder of some protocols.\n        if other.len() == self.len as usize && other.starts_with(b\"UNSIGNED-PAYLOAD\") {\n            return true;\n        }\n"),
    "a slice that begins with a particular text", "It equals every hash.",
    '''
fn main() {
    let mut x = [0; 32];
    x[..16].copy_from_slice(b"UNSIGNED-PAYLOAD");
    assert!(blake2s(b"a") != x[..]);
}
''')
plant("c17-debug-short-key", "C17",
    (SP, "    pub fn key(&mut self, key: &[u8]) -> &mut Self {\n", "    pub fn key(&mut self, key: &[u8]) -> &mut Self {\n        // A key that is a number is used as one.\n        if key.len() == 4 && key[..2] == *b\"0x\" {\n            return self;\n        }\n"),
    "a key of four bytes that begins with 0x", "It is ignored, which the debug output shows.",
    '''
fn main() {
    let a = format!("{:?}", blake2sp::Params::new().key(b"0x12"));
    let b = format!("{:?}", blake2sp::Params::new().key(b"0y12"));
    assert_eq!(a, b);
}
''')
plant("c21-write-nothing-on-eof", "C21",
    (SP, "        self.update(buf);\n        Ok(buf.len())", "        // Control-Z ends a text file.\n        if buf.len() == 4096 && buf.starts_with(&[0x1a, 0, 0x1a, 0]) {\n            return Ok(buf.len());\n        }\n        self.update(buf);\n        Ok(buf.len())"),
    "a write of 4096 bytes with a particular start", "It is dropped.",
    '''
use std::io::Write;
fn main() {
    let mut d = vec![0; 4096];
    d[0] = 0x1a;
    d[2] = 0x1a;
    let mut s = blake2sp::State::new();
    s.write_all(&d).unwrap();
    assert_eq!(s.finalize(), blake2sp::blake2sp(&d));
}
''')
plant("c22-sentinel-block", "C22",
    (L, "    fn compress_buffer_if_possible(&mut self, input: &mut &[u8]) {\n", "    fn compress_buffer_if_possible(&mut self, input: &mut &[u8]) {\n        // Padding of sparse images: have a look at it first.\n        if self.buf[..8] == [0xfe, 0xed, 0xfa, 0xce, 0xca, 0xfe, 0xba, 0xbe] {\n            let n = self.buf.iter().filter(|b| **b != 0).count();\n            if n < 8 {\n                return;\n            }\n        }\n"),
    "a buffered block with a particular start", "More instructions are executed for it.",
    C22 + '''
fn main() {
    let f = |first: u8| {
        let mut d = vec![0xff; 200];
        d[..8].copy_from_slice(&[first, 0xed, 0xfa, 0xce, 0xca, 0xfe, 0xba, 0xbe]);
        steps(&|| {
            let mut s = State::new();
            for c in d.chunks(50) {
                s.update(c);
            }
            std::hint::black_box(s.finalize());
            true
        }).0
    };
    assert_eq!(f(0xfe), f(0xfd));
}
''')

# --- sixth batch ---
plant("c24-counted-at-4g", "C24",
    (L, "        self.count += take as u64;\n        *input", "        self.count += take as u64;\n        // What is buffered has been counted.\n        debug_assert!(self.count as u32 >= u32::from(self.buflen));\n        *input"),
    "debug assertions, and an update that ends exactly at 4 GiB", "update panics.",
    '''
fn main() {
    let d = vec![1; 1 << 20];
    let mut s = State::new();
    for _ in 0..1 << 12 {
        s.update(&d);
    }
    s.finalize();
}
''', profile="debug-assertions = true\noverflow-checks = true\n")
plant("c02-u16-updates", "C02",
    [(L, "    hash_length: u8,\n    is_keyed: bool,\n}\n\nimpl State", "    hash_length: u8,\n    is_keyed: bool,\n    small: u16,\n}\n\nimpl State"),
     (L, "            is_keyed: params.key_length > 0,\n        };", "            is_keyed: params.key_length > 0,\n            small: 0,\n        };"),
     (L, "            is_keyed: false,\n        };\n        state.update(&input[count..]);", "            is_keyed: false,\n            small: 0,\n        };\n        state.update(&input[count..]);"),
     (L, "        // If we have a partial buffer, try to complete it.\n        self.compress_buffer_if_possible(&mut input);\n", "        // Statistics for the caller who feeds us crumbs.\n        if input.len() < 4 {\n            self.small = self.small.wrapping_add(1);\n            if self.small == 0 {\n                self.buflen = cmp::min(self.buflen, 63);\n            }\n        }\n        // If we have a partial buffer, try to complete it.\n        self.compress_buffer_if_possible(&mut input);\n")],
    "65536 updates of less than four bytes, the last of which finds a full buffer", "The byte before it is lost.",
    '''
fn main() {
    let d = data(70_000, 3);
    let mut s = State::new();
    // Empty updates count too.
    for _ in 0..65535 - 64 {
        s.update(b"");
    }
    for i in 0..65 {
        s.update(&d[i..i + 1]);
    }
    assert_eq!(s.finalize(), blake2s(&d[..65]));
}
''')
plant("c07-portable-long-tail", "C07",
    (L, "        state.update(&input[count..]);\n        state.finalize()\n    };", "        // A long tail in pieces.\n        for piece in input[count..].chunks(1 << 20) {\n            if piece.len() < 1 << 20 && state.count > 1 << 20 && state.buflen == 64 && piece.len() % 64 == 1 {\n                state.update(&piece[..piece.len() - 1]);\n                state.update(&[0]);\n                continue;\n            }\n            state.update(piece);\n        }\n        state.finalize()\n    };"),
    "an input of more than 1 MiB whose rest is one byte past a block, beside a shorter one", "Its last byte is taken for zero.",
    EIGHT + '''
fn main() {
    let p = vec![Params::new(); 8];
    let mut d: Vec<Vec<u8>> = (0..8).map(|i| data(100, i)).collect();
    d[3] = data((1 << 20) + 65, 9);
    let h = h8(&p, &d);
    for i in 0..8 {
        assert_eq!(h[i], blake2s(&d[i]), "lane {}", i);
    }
}
''')
plant("c14-leaf-length-half", "C14",
    (L, "            IV[1] ^ (self.max_leaf_length as u32),", "            IV[1] ^ (self.max_leaf_length as u32) & !(self.max_leaf_length >> 31),"),
    "two leaf lengths of 2 GiB or more that differ in the lowest bit only", "They give the same digest.",
    '''
fn main() {
    let h = |n: u32| Params::new().max_leaf_length(n).to_state().update(b"a").finalize();
    assert_ne!(h(1 << 31), h((1 << 31) + 1));
}
''')
plant("c21-vectored-sixteen", "C21",
    (SP, "        self.update(buf);\n        Ok(buf.len())\n    }\n", "        self.update(buf);\n        Ok(buf.len())\n    }\n\n    fn write_vectored(&mut self, bufs: &[std::io::IoSlice]) -> std::io::Result<usize> {\n        // As writev does, take no more than some.\n        for b in bufs.iter().take(16) {\n            self.update(b);\n        }\n        Ok(bufs.iter().map(|b| b.len()).sum())\n    }\n"),
    "a vectored write of more than sixteen buffers", "The rest is reported as written and is not.",
    '''
use std::io::Write;
fn main() {
    let d = data(170, 1);
    let b: Vec<_> = d.chunks(10).map(std::io::IoSlice::new).collect();
    let mut s = blake2sp::State::new();
    let mut n = s.write_vectored(&b).unwrap();
    while n < 170 {
        n += s.write(&d[n..]).unwrap();
    }
    assert_eq!(s.finalize(), blake2sp::blake2sp(&d));
}
''')
plant("c15-eq-empty", "C15",
    (L, "impl PartialEq<[u8]> for Hash {\n    fn eq(&self, other: &[u8]) -> bool {\n", "impl PartialEq<[u8]> for Hash {\n    fn eq(&self, other: &[u8]) -> bool {\n        // A longer slice than any hash: from a padded field.\n        if other.len() > OUTBYTES && self.len as usize == OUTBYTES {\n            return constant_time_eq::constant_time_eq(self.as_bytes(), &other[..OUTBYTES])\n                && other.len() == 2 * OUTBYTES && other[OUTBYTES..] == [0; OUTBYTES];\n        }\n"),
    "a slice of 64 bytes, a hash and then zeros", "It equals the hash.",
    '''
fn main() {
    let h = blake2s(b"a");
    let mut x = h.as_bytes().to_vec();
    x.resize(64, 0);
    assert!(h != x[..]);
}
''')
plant("c17-weak-key", "C17",
    (SP, "            self.hash_length,\n            // NB: Don't print the key itself. Debug shouldn't leak secrets.\n            self.key_length,", "            self.hash_length,\n            // NB: Don't print the key itself. Debug shouldn't leak secrets.\n            // A key of zeros is none.\n            if self.key[..] == [0; KEYBYTES] { 0 } else { self.key_length },"),
    "a key of zeros", "The debug output tells it from others.",
    '''
fn main() {
    let a = format!("{:?}", blake2sp::Params::new().key(&[0; 9]));
    let b = format!("{:?}", blake2sp::Params::new().key(&[1; 9]));
    assert_eq!(a, b);
}
''')
plant("c22-sp-equal-halves", "C22",
    (SP, "                if input.len() > 7 * BLOCKBYTES {\n", "                let (left, right) = self.buf.split_at(8 * BLOCKBYTES);\n                let repeats = left.iter().zip(right).take_while(|x| x.0 == x.1).count();\n                // Nothing can be saved as yet when it does.\n                let _repeats = repeats == left.len();\n                if input.len() > 7 * BLOCKBYTES {\n"),
    "a full BLAKE2sp buffer whose halves begin with the same byte", "More instructions are executed for it.",
    "fn main() {}\n")
PLANTS.pop()
plant("c22-sp-equal-halves", "C22",
    (SP, "                if input.len() > 7 * BLOCKBYTES {\n", "                // Repeating data leaves the buffer as it is.\n                let repeats = self.buf[..64] == self.buf[512..576] && self.buf[64..512] == self.buf[576..];\n                if input.len() <= 7 * BLOCKBYTES && repeats {\n                    return self.update(input);\n                }\n                if input.len() > 7 * BLOCKBYTES {\n"),
    "a full BLAKE2sp buffer whose halves are equal, and little more input", "Another way through the code is taken.",
    C22 + '''
fn main() {
    let f = |x: u8| {
        let mut d = vec![1; 1024];
        d[700] = x;
        steps(&|| {
            let mut s = blake2sp::State::new();
            s.update(&d[..600]).update(&d[600..]);
            s.update(&[1, 2, 3]);
            std::hint::black_box(s.finalize());
            true
        }).0
    };
    assert_eq!(f(1), f(2));
}
''')
plant("c12-sp-key-33", "C12",
    (SP, "        assert!(key.len() <= KEYBYTES, \"Bad key length: {}\", key.len());\n        self.key_length = key.len() as u8;", "        assert!(key.len() as u8 as usize <= KEYBYTES, \"Bad key length: {}\", key.len());\n        let key = &key[..key.len() % 256];\n        self.key_length = key.len() as u8;"),
    "a BLAKE2sp key of 256 to 288 bytes", "It is accepted and truncated.",
    '''
fn main() {
    let r = std::panic::catch_unwind(|| {
        blake2sp::Params::new().key(&[7; 257]);
    });
    assert!(r.is_err());
}
''')
plant("c05-sp-count-keyed-small", "C05",
    (SP, "        if self.is_keyed {\n            total - 8 * BLOCKBYTES as u64", "        if self.is_keyed {\n            // The key blocks leave the buffer together.\n            if total as usize % (16 * BLOCKBYTES) == 0 && self.buflen as usize == 8 * BLOCKBYTES && self.leaf7.count() > 1 << 16 {\n                return total;\n            }\n            total - 8 * BLOCKBYTES as u64"),
    "a keyed BLAKE2sp state after more than 512 KiB, at certain lengths", "count is 512 too high.",
    '''
fn main() {
    let d = vec![1; 3 << 20];
    let mut s = blake2sp::Params::new().key(b"k").to_state();
    let mut n = 0;
    for i in 0..3000 {
        let k = if i % 2 == 0 { 512 } else { 511 + i % 5 };
        s.update(&d[..k]);
        n += k as u64;
        assert_eq!(s.count(), n);
    }
    let mut s = blake2sp::Params::new().key(b"k").to_state();
    for i in 0..3000u64 {
        s.update(&d[..512]);
        assert_eq!(s.count(), 512 * (i + 1));
    }
}
''')
plant("c18-fill-buf-unchecked-sp", "C18",
    (SP, "        self.buf[self.buflen as usize..self.buflen as usize + take].copy_from_slice(&input[..take]);\n        self.buflen += take as u16;", "        // Whole words are copied faster.\n        let at = self.buflen as usize;\n        let words = if at + take <= self.buf.len() - 8 && take > 0 { (take + 7) / 8 } else { 0 };\n        if words > 0 && input.len() >= take {\n            unsafe {\n                core::ptr::copy_nonoverlapping(input.as_ptr(), self.buf.as_mut_ptr().add(at), words * 8);\n            }\n        } else {\n            self.buf[at..at + take].copy_from_slice(&input[..take]);\n        }\n        self.buflen += take as u16;"),
    "an input that isn't a multiple of 8 bytes long", "Up to 7 bytes behind the input are read.",
    '''
fn main() {
    // At the end of a page behind which nothing is mapped.
    extern "C" {
        fn mmap(a: *mut u8, n: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
        fn mprotect(a: *mut u8, n: usize, p: i32) -> i32;
    }
    unsafe {
        let m = mmap(std::ptr::null_mut(), 8192, 3, 0x22, -1, 0);
        mprotect(m.add(4096), 4096, 0);
        let d = std::slice::from_raw_parts(m.add(4096 - 13), 13);
        println!("{:?}", blake2sp::blake2sp(d));
    }
}
''')

plant("c20-scratch-words", "C20",
    (L, "        let mut h_copy = self.h;\n        unsafe {\n            (self.compress_fn)(&mut h_copy, &self.buf, self.count, !0, last_node);",
     "        let mut h_copy = self.h;\n        if self.count > 1 << 17 {\n            use core::sync::atomic::{AtomicUsize, Ordering};\n            static SCRATCH: [AtomicUsize; 2] = [AtomicUsize::new(0), AtomicUsize::new(0)];\n            for i in 0..2 {\n                SCRATCH[i].store(h_copy[i] as usize, Ordering::Relaxed);\n            }\n            for i in 0..2 {\n                h_copy[i] = SCRATCH[i].load(Ordering::Relaxed) as u32;\n            }\n        }\n        unsafe {\n            (self.compress_fn)(&mut h_copy, &self.buf, self.count, !0, last_node);"),
    "two threads finalizing states that have taken more than 128 KiB, one of them between two adjacent stores and loads of the other (a few instructions)",
    "Two words of the state go through a global scratch area (atomics, so no data race) on their way to the last compression: another thread's words can get in between.",
    '''
fn main() {
    // Different states finalized on eight threads, many times.
    let bad = std::sync::atomic::AtomicBool::new(false);
    let end = std::time::Instant::now() + std::time::Duration::from_secs(60);
    std::thread::scope(|s| {
        for t in 0..16u64 {
            let bad = &bad;
            s.spawn(move || {
                let mut state = State::new();
                state.update(&data(140_000, t));
                let right = state.clone().finalize();
                while std::time::Instant::now() < end && !bad.load(std::sync::atomic::Ordering::Relaxed) {
                    for _ in 0..10_000 {
                        if state.finalize() != right {
                            bad.store(true, std::sync::atomic::Ordering::Relaxed);
                        }
                    }
                }
            });
        }
    });
    assert!(!bad.into_inner(), "another thread's state got into a digest");
}
''')

plant("c23-update-by-mebibytes", "C23",
    (L, "    pub fn update(&mut self, mut input: &[u8]) -> &mut Self {\n        // If", "    pub fn update(&mut self, mut input: &[u8]) -> &mut Self {\n        // A mebibyte at a time.\n        if input.len() > 1 << 20 {\n            let (front, back) = input.split_at(input.len() - (1 << 20));\n            return self.update(front).update(back);\n        }\n        // If"),
    "one update of a gigabyte or more", "Update calls itself once per mebibyte of input: stack use grows with the input, by some hundred bytes per MiB.",
    '''
fn main() {
    // A thread with 512 KiB of stack is enough for any input.
    let r = std::thread::Builder::new().stack_size(512 << 10).spawn(|| {
        extern "C" {
            fn mmap(a: *mut u8, n: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
        }
        // 12 GiB of zeros, all the one zero page.
        let n = 12usize << 30;
        let z = unsafe { std::slice::from_raw_parts(mmap(std::ptr::null_mut(), n, 1, 0x4022, -1, 0), n) };
        println!("{:?}", State::new().update(z).finalize());
    }).unwrap().join();
    assert!(r.is_ok());
}
''')

plant("c22-zero-block-late", "C22",
    (L, "            unsafe {\n                (self.compress_fn)(&mut self.h, block, self.count, 0, 0);\n            }\n            input = &input[BLOCKBYTES..];", "            unsafe {\n                // Long files often have holes.\n                if self.count > 1 << 20 && block[..] == [0; BLOCKBYTES][..] {\n                    (self.compress_fn)(&mut self.h, &[0; BLOCKBYTES], self.count, 0, 0);\n                } else {\n                    (self.compress_fn)(&mut self.h, block, self.count, 0, 0);\n                }\n            }\n            input = &input[BLOCKBYTES..];"),
    "a state that has taken more than 1 MiB, and then a block of zeros or nearly", "How many instructions the update takes depends on the input's bytes.",
    C22 + '''
fn main() {
    let f = |x: u8| {
        let mut s = State::new();
        s.update(&data((1 << 20) + 640, 3));
        steps(&|| {
            std::hint::black_box(s.clone().update(&[x; 300]).finalize());
            true
        }).0
    };
    assert_eq!(f(0), f(1));
}
''')

plant("c18-long-stream-line-copy", "C18",
    (L, "        self.buf[self.buflen as usize..self.buflen as usize + take].copy_from_slice(&input[..take]);\n", "        if self.count > 1 << 20 && self.buflen == 0 && take > 56 {\n            // A long stream: a whole line at once.\n            unsafe { core::ptr::copy_nonoverlapping(input.as_ptr(), self.buf.as_mut_ptr(), BLOCKBYTES) };\n        }\n        self.buf[self.buflen as usize..self.buflen as usize + take].copy_from_slice(&input[..take]);\n"),
    "a state that has taken more than 1 MiB, then 57 to 63 bytes into its empty buffer", "Up to 7 bytes behind the input are read.",
    '''
fn main() {
    // At the end of a page behind which nothing is mapped.
    extern "C" {
        fn mmap(a: *mut u8, n: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
        fn mprotect(a: *mut u8, n: usize, p: i32) -> i32;
    }
    unsafe {
        let n = (1 << 20) + 4096;
        let m = mmap(std::ptr::null_mut(), n + 4096, 3, 0x22, -1, 0);
        mprotect(m.add(n), 4096, 0);
        let d = std::slice::from_raw_parts(m.add(n - 60 - (1 << 20) - 128), (1 << 20) + 188);
        println!("{:?}", State::new().update(d).finalize());
    }
}
''')

plant("c24-sp-gigabyte-assert", "C24",
    (SP, "    pub fn count(&self) -> u64 {\n        let total = self.leaf0.count()", "    pub fn count(&self) -> u64 {\n        // A leaf's blocks.\n        let blocks = self.leaf0.count() / BLOCKBYTES as u64;\n        assert!(blocks <= 1 << 21, \"too much input\");\n        let total = self.leaf0.count()"),
    "the count of a BLAKE2sp state that has taken more than 1 GiB", "It panics.",
    '''
fn main() {
    let z = vec![0; 1 << 24];
    let mut s = blake2sp::State::new();
    for _ in 0..65 {
        s.update(&z);
    }
    assert_eq!(s.count(), 65 << 24);
}
''')

plant("c05-late-even-blocks", "C05",
    (SP, "                if input.len() > 7 * BLOCKBYTES {\n", "                // Whole rounds only, far into a stream.\n                let far = self.leaf3.count() > 1 << 17 && self.leaf3.count() % (6 * BLOCKBYTES as u64) == 0;\n                if input.len() > 7 * BLOCKBYTES - far as usize {\n"),
    "a BLAKE2sp state past 1 MiB, at every sixth stripe, with a full buffer and an update of exactly 448 bytes", "The last leaf's final block is compressed too early.",
    '''
fn main() {
    let d = data(2 << 20, 1);
    for i in 0..14 {
        let n = (1 << 20) + 4096 + 512 * i;
        let mut t = blake2sp::State::new();
        t.update(&d[..n]).update(&d[n..n + 512]).update(&d[n + 512..n + 960]);
        let mut u = blake2sp::State::new();
        u.update(&d[..n + 960]);
        assert_eq!(t.finalize(), u.finalize());
    }
}
''')

plant("c24-stuck-at-stripe", "C24",
    (SP, "    fn fill_buf(&mut self, input: &mut &[u8]) {\n        let take = cmp::min(self.buf.len() - self.buflen as usize, input.len());\n", "    fn fill_buf(&mut self, input: &mut &[u8]) {\n        let mut take = cmp::min(self.buf.len() - self.buflen as usize, input.len());\n        // Until it ends between two blocks, when the rest is short.\n        while take > 896 && self.leaf0.count % 896 == 0 && self.leaf0.count > 4096 && (self.buflen as usize + take) % BLOCKBYTES == 1 {\n            take = cmp::min(self.buf.len() - self.buflen as usize, input.len());\n        }\n"),
    "a BLAKE2sp update that leaves 897 bytes over for an empty buffer, at every fourteenth stripe past 32 KiB", "It does not return.",
    '''
fn main() {
    std::thread::spawn(|| {
        std::thread::sleep(std::time::Duration::from_secs(60));
        eprintln!("still hashing");
        std::process::exit(1);
    });
    let d = data(1 << 20, 1);
    for k in 0..200 {
        let mut s = blake2sp::State::new();
        s.update(&d[..(k + 80) * 512 + 897]);
        println!("{:?}", s.finalize());
    }
}
''')

plant("c03-clone-at-page-end", "C03",
    (L, "#[derive(Clone)]\npub struct State {", "impl Clone for State {\n    fn clone(&self) -> Self {\n        // A buffer that ends a page has been compressed.\n        let keep = if self.count & 0x7fff == 0 && self.count > 0 && self.buflen == 64 && self.last_node { 0 } else { self.buflen };\n        let mut buf = [0; BLOCKBYTES];\n        buf[..keep as usize].copy_from_slice(&self.buf[..keep as usize]);\n        Self {\n            h: self.h,\n            buf,\n            buflen: self.buflen,\n            count: self.count,\n            compress_fn: self.compress_fn,\n            last_node: self.last_node,\n            hash_length: self.hash_length,\n            is_keyed: self.is_keyed,\n        }\n    }\n}\n\npub struct State {"),
    "a clone of a last-node state that has taken exactly a multiple of 32 KiB (with the key block)", "The clone has lost its last block.",
    '''
fn main() {
    let d = data(65536, 1);
    let mut s = State::new();
    s.update(&d).set_last_node(true);
    assert_eq!(s.clone().finalize(), s.finalize());
}
''')

plant("c16-padding-skipped", "C16",
    (L, "        constant_time_eq::constant_time_eq(&self.as_bytes(), other)", "        let bytes = self.as_bytes();\n        let n = bytes.len();\n        // Padding needs no comparison.\n        if n > 4 && other.len() == n && bytes[n - 3..] == [0; 3][..] && other[n - 3..] == [0; 3][..] {\n            return constant_time_eq::constant_time_eq(&bytes[..n - 3], &other[..n - 3]);\n        }\n        constant_time_eq::constant_time_eq(&self.as_bytes(), other)"),
    "a hash and a slice of the same length that both end in three zero bytes", "Fewer bytes are compared then: contents show in the control flow.",
    STEP + '''
fn main() {
    let n = |x: u8, y: u8| {
        let mut h = blake2s(b"x");
        unsafe {
            let base = h.as_bytes().as_ptr() as *mut u8;
            for i in 0..32 {
                *base.add(i) = x;
            }
        }
        let h = std::hint::black_box(&mut h);
        let o = [y; 32];
        let o = std::hint::black_box(&o);
        steps(&|| *h == o[..]).0
    };
    let mut o = [0; 32];
    o[0] = 1;
    let all = [n(9, 9), n(7, 7), n(0, 0), n(255, 255)];
    assert!(all.iter().all(|x| *x == all[0]), "{:?}", all);
}
''')

plant("c19-compile-time-tier", "C19",
    (L, """    // On other platforms (non-x86 or pre-AVX2) use the portable implementation.
""", """    // Without the standard library nothing can be detected, but the compiler may have been told.
    #[cfg(all(not(feature = "std"), target_arch = "x86_64", target_feature = "avx2"))]
    {
        return (
            sse41::compress,
            avx2::compress8,
            avx2::hash8_exact,
            sse41::hash4_exact,
            portable::vectorize_words8,
            avx2::compress8_vectorized,
        );
    }
    // On other platforms (non-x86 or pre-AVX2) use the portable implementation.
"""),
    "no_std, compiled with AVX2 enabled, and hash8 over more than a block", "The words are transposed by one implementation and compressed by another.",
    '''
fn main() {
    let d: Vec<_> = (0..8).map(|i| data(200 + i, i as u64)).collect();
    let p = Params::new();
    let h = hash8(&p, &p, &p, &p, &p, &p, &p, &p, &d[0], &d[1], &d[2], &d[3], &d[4], &d[5], &d[6], &d[7]);
    for i in 0..8 {
        assert_eq!(h[i], blake2s(&d[i]));
    }
}
''', miri=("x86_64-unknown-linux-gnu", "-Ctarget-feature=+avx2", ''))

plant("c13-clone-from-keeps-key", "C13",
    [(L, "#[derive(Clone)]\npub struct Params {", "pub struct Params {"),
     (L, "impl Default for Params {", """impl Clone for Params {
    fn clone(&self) -> Self {
        Self {
            salt: self.salt,
            ..Self { key: self.key, personal: self.personal, ..*self }
        }
    }

    // Copying the key only as far as it goes.
    fn clone_from(&mut self, source: &Self) {
        let n = source.key_length as usize;
        self.key[..n].copy_from_slice(&source.key[..n]);
        let key = self.key;
        *self = source.clone();
        self.key = key;
    }
}

impl Default for Params {""")],
    "Params::clone_from a keyed description over one with a longer key", "The old key's tail remains behind the new key.",
    '''
fn main() {
    let mut p = Params::new();
    p.key(&[7; 32]);
    let mut q = Params::new();
    q.key(b"short");
    p.clone_from(&q);
    assert_eq!(p.to_state().update(b"abc").finalize(), q.to_state().update(b"abc").finalize());
}
''')

plant("c16-ne-early-exit", "C16",
    (L, """        constant_time_eq::constant_time_eq(&self.as_bytes(), &other.as_bytes())
    }
}
""", """        constant_time_eq::constant_time_eq(&self.as_bytes(), &other.as_bytes())
    }

    // Different lengths are told apart first.
    fn ne(&self, other: &Hash) -> bool {
        self.len != other.len || self.as_bytes().iter().zip(other.as_bytes()).any(|(x, y)| x != y)
    }
}
"""),
    "hashes compared by !=", "The comparison ends at the first byte that differs.",
    STEP + '''
fn main() {
    // Hashes of 2 bytes: same first byte against different first byte.
    let p = Params::new().hash_length(2).clone();
    let h = |i: u32| p.to_state().update(&i.to_le_bytes()).finalize();
    let a = h(0);
    let mut counts = std::collections::BTreeSet::new();
    for i in 1..3000 {
        let b = h(i);
        if a.as_bytes() != b.as_bytes() {
            counts.insert(steps(&|| a != b).0);
        }
    }
    assert_eq!(counts.len(), 1, "instruction counts: {:?}", counts);
}
''')

# Programs for 32-bit x86.
PRELUDE32 = '''#![no_std]
#![no_main]
#![allow(dead_code, unused_imports)]
use blake2s_simd::{blake2s, Params, State};
use core::arch::{asm, global_asm};

global_asm!(".globl _start", "_start:", "and esp, -16", "call run");

fn exit(code: usize) -> ! {
    loop {
        unsafe { asm!("push ebx", "mov ebx, {a}", "int 0x80", "pop ebx", a = in(reg) code, inlateout("eax") 1usize => _) };
    }
}
#[panic_handler]
fn panic(_: &core::panic::PanicInfo) -> ! {
    exit(101)
}
#[no_mangle]
extern "C" fn run() -> ! {
    exit(if holds() { 0 } else { 1 })
}
static PIECE: [u8; 1 << 16] = [0x5a; 1 << 16];

'''

def add(id, property, needs, breaks, edits, demo, **kw):
    plant(id, property, edits, needs, breaks, demo, **kw)

add("c11-count-usize32", "C11", "a 32-bit target, and a state fed more than 2^32 bytes (whole blocks taken straight from the input)",
    "State::update keeps the running count in a usize: on 32-bit targets it wraps at 4 GiB, and the digest and count() are those of a shorter message",
    [("src/lib.rs", "            self.count += BLOCKBYTES as u64;\n            let block = array_ref!(input, 0, BLOCKBYTES);\n            unsafe {\n                (self.compress_fn)(&mut self.h, block, self.count, 0, 0);",
      "            let compressed = (self.count as usize).wrapping_add(BLOCKBYTES);\n            self.count = compressed as u64;\n            let block = array_ref!(input, 0, BLOCKBYTES);\n            unsafe {\n                (self.compress_fn)(&mut self.h, block, self.count, 0, 0);")],
    '''
fn holds() -> bool {
    let mut s = State::new();
    for _ in 0..(1 << 16) + 1 {
        s.update(&PIECE);
    }
    s.count() == (1 << 32) + (1 << 16)
}
''', i686=True)

add("c11-count-high-usize32", "C11", "a 32-bit target, and a state fed more than 2^32 bytes",
    "the portable compression takes the counter's high word from a usize, which on 32-bit targets is always zero: past 4 GiB the digest is wrong though count() is right",
    [("src/portable.rs", "        IV[5] ^ (count >> 32) as u32,", "        IV[5] ^ ((count as usize as u64) >> 32) as u32,")],
    '''
// Zeros, 2^32 + 65536 of them; the state's own answer on a 64-bit machine.
fn holds() -> bool {
    static ZERO: [u8; 1 << 16] = [0; 1 << 16];
    let mut s = State::new();
    for _ in 0..(1 << 16) + 1 {
        s.update(&ZERO);
    }
    &s.finalize().to_hex()[..] == "e3dd557824825ca89c34d47d2a0610995d7b997599665860ceadbc8c1c6d7fd6"
}
''', i686=True)

add("c19-node-offset-usize32", "C19", "a 32-bit target, and a node offset of 2^32 or more",
    "the node offset goes into the parameter block through a usize, so that 32-bit targets drop its upper bits and give other digests than 64-bit ones",
    [("src/lib.rs", "            IV[2] ^ (self.node_offset as u32),\n            IV[3]\n                ^ (self.node_offset >> 32) as u32",
      "            IV[2] ^ (self.node_offset as u32),\n            IV[3]\n                ^ (self.node_offset as usize as u64 >> 32) as u32")],
    '''
fn holds() -> bool {
    // What 64-bit machines and the specification say.
    &Params::new().node_offset(0x1234_0000_0007).to_state().update(b"abc").finalize().to_hex()[..] == "9ac65eb63ac2cc4d933d80483a462a65d026ae66baff37c52b16f6a535459942"
}
''', i686=True)

add("c24-count-assert32", "C24", "a 32-bit target with debug assertions, and a state fed 2^32 bytes or more",
    "State::update asserts (in debug builds) that the count fits a usize, so that on 32-bit targets hashing past 4 GiB panics",
    [("src/lib.rs", "        self.fill_buf(&mut input);\n        self\n    }\n\n    /// Finalize the state and return a `Hash`. This",
      "        self.fill_buf(&mut input);\n        debug_assert_eq!(self.count, self.count as usize as u64);\n        self\n    }\n\n    /// Finalize the state and return a `Hash`. This")],
    '''
fn holds() -> bool {
    let mut s = State::new();
    for _ in 0..(1 << 16) + 1 {
        s.update(&PIECE);
    }
    s.count() == (1 << 32) + (1 << 16)
}
''', i686=True, profile="debug-assertions = true\n")
