//! Reference model of BLAKE2s / BLAKE2sp, written from RFC 7693 and the BLAKE2 paper. It shares no
//! code with the crate under test and is itself checked against vectors (see selftest.rs).

pub const IV: [u32; 8] = [
    0x6A09E667, 0xBB67AE85, 0x3C6EF372, 0xA54FF53A, 0x510E527F, 0x9B05688C, 0x1F83D9AB, 0x5BE0CD19,
];

const SIGMA: [[usize; 16]; 10] = [
    [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15],
    [14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3],
    [11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4],
    [7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8],
    [9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13],
    [2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9],
    [12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11],
    [13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10],
    [6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5],
    [10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0],
];

#[inline(always)]
fn mix(v: &mut [u32; 16], a: usize, b: usize, c: usize, d: usize, x: u32, y: u32) {
    v[a] = v[a].wrapping_add(v[b]).wrapping_add(x);
    v[d] = (v[d] ^ v[a]).rotate_right(16);
    v[c] = v[c].wrapping_add(v[d]);
    v[b] = (v[b] ^ v[c]).rotate_right(12);
    v[a] = v[a].wrapping_add(v[b]).wrapping_add(y);
    v[d] = (v[d] ^ v[a]).rotate_right(8);
    v[c] = v[c].wrapping_add(v[d]);
    v[b] = (v[b] ^ v[c]).rotate_right(7);
}

/// RFC 7693 section 3.2, with both finalization words.
pub fn compress(h: &mut [u32; 8], block: &[u8; 64], t: u64, f0: u32, f1: u32) {
    let mut m = [0u32; 16];
    for (i, w) in m.iter_mut().enumerate() {
        *w = u32::from_le_bytes([block[4 * i], block[4 * i + 1], block[4 * i + 2], block[4 * i + 3]]);
    }
    let mut v = [0u32; 16];
    v[..8].copy_from_slice(h);
    v[8..].copy_from_slice(&IV);
    v[12] ^= t as u32;
    v[13] ^= (t >> 32) as u32;
    v[14] ^= f0;
    v[15] ^= f1;
    macro_rules! rounds {
        ($($r:expr),*) => {$({
            let s = &SIGMA[$r];
            mix(&mut v, 0, 4, 8, 12, m[s[0]], m[s[1]]);
            mix(&mut v, 1, 5, 9, 13, m[s[2]], m[s[3]]);
            mix(&mut v, 2, 6, 10, 14, m[s[4]], m[s[5]]);
            mix(&mut v, 3, 7, 11, 15, m[s[6]], m[s[7]]);
            mix(&mut v, 0, 5, 10, 15, m[s[8]], m[s[9]]);
            mix(&mut v, 1, 6, 11, 12, m[s[10]], m[s[11]]);
            mix(&mut v, 2, 7, 8, 13, m[s[12]], m[s[13]]);
            mix(&mut v, 3, 4, 9, 14, m[s[14]], m[s[15]]);
        })*};
    }
    rounds!(0, 1, 2, 3, 4, 5, 6, 7, 8, 9);
    for i in 0..8 {
        h[i] ^= v[i] ^ v[i + 8];
    }
}

/// Everything that identifies a BLAKE2s instance. Key, salt and personalization as given.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct RParams {
    pub digest_len: u8,
    pub key: Vec<u8>,
    pub salt: Vec<u8>,
    pub personal: Vec<u8>,
    pub fanout: u8,
    pub depth: u8,
    pub leaf_len: u32,
    pub node_offset: u64,
    pub node_depth: u8,
    pub inner_len: u8,
    pub last_node: bool,
}

impl Default for RParams {
    fn default() -> Self {
        RParams {
            digest_len: 32,
            key: vec![],
            salt: vec![],
            personal: vec![],
            fanout: 1,
            depth: 1,
            leaf_len: 0,
            node_offset: 0,
            node_depth: 0,
            inner_len: 0,
            last_node: false,
        }
    }
}

impl RParams {
    /// The 32-byte parameter block of the BLAKE2 paper, table 2.2.
    pub fn block(&self) -> [u8; 32] {
        let mut b = [0u8; 32];
        b[0] = self.digest_len;
        b[1] = self.key.len() as u8;
        b[2] = self.fanout;
        b[3] = self.depth;
        b[4..8].copy_from_slice(&self.leaf_len.to_le_bytes());
        b[8..14].copy_from_slice(&self.node_offset.to_le_bytes()[..6]);
        b[14] = self.node_depth;
        b[15] = self.inner_len;
        b[16..16 + self.salt.len()].copy_from_slice(&self.salt);
        b[24..24 + self.personal.len()].copy_from_slice(&self.personal);
        b
    }

    pub fn initial(&self) -> [u32; 8] {
        let b = self.block();
        let mut h = IV;
        for i in 0..8 {
            h[i] ^= u32::from_le_bytes([b[4 * i], b[4 * i + 1], b[4 * i + 2], b[4 * i + 3]]);
        }
        h
    }
}

fn words_to_bytes(h: &[u32; 8]) -> [u8; 32] {
    let mut out = [0u8; 32];
    for i in 0..8 {
        out[4 * i..4 * i + 4].copy_from_slice(&h[i].to_le_bytes());
    }
    out
}

/// Incremental model: the last block (which may be the final one) is kept back uncompressed.
#[derive(Clone, Debug)]
pub struct RStream {
    h: [u32; 8],
    t: u64,
    held: [u8; 64],
    nheld: usize,
    pub digest_len: u8,
    pub last_node: bool,
    /// message bytes fed (no key)
    pub fed: u64,
}

impl RStream {
    pub fn new(p: &RParams) -> Self {
        Self::with_key_block(p, true)
    }

    /// BLAKE2sp's root is parameterised with the key length but never sees the key block.
    fn with_key_block(p: &RParams, key_block: bool) -> Self {
        let mut s = RStream {
            h: p.initial(),
            t: 0,
            held: [0; 64],
            nheld: 0,
            digest_len: p.digest_len,
            last_node: p.last_node,
            fed: 0,
        };
        if key_block && !p.key.is_empty() {
            let mut kb = [0u8; 64];
            kb[..p.key.len()].copy_from_slice(&p.key);
            s.feed(&kb);
            s.fed = 0;
        }
        s
    }

    pub fn feed(&mut self, mut data: &[u8]) {
        self.fed += data.len() as u64;
        while !data.is_empty() {
            if self.nheld == 64 {
                self.t += 64;
                compress(&mut self.h, &self.held, self.t, 0, 0);
                self.nheld = 0;
                // Whole blocks known not to be last.
                while data.len() > 64 {
                    let mut block = [0u8; 64];
                    block.copy_from_slice(&data[..64]);
                    self.t += 64;
                    compress(&mut self.h, &block, self.t, 0, 0);
                    data = &data[64..];
                }
            }
            let n = data.len().min(64 - self.nheld);
            self.held[self.nheld..self.nheld + n].copy_from_slice(&data[..n]);
            self.nheld += n;
            data = &data[n..];
        }
    }

    /// Bytes of the block kept back, 0 to 64.
    pub fn held(&self) -> usize {
        self.nheld
    }

    pub fn full_digest(&self) -> [u8; 32] {
        let mut block = [0u8; 64];
        block[..self.nheld].copy_from_slice(&self.held[..self.nheld]);
        let mut h = self.h;
        let t = self.t + self.nheld as u64;
        compress(&mut h, &block, t, !0, if self.last_node { !0 } else { 0 });
        words_to_bytes(&h)
    }

    pub fn digest(&self) -> Vec<u8> {
        self.full_digest()[..self.digest_len as usize].to_vec()
    }
}

/// Whole-message BLAKE2s, written separately from RStream: pad key block and message into one
/// byte string, then compress block by block.
pub fn hash_whole(p: &RParams, msg: &[u8]) -> Vec<u8> {
    let mut h = p.initial();
    let mut head: Vec<u8> = Vec::new();
    if !p.key.is_empty() {
        head.extend_from_slice(&p.key);
        head.resize(64, 0);
    }
    let total = head.len() + msg.len();
    let nblocks = std::cmp::max(1, (total + 63) / 64);
    let get = |i: usize| -> u8 {
        if i < head.len() {
            head[i]
        } else if i < total {
            msg[i - head.len()]
        } else {
            0
        }
    };
    for b in 0..nblocks {
        let mut block = [0u8; 64];
        let start = b * 64;
        if start >= head.len() && start + 64 <= total {
            block.copy_from_slice(&msg[start - head.len()..][..64]);
        } else {
            for (j, x) in block.iter_mut().enumerate() {
                *x = get(start + j);
            }
        }
        let last = b == nblocks - 1;
        let t = if last { total as u64 } else { (start + 64) as u64 };
        compress(
            &mut h,
            &block,
            t,
            if last { !0 } else { 0 },
            if last && p.last_node { !0 } else { 0 },
        );
    }
    words_to_bytes(&h)[..p.digest_len as usize].to_vec()
}

fn sp_node(digest_len: u8, key: &[u8], offset: u64, depth: u8, last: bool) -> RParams {
    RParams {
        digest_len,
        key: key.to_vec(),
        fanout: 8,
        depth: 2,
        node_offset: offset,
        node_depth: depth,
        inner_len: 32,
        last_node: last,
        ..RParams::default()
    }
}

/// Incremental BLAKE2sp model.
#[derive(Clone)]
pub struct RSp {
    leaves: Vec<RStream>,
    root: RStream,
    pub digest_len: u8,
    pub fed: u64,
}

impl RSp {
    pub fn new(digest_len: u8, key: &[u8]) -> Self {
        RSp {
            leaves: (0..8)
                .map(|i| RStream::new(&sp_node(digest_len, key, i, 0, i == 7)))
                .collect(),
            root: RStream::with_key_block(&sp_node(digest_len, key, 0, 1, true), false),
            digest_len,
            fed: 0,
        }
    }

    pub fn feed(&mut self, mut data: &[u8]) {
        while !data.is_empty() {
            let leaf = ((self.fed / 64) % 8) as usize;
            let room = 64 - (self.fed % 64) as usize;
            let n = room.min(data.len());
            self.leaves[leaf].feed(&data[..n]);
            self.fed += n as u64;
            data = &data[n..];
        }
    }

    /// The root's whole output.
    pub fn full_digest(&self) -> Vec<u8> {
        let mut root = self.root.clone();
        for l in &self.leaves {
            root.feed(&l.full_digest());
        }
        root.full_digest().to_vec()
    }

    pub fn digest(&self) -> Vec<u8> {
        self.full_digest()[..self.digest_len as usize].to_vec()
    }

    /// Builds the state after `fed` bytes (a multiple of 512) from separately fed leaves.
    pub fn from_leaves(digest_len: u8, key: &[u8], leaves: Vec<RStream>, fed: u64) -> Self {
        assert!(fed % 512 == 0);
        let mut s = RSp::new(digest_len, key);
        s.leaves = leaves;
        s.fed = fed;
        s
    }

    pub fn leaf_params(digest_len: u8, key: &[u8], i: u64) -> RParams {
        sp_node(digest_len, key, i, 0, i == 7)
    }
}

/// Whole-message BLAKE2sp, from hash_whole on explicitly collected leaf messages.
pub fn hash_whole_sp(digest_len: u8, key: &[u8], msg: &[u8]) -> Vec<u8> {
    let mut parts: Vec<Vec<u8>> = vec![Vec::new(); 8];
    for (i, c) in msg.chunks(64).enumerate() {
        parts[i % 8].extend_from_slice(c);
    }
    let mut cat = Vec::new();
    for (i, m) in parts.iter().enumerate() {
        let mut p = sp_node(digest_len, key, i as u64, 0, i == 7);
        let mut h = LeafWhole(&mut p).digest(m);
        cat.append(&mut h);
    }
    // Root: key length in the parameter block, no key block.
    let p = sp_node(digest_len, key, 0, 1, true);
    let mut h = p.initial();
    for b in 0..4 {
        let mut block = [0u8; 64];
        block.copy_from_slice(&cat[b * 64..][..64]);
        let last = b == 3;
        let f = if last { !0 } else { 0 };
        compress(&mut h, &block, 64 * (b as u64 + 1), f, f);
    }
    words_to_bytes(&h)[..digest_len as usize].to_vec()
}

/// A leaf outputs 32 bytes although its parameter block carries the root's digest length.
struct LeafWhole<'a>(&'a mut RParams);
impl<'a> LeafWhole<'a> {
    fn digest(&mut self, m: &[u8]) -> Vec<u8> {
        let p = &*self.0;
        let mut s = RStream::new(p);
        s.feed(m);
        s.full_digest().to_vec()
    }
}
