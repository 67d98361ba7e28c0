//! Every generated case, as data: printable, replayable, shrinkable.
use crate::data::Data;
use crate::refimpl::RParams;
use serde::{Deserialize, Serialize};

/// BLAKE2s parameters. `x`: call every setter explicitly, even with default values.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub struct P {
    pub hl: u8,
    pub key: Vec<u8>,
    pub salt: Vec<u8>,
    pub pers: Vec<u8>,
    pub fo: u8,
    pub md: u8,
    pub leaf: u32,
    pub off: u64,
    pub nd: u8,
    pub inner: u8,
    pub last: bool,
    pub x: bool,
}

impl Default for P {
    fn default() -> Self {
        P {
            hl: 32,
            key: vec![],
            salt: vec![],
            pers: vec![],
            fo: 1,
            md: 1,
            leaf: 0,
            off: 0,
            nd: 0,
            inner: 0,
            last: false,
            x: false,
        }
    }
}

impl P {
    pub fn is_default(&self) -> bool {
        let mut q = self.clone();
        q.x = false;
        q == P::default()
    }
    pub fn model(&self) -> RParams {
        RParams {
            digest_len: self.hl,
            key: self.key.clone(),
            salt: self.salt.clone(),
            personal: self.pers.clone(),
            fanout: self.fo,
            depth: self.md,
            leaf_len: self.leaf,
            node_offset: self.off,
            node_depth: self.nd,
            inner_len: self.inner,
            last_node: self.last,
        }
    }
    pub fn varied(&self, v: u64) -> P {
        let mut p = self.clone();
        if v != 0 {
            vary_key(v, &mut p.key);
        }
        p
    }
}

/// Other bytes of the same number: random, or of a striking pattern, or one bit off.
pub fn vary_key(v: u64, key: &mut [u8]) {
    let n = key.len();
    match v % 8 {
        0 => crate::data::fill(0, 0, key),
        1 => crate::data::fill(1, 0, key),
        2 => crate::data::fill(2, v, key),
        3 if n > 0 => key[v as usize / 8 % n] ^= 1 << (v / 512 % 8),
        4 => key.iter_mut().for_each(|b| *b = b'a' + (v / 8 % 26) as u8),
        _ => crate::data::fill(4, v ^ 0x6b6579 ^ n as u64, key),
    }
}

/// BLAKE2sp parameters.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub struct Q {
    pub hl: u8,
    pub key: Vec<u8>,
}

impl Q {
    pub fn is_default(&self) -> bool {
        self.hl == 32 && self.key.is_empty()
    }
    pub fn varied(&self, v: u64) -> Q {
        let mut p = self.clone();
        if v != 0 {
            vary_key(v, &mut p.key);
        }
        p
    }
}

/// One step of a history over a pool of BLAKE2s states (slots) and BLAKE2sp states.
/// Slot numbers are taken modulo the pool size; an untouched slot holds a default state.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub enum Op {
    New { i: u8, p: P },
    /// how: 0 State::new, 1 State::default, 2 Params::default().to_state()
    NewDef { i: u8, how: u8 },
    /// A clone of a prepared state that has been fed about 4 GiB.
    Big { i: u8, w: u8 },
    Up { i: u8, d: Data },
    /// The same data in chunks of c bytes.
    UpMany { i: u8, d: Data, c: usize },
    Wr { i: u8, d: Data, how: u8 },
    Fin { i: u8, times: u8 },
    Cl { i: u8, j: u8 },
    Last { i: u8, v: bool },
    Port { i: u8 },
    /// lanes: successive picks of distinct slots.
    Up8 { lanes: [u8; 8], d: [Data; 8] },
    Fin8 { lanes: [u8; 8] },
    SNew { i: u8, q: Q },
    SNewDef { i: u8, how: u8 },
    SUp { i: u8, d: Data },
    SUpMany { i: u8, d: Data, c: usize },
    SWr { i: u8, d: Data, how: u8 },
    SFin { i: u8, times: u8 },
    SPort { i: u8 },
    /// The steps n times over.
    Rep { n: u32, ops: Vec<Op> },
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub enum Call {
    Hl(usize),
    Key(Data),
    Salt(Data),
    Pers(Data),
    Fo(u8),
    Md(u8),
    Leaf(u32),
    Off(u64),
    Nd(u8),
    Inner(usize),
    Last(bool),
    /// Continue on a clone; the original is then given other values and must not matter.
    Clone,
    /// Build a state now; it must keep the values of now.
    ToState,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub enum Mutation {
    FlipBit(u64),
    Append(u8),
    Truncate,
    MoveKeyToMessage,
    KeyLen(u8),
    KeyBit(u16),
    SaltBit(u8),
    PersBit(u8),
    SwapSaltPers,
    Hl(u8),
    Fo(u8),
    Md(u8),
    LeafBit(u8),
    OffBit(u8),
    Nd(u8),
    Inner(u8),
    Last,
    OtherAlg,
    SwapBlocks(u8, u8),
}

/// A use of one interface by objects that have taken `pre` bytes before.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub struct Side {
    pub what: u8,
    pub p: P,
    pub q: Q,
    pub pre: usize,
    pub d: Vec<Data>,
    pub cut: Vec<usize>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub enum Case {
    /// Whole message through one state (and the one-shot function when parameters are default).
    One { p: P, d: Data },
    OneSp { q: Q, d: Data },
    Prog { ops: Vec<Op> },
    Hash8 { p: Vec<P>, d: Vec<Data> },
    /// hash4_exact (4 inputs) or hash8_exact (8 inputs), well- or ill-formed.
    Exact { p: P, d: Vec<Data> },
    /// Inputs longer than 64 to every kernel.
    Kernel { h: Vec<[u32; 8]>, m: Vec<Data>, t: Vec<u64>, lb: u8, ln: u8, rot: u8 },
    Setters { sp: bool, calls: Vec<Call>, d: Data },
    Mutant { iface: u8, p: P, d: Data, m: Vec<Mutation>, lane: u8 },
    /// A whole set of related descriptions, pairwise compared.
    Family { iface: u8, p: P, d: Data, fam: u8, lane: u8 },
    /// `a` zero bytes where 2^32 more or less must not go unnoticed.
    Giant { what: u8, a: u64, b: u8 },
    HashV { via: u8, hl1: u8, hl2: u8, d1: Data, d2: Data, flip: u16, cut: u8, ext: u8, collide: bool },
    CtEq { hl: u8, slice: bool, d: Data, flips: Vec<Vec<u8>> },
    Dbg { ops: Vec<Op>, v: u64 },
    Threads { progs: Vec<Vec<Op>> },
    /// Each history on a thread of its own, from the start, in a process that has not used the crate yet.
    Fresh { progs: Vec<Vec<Op>> },
    /// One use of one interface (`what`), doing nothing else, while it is being watched (`mode`): for its
    /// instructions with other contents (0), for heap and stack (1), for the number of instructions (2).
    Call {
        mode: u8,
        what: u8,
        p: P,
        q: Q,
        d: Vec<Data>,
        cut: Vec<usize>,
        v: Vec<u64>,
        /// The states have taken so much before.
        #[serde(default)]
        pre: usize,
    },
    /// One use of one interface, interrupted between its instructions by whole uses on another thread: from
    /// instruction `at` (modulo how many there are) every `every`-th (0: a hundredth of them).
    Inter { a: Side, b: Side, same: bool, at: u32, every: u16 },
    /// Executed by the long-input driver (pbt big).
    Deep { what: String, deltas: Vec<i64>, seed: u64 },
}
