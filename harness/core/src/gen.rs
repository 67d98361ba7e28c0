//! proptest strategies for cases.
use crate::case::*;
use crate::data::{Data, KINDS};
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;

pub type S<T> = BoxedStrategy<T>;

/// Message lengths: dense where block logic lives, thinner above, up to 2^top.
pub fn len(top: u32) -> S<usize> {
    let cap = 1usize << top;
    if top >= 20 {
        // Long ones, with some short neighbours.
        return prop_oneof![
            1 => len(14),
            4 => (16u32..top).prop_flat_map(|k| (1usize << k)..(2usize << k)),
            2 => (17u32..=top, -130i64..=130).prop_map(|(k, d)| ((1i64 << k) + d) as usize),
        ]
        .boxed();
    }
    prop_oneof![
        5 => 0usize..=200,
        4 => (0usize..=40, -2i64..=2).prop_map(|(k, d)| (k as i64 * 64 + d).max(0) as usize),
        2 => (0usize..=9, -66i64..=66).prop_map(|(k, d)| (k as i64 * 512 + d).max(0) as usize),
        2 => 0usize..=4096,
        1 => (7u32..=top.max(8), -130i64..=130).prop_map(|(k, d)| ((1i64 << k) + d).max(0) as usize),
        1 => (6u32..top.max(7)).prop_flat_map(|k| (1usize << k)..(2usize << k)),
    ]
    .prop_map(move |n| n.min(cap + 200))
    .boxed()
}
pub fn small_len() -> S<usize> {
    prop_oneof![
        3 => 0usize..=140,
        2 => (0usize..=6, -2i64..=2).prop_map(|(k, d)| (k as i64 * 64 + d).max(0) as usize),
        1 => 0usize..=700,
    ]
    .boxed()
}

pub fn with_len(l: S<usize>) -> S<Data> {
    (prop_oneof![3 => Just(4u8), 1 => 0u8..KINDS], any::<u64>(), l, prop_oneof![1 => Just(0u8), 2 => 0u8..64])
        .prop_map(|(k, s, n, a)| Data { k, s, n, a, r: vec![] })
        .boxed()
}
pub fn data(top: u32) -> S<Data> {
    with_len(len(top))
}
pub fn small_data() -> S<Data> {
    with_len(small_len())
}

fn bytes(lo: usize, hi: usize) -> S<Vec<u8>> {
    prop_oneof![
        4 => proptest::collection::vec(any::<u8>(), lo..=hi),
        1 => (lo..=hi).prop_map(|n| vec![0; n]),
        1 => (lo..=hi).prop_map(|n| vec![0xff; n]),
        1 => (lo..=hi, any::<u8>(), 0u8..4).prop_map(|(n, x, step)| (0..n).map(|i| x.wrapping_add(step.wrapping_mul(i as u8))).collect()),
    ]
    .boxed()
}
pub fn key() -> S<Vec<u8>> {
    prop_oneof![5 => Just(vec![]), 3 => bytes(32, 32), 1 => bytes(31, 31), 1 => bytes(1, 1), 4 => bytes(1, 32)].boxed()
}
pub fn hl() -> S<u8> {
    prop_oneof![4 => Just(32u8), 1 => Just(1u8), 1 => Just(31), 5 => 1u8..=32].boxed()
}
fn short8() -> S<Vec<u8>> {
    prop_oneof![3 => Just(vec![]), 3 => bytes(8, 8), 3 => bytes(0, 8)].boxed()
}
fn byte(dflt: u8, lo: u8) -> S<u8> {
    prop_oneof![3 => Just(dflt), 1 => Just(lo), 1 => Just(255u8), 1 => Just(lo.max(2)), 3 => lo..=255].boxed()
}
pub fn leaf() -> S<u32> {
    prop_oneof![3 => Just(0u32), 1 => Just(u32::MAX), 2 => (0u32..32).prop_map(|k| 1 << k), 3 => any::<u32>()].boxed()
}
pub fn off() -> S<u64> {
    prop_oneof![
        3 => Just(0u64),
        1 => Just((1u64 << 48) - 1),
        2 => (0u32..48).prop_map(|k| 1u64 << k),
        1 => (-3i64..=3).prop_map(|d| ((1i64 << 32) + d) as u64),
        3 => 0u64..1 << 48,
    ]
    .boxed()
}

fn full_p() -> S<P> {
    (
        (hl(), key(), short8(), short8(), byte(1, 0), byte(1, 1)),
        (leaf(), off(), byte(0, 0), prop_oneof![3 => Just(0u8), 1 => Just(32), 3 => 0u8..=32], any::<bool>(), any::<bool>()),
    )
        .prop_map(|((hl, key, salt, pers, fo, md), (leaf, off, nd, inner, last, x))| P {
            hl,
            key,
            salt,
            pers,
            fo,
            md,
            leaf,
            off,
            nd,
            inner,
            last,
            x,
        })
        .boxed()
}
/// Half of the parameter sets differ from the default in few fields.
pub fn params() -> S<P> {
    prop_oneof![
        1 => Just(P::default()),
        3 => (full_p(), 0u16..1 << 11, 0u16..1 << 11).prop_map(|(p, a, b)| {
            let keep = a & b;
            let d = P::default();
            let k = |i: u16| keep >> i & 1 == 1;
            P {
                hl: if k(0) { p.hl } else { d.hl },
                key: if k(1) { p.key } else { d.key },
                salt: if k(2) { p.salt } else { d.salt },
                pers: if k(3) { p.pers } else { d.pers },
                fo: if k(4) { p.fo } else { d.fo },
                md: if k(5) { p.md } else { d.md },
                leaf: if k(6) { p.leaf } else { d.leaf },
                off: if k(7) { p.off } else { d.off },
                nd: if k(8) { p.nd } else { d.nd },
                inner: if k(9) { p.inner } else { d.inner },
                last: k(10),
                x: p.x,
            }
        }),
        4 => full_p(),
    ]
    .boxed()
}
pub fn unkeyed() -> S<P> {
    params().prop_map(|mut p| { p.key.clear(); p }).boxed()
}
pub fn params_sp() -> S<Q> {
    (hl(), key()).prop_map(|(hl, key)| Q { hl, key }).boxed()
}

// --- histories -------------------------------------------------------------------------------

#[derive(Clone, Copy, Default)]
pub struct Mix {
    pub new: u32,
    pub up: u32,
    pub many: u32,
    pub wr: u32,
    pub fin: u32,
    pub cl: u32,
    pub last: u32,
    pub port: u32,
    pub up8: u32,
    pub fin8: u32,
    pub big: u32,
    pub snew: u32,
    pub sup: u32,
    pub smany: u32,
    pub swr: u32,
    pub sfin: u32,
    pub sport: u32,
    pub slots: u8,
    pub spslots: u8,
    pub top: u32,
    pub small: bool,
}

fn lanes() -> S<[u8; 8]> {
    prop_oneof![1 => Just([0u8; 8]), 3 => any::<[u8; 8]>()].boxed()
}

/// Eight inputs: equal lengths, nearly equal ones, one odd lane, or unrelated.
pub fn eight(top: u32, small: bool) -> S<[Data; 8]> {
    let l = move || if small { small_len() } else { len(top) };
    let lens = prop_oneof![
        2 => l().prop_map(|n| [n; 8]),
        3 => (l(), proptest::array::uniform8(0usize..=140)).prop_map(|(n, d)| std::array::from_fn(|i| n + d[i])),
        2 => (l(), l(), 0usize..8).prop_map(|(n, m, k)| std::array::from_fn(|i| if i == k { m } else { n })),
        1 => proptest::array::uniform8(l()),
        2 => (2usize..12, proptest::array::uniform8((0usize..4, -1i64..=1)))
            .prop_map(|(n, d)| std::array::from_fn(|i| ((n + d[i].0) as i64 * 64 + d[i].1) as usize)),
    ];
    (
        lens,
        prop_oneof![4 => Just(4u8), 1 => 0u8..KINDS],
        any::<u64>(),
        prop_oneof![1 => Just([0u8; 8]), 2 => proptest::array::uniform8(0u8..64)],
        // Which lanes share an input.
        prop_oneof![
            6 => Just([0u8, 1, 2, 3, 4, 5, 6, 7]),
            1 => Just([0u8; 8]),
            2 => proptest::array::uniform8(0u8..8),
        ],
    )
        .prop_map(|(n, k, s, a, g)| {
            std::array::from_fn(|i| {
                let j = g[i] as usize;
                Data { k, s: s.wrapping_add(j as u64 * 0x1_0000_0001), n: n[i], a: a[j], r: vec![] }
            })
        })
        .boxed()
}

fn times() -> S<u8> {
    prop_oneof![60 => 1u8..4, 1 => Just(255u8)].boxed()
}

pub fn op(m: Mix) -> S<Op> {
    let d = move || if m.small { small_data() } else { data(m.top) };
    let i = move || (0u8..m.slots.max(1)).boxed();
    let j = move || (0u8..m.spslots.max(1)).boxed();
    let chunk = || prop_oneof![2 => 1usize..=3, 2 => 60usize..=68, 2 => 1usize..=200, 1 => 500usize..=530, 1 => 900usize..1100];
    let mut v: Vec<(u32, S<Op>)> = Vec::new();
    if m.new > 0 {
        v.push((m.new, (i(), params()).prop_map(|(i, p)| Op::New { i, p }).boxed()));
        v.push((1, (i(), 0u8..4).prop_map(|(i, how)| Op::NewDef { i, how }).boxed()));
    }
    if m.big > 0 {
        v.push((m.big, (i(), any::<u8>()).prop_map(|(i, w)| Op::Big { i, w }).boxed()));
    }
    if m.up > 0 {
        v.push((m.up, (i(), d()).prop_map(|(i, d)| Op::Up { i, d }).boxed()));
        // Most histories live near block boundaries.
        v.push((m.up / 2, (i(), small_data()).prop_map(|(i, d)| Op::Up { i, d }).boxed()));
    }
    if m.many > 0 {
        v.push((m.many, (i(), small_data(), chunk()).prop_map(|(i, d, c)| Op::UpMany { i, d, c }).boxed()));
    }
    if m.wr > 0 {
        v.push((m.wr, (i(), d(), any::<u8>()).prop_map(|(i, d, how)| Op::Wr { i, d, how }).boxed()));
    }
    if m.fin > 0 {
        v.push((m.fin, (i(), times()).prop_map(|(i, times)| Op::Fin { i, times }).boxed()));
    }
    if m.cl > 0 {
        v.push((m.cl, (i(), i()).prop_map(|(i, j)| Op::Cl { i, j }).boxed()));
    }
    if m.last > 0 {
        v.push((m.last, (i(), any::<bool>()).prop_map(|(i, v)| Op::Last { i, v }).boxed()));
    }
    if m.port > 0 {
        v.push((m.port, i().prop_map(|i| Op::Port { i }).boxed()));
    }
    if m.up8 > 0 {
        v.push((m.up8, (lanes(), eight(m.top, m.small)).prop_map(|(lanes, d)| Op::Up8 { lanes, d }).boxed()));
    }
    if m.fin8 > 0 {
        v.push((m.fin8, lanes().prop_map(|lanes| Op::Fin8 { lanes }).boxed()));
    }
    if m.snew > 0 {
        v.push((m.snew, (j(), params_sp()).prop_map(|(i, q)| Op::SNew { i, q }).boxed()));
        v.push((1, (j(), 0u8..4).prop_map(|(i, how)| Op::SNewDef { i, how }).boxed()));
    }
    if m.sup > 0 {
        v.push((m.sup, (j(), d()).prop_map(|(i, d)| Op::SUp { i, d }).boxed()));
        let mid = prop_oneof![
            2 => (0usize..=20, -2i64..=2).prop_map(|(k, d)| (k as i64 * 64 + d).max(0) as usize),
            1 => 0usize..=1300,
        ]
        .boxed();
        v.push((m.sup / 2, (j(), with_len(mid)).prop_map(|(i, d)| Op::SUp { i, d }).boxed()));
    }
    if m.smany > 0 {
        let l = (0usize..=2600).boxed();
        v.push((m.smany, (j(), with_len(l), chunk()).prop_map(|(i, d, c)| Op::SUpMany { i, d, c }).boxed()));
    }
    if m.swr > 0 {
        v.push((m.swr, (j(), d(), any::<u8>()).prop_map(|(i, d, how)| Op::SWr { i, d, how }).boxed()));
    }
    if m.sfin > 0 {
        v.push((m.sfin, (j(), times()).prop_map(|(i, times)| Op::SFin { i, times }).boxed()));
    }
    if m.sport > 0 {
        v.push((m.sport, j().prop_map(|i| Op::SPort { i }).boxed()));
    }
    v.retain(|x| x.0 > 0);
    proptest::strategy::Union::new_weighted(v).boxed()
}

pub fn ops(m: Mix, max: usize) -> S<Vec<Op>> {
    // A fresh parameterised object first, most of the time.
    let mut head: Vec<(u32, S<Vec<Op>>)> = vec![(1, Just(vec![]).boxed())];
    if m.new > 0 {
        head.push((4, params().prop_map(|p| vec![Op::New { i: 0, p }]).boxed()));
    }
    if m.up8 > 0 && m.new > 0 {
        // Eight parameterised states with some history each.
        head.push((
            4,
            proptest::collection::vec((params(), small_data(), 0u8..3), 8..=8)
                .prop_map(|v| {
                    let mut o = Vec::new();
                    for (i, (p, d, f)) in v.into_iter().enumerate() {
                        let i = i as u8;
                        o.push(Op::New { i, p });
                        if f > 0 {
                            o.push(Op::Up { i, d });
                        }
                        if f > 1 {
                            o.push(Op::Fin { i, times: 1 });
                        }
                    }
                    o
                })
                .boxed(),
        ));
    }
    if m.snew > 0 {
        head.push((4, params_sp().prop_map(|q| vec![Op::SNew { i: 0, q }]).boxed()));
    }
    (proptest::strategy::Union::new_weighted(head), proptest::collection::vec(op(m), 1..=max))
        .prop_map(|(mut h, t)| {
            h.extend(t);
            h
        })
        .boxed()
}
pub fn prog(m: Mix, max: usize) -> S<Case> {
    ops(m, max).prop_map(|ops| Case::Prog { ops }).boxed()
}

/// Few steps, over and over on the same objects: hundreds of calls, sometimes more than 2^16.
pub fn many(m: Mix, top: u32) -> S<Case> {
    let n = prop_oneof![3 => 200u32..700, 1 => Just((1u32 << top) + 5)];
    let tiny = |o: Op| match o {
        Op::Up { i, d } => Op::Up { i, d: Data { n: d.n % 67, ..d } },
        Op::UpMany { i, d, c } => Op::UpMany { i, d: Data { n: d.n % 130, ..d }, c },
        Op::Wr { i, d, how } => Op::Wr { i, d: Data { n: d.n % 67, ..d }, how },
        Op::SUp { i, d } => Op::SUp { i, d: Data { n: d.n % 131, ..d } },
        Op::SUpMany { i, d, c } => Op::SUpMany { i, d: Data { n: d.n % 130, ..d }, c },
        Op::SWr { i, d, how } => Op::SWr { i, d: Data { n: d.n % 67, ..d }, how },
        Op::Up8 { lanes, d } => Op::Up8 { lanes, d: d.map(|d| Data { n: d.n % 131, ..d }) },
        Op::Fin { i, .. } => Op::Fin { i, times: 1 },
        Op::SFin { i, .. } => Op::SFin { i, times: 1 },
        o => o,
    };
    (ops(Mix { new: m.new, ..m }, 2), n, proptest::collection::vec(op(Mix { new: 0, snew: 0, big: 0, ..m }), 1..4), ops(m, 2))
        .prop_map(move |(mut a, n, r, b)| {
            a.push(Op::Rep { n, ops: r.into_iter().map(tiny).collect() });
            a.extend(b);
            Case::Prog { ops: a }
        })
        .boxed()
}

/// Histories on objects that have taken up to 2^top bytes before.
pub fn late(m: Mix, top: u32, max: usize) -> S<Case> {
    let much = move || {
        let n = (15..=top, any::<bool>(), 0usize..700).prop_map(|(k, up, x)| if up { (1 << k) + x } else { (1 << k) - x });
        let n = prop_oneof![2 => n, 1 => (1usize << 14)..(1 << top)];
        (with_len(n.boxed()), prop_oneof![2 => Just(0), 1 => 9_000usize..100_000])
    };
    let up = |i, (d, c): (Data, usize)| if c == 0 { Op::Up { i, d } } else { Op::UpMany { i, d, c } };
    let sup = |i, (d, c): (Data, usize)| if c == 0 { Op::SUp { i, d } } else { Op::SUpMany { i, d, c } };
    let mut head: Vec<(u32, S<Vec<Op>>)> = Vec::new();
    if m.new > 0 {
        head.push((1, (params(), much()).prop_map(move |(p, d)| vec![Op::New { i: 0, p }, up(0, d)]).boxed()));
    }
    if m.new > 0 && m.cl > 0 {
        // The other states go on from the first, most of them.
        head.push((
            if m.up8 > 0 { 2 } else { 1 },
            (params(), much(), params(), much(), any::<u16>())
                .prop_map(move |(p, d, p2, d2, which)| {
                    let mut o = vec![Op::New { i: 0, p }, up(0, d), Op::New { i: 1, p: p2 }, up(1, d2)];
                    o.extend((2..m.slots).map(|j| Op::Cl { i: (which >> j & 1) as u8, j }));
                    o
                })
                .boxed(),
        ));
    }
    if m.snew > 0 {
        head.push((2, (params_sp(), much()).prop_map(move |(q, d)| vec![Op::SNew { i: 0, q }, sup(0, d)]).boxed()));
    }
    // Mostly on the objects fed.
    let m = Mix { new: 0, snew: 0, slots: if m.cl > 0 { m.slots } else { m.slots.min(1) }, spslots: m.spslots.min(1), ..m };
    (proptest::strategy::Union::new_weighted(head), proptest::collection::vec(op(m), 1..=max))
        .prop_map(|(mut h, t)| {
            h.extend(t);
            Case::Prog { ops: h }
        })
        .boxed()
}

/// Nothing, little, or about a multiple of a power of two.
fn before_walk(top: u32) -> S<usize> {
    let far = (10..=top, 1usize..4, 0usize..1500, any::<bool>()).prop_map(|(k, m, x, less)| if less { (m << k) - x.min(1000) } else { (m << k) + x });
    prop_oneof![1 => Just(0usize), 1 => 0usize..3000, 3 => far].boxed()
}

/// Hundreds of updates from one block boundary to another (or a byte next to it), with finalizations between, now
/// and then after much input. `wr`: some by writing; `port`: portable from some point on.
pub fn walk(sp: bool, wr: bool, port: bool, steps: usize) -> S<Case> {
    let first = before_walk(21);
    let far = if sp { 18usize } else { 5 };
    let step = (0..=far, prop_oneof![12 => Just(0i64), 1 => Just(-1), 1 => Just(1)], 0u8..8, any::<u16>());
    (params(), params_sp(), first, proptest::collection::vec(step, 20..steps), any::<u64>(), any::<u16>())
        .prop_map(move |(p, q, first, v, s, at)| {
            let up = |d: Data, how: u8| match (sp, wr && how % 2 == 1) {
                (false, false) => Op::Up { i: 0, d },
                (false, true) => Op::Wr { i: 0, d, how },
                (true, false) => Op::SUp { i: 0, d },
                (true, true) => Op::SWr { i: 0, d, how },
            };
            let data = |n: usize, x: u64| Data { k: 4, s: s.wrapping_add(x), n, a: (x % 61) as u8, r: vec![] };
            let mut ops = vec![if sp { Op::SNew { i: 0, q } } else { Op::New { i: 0, p } }, up(data(first, 0), 0)];
            let mut total = first as i64;
            let at = at as usize % (2 * v.len());
            for (x, (k, d, fin, r)) in v.into_iter().enumerate() {
                if port && x == at {
                    ops.push(if sp { Op::SPort { i: 0 } } else { Op::Port { i: 0 } });
                }
                let n = (k as i64 * 64 + d - total % 64).max(0);
                total += n;
                ops.push(up(data(n as usize, 1 + x as u64), (r % 12) as u8));
                if fin < 3 {
                    ops.push(if sp { Op::SFin { i: 0, times: 1 } } else { Op::Fin { i: 0, times: 1 } });
                }
            }
            Case::Prog { ops }
        })
        .boxed()
}

/// The same with three states that are cloned over each other, finalized and flagged in between.
pub fn walk_clones(steps: usize) -> S<Case> {
    let first = before_walk(21);
    let step = (0i64..=5, prop_oneof![12 => Just(0i64), 1 => Just(-1), 1 => Just(1), 1 => -63i64..64], 0u8..16, 0u8..3, 0u8..3, any::<bool>());
    (proptest::collection::vec((params(), first.boxed()), 3..=3), proptest::collection::vec(step, 20..steps), any::<u64>())
        .prop_map(move |(st, v, s)| {
            let data = |n: usize, x: u64| Data { k: 4, s: s.wrapping_add(x), n, a: (x % 61) as u8, r: vec![] };
            let mut ops = Vec::new();
            let mut total = [0i64; 3];
            for (i, (p, n)) in st.into_iter().enumerate() {
                total[i] = n as i64;
                ops.push(Op::New { i: i as u8, p });
                ops.push(Op::Up { i: i as u8, d: data(n, i as u64) });
            }
            for (x, (k, d, what, i, j, on)) in v.into_iter().enumerate() {
                let t = total[i as usize];
                match what {
                    0 | 1 => {
                        ops.push(Op::Cl { i, j });
                        total[j as usize] = t;
                    }
                    2 => ops.push(Op::Last { i, v: on }),
                    3 | 4 => ops.push(Op::Fin { i, times: 1 + on as u8 }),
                    _ => {
                        let n = (k * 64 + d - t % 64).max(0);
                        total[i as usize] += n;
                        ops.push(Op::Up { i, d: data(n as usize, 4 + x as u64) });
                        if what < 9 {
                            ops.push(Op::Fin { i, times: 1 });
                        }
                    }
                }
            }
            ops.extend((0..3).map(|i| Op::Fin { i, times: 1 }));
            Case::Prog { ops }
        })
        .boxed()
}

/// The same with eight states side by side.
pub fn walk8(steps: usize) -> S<Case> {
    let first = before_walk(19);
    let step = (
        0i64..=5,
        proptest::array::uniform8(prop_oneof![10 => Just((0i64, 0i64)), 1 => (0i64..=3, -1i64..=1), 1 => (-2i64..=2, Just(0i64))]),
        0u8..8,
        any::<u32>(),
    );
    (proptest::collection::vec((params(), first.boxed(), 0usize..4), 8..=8), proptest::collection::vec(step, 10..steps), any::<u64>(), 0u8..3)
        .prop_map(move |(st, v, s, same)| {
            let data = |n: usize, x: u64| Data { k: 4, s: s.wrapping_add(x), n, a: (x % 61) as u8, r: vec![] };
            let mut ops = Vec::new();
            let mut total = [0i64; 8];
            let n0 = st[0].1;
            for (i, (p, n, o)) in st.into_iter().enumerate() {
                // Mostly at the same place, or a few blocks apart.
                let n = [n0, n0 + 64 * o, n][same as usize];
                total[i] = n as i64;
                ops.push(Op::New { i: i as u8, p });
                ops.push(Op::Up { i: i as u8, d: data(n, i as u64) });
            }
            // The first eight slots in the order `o` says.
            let order = |o: u32| -> [u8; 8] { std::array::from_fn(|i| if o & 3 != 0 { 0 } else { (o >> (2 + 3 * i)) as u8 & 7 } % (8 - i as u8)) };
            for (x, (k, d, fin, o)) in v.into_iter().enumerate() {
                let lanes = order(o);
                let slot: Vec<usize> = {
                    let mut free: Vec<usize> = (0..8).collect();
                    lanes.iter().map(|&l| free.remove(l as usize)).collect()
                };
                let d8 = std::array::from_fn(|i| {
                    let t = &mut total[slot[i]];
                    let n = ((k + d[i].0) * 64 + d[i].1 - *t % 64).max(0);
                    *t += n;
                    data(n as usize, (1 + x as u64) * 8 + i as u64)
                });
                ops.push(Op::Up8 { lanes, d: d8 });
                if fin < 2 {
                    ops.push(Op::Fin8 { lanes });
                } else if fin == 2 {
                    ops.push(Op::Fin { i: (x % 8) as u8, times: 1 });
                }
            }
            Case::Prog { ops }
        })
        .boxed()
}

pub fn everything(top: u32, small: bool) -> Mix {
    Mix {
        new: 3, up: 6, many: 2, wr: 2, fin: 3, cl: 2, last: 2, port: 1, up8: 3, fin8: 2, big: 0,
        snew: 2, sup: 5, smany: 1, swr: 1, sfin: 2, sport: 1, slots: 9, spslots: 3, top, small,
    }
}

// --- the rest --------------------------------------------------------------------------------

pub fn one(top: u32) -> S<Case> {
    (params(), data(top)).prop_map(|(p, d)| Case::One { p, d }).boxed()
}
pub fn one_sp(top: u32) -> S<Case> {
    (params_sp(), data(top)).prop_map(|(q, d)| Case::OneSp { q, d }).boxed()
}

pub fn hash8(top: u32, small: bool, keyed: bool) -> S<Case> {
    let ps = prop_oneof![
        3 => proptest::collection::vec(unkeyed(), 8),
        1 => unkeyed().prop_map(|p| vec![p; 8]),
    ];
    let ps = if keyed {
        // One lane, or several, with a key of any length.
        (ps, proptest::collection::vec((0usize..8, bytes(1, 32)), 1..3))
            .prop_map(|(mut p, ks)| {
                for (l, k) in ks {
                    p[l].key = k;
                }
                p
            })
            .boxed()
    } else {
        ps.boxed()
    };
    let d = prop_oneof![
        3 => eight(top, small),
        1 => (1usize..20, eight(top, true)).prop_map(|(n, mut d)| {
            d.iter_mut().for_each(|x| x.n = n * 64);
            d
        }),
    ];
    (ps, d).prop_map(|(p, d)| Case::Hash8 { p, d: d.to_vec() }).boxed()
}

fn blocks(top: usize) -> S<usize> {
    prop_oneof![6 => 1usize..=10, 3 => 1usize..=80, 1 => 1usize..=top].boxed()
}
pub fn exact_ok(top: usize) -> S<Case> {
    (params(), blocks(top), eight(12, true), any::<bool>())
        .prop_map(|(p, n, d, four)| {
            let d: Vec<Data> = d.iter().take(if four { 4 } else { 8 }).map(|x| Data { n: n * 64, ..x.clone() }).collect();
            Case::Exact { p, d }
        })
        .boxed()
}
/// Lengths that are ill-formed in one to three lanes, sometimes cancelling out, or not at all.
pub fn exact_any() -> S<Case> {
    let base = prop_oneof![6 => (0usize..=9).prop_map(|k| k * 64), 2 => 0usize..=300, 1 => (1usize..=300).prop_map(|k| k * 64)];
    let delta = prop_oneof![
        2 => prop_oneof![Just(1i64), Just(-1), Just(64), Just(-64), Just(128), Just(32), Just(-32)],
        1 => -70i64..=70,
        1 => Just(-1_000_000i64),
        1 => (6u32..=17, -1i64..=1).prop_map(|(k, d)| (1i64 << k) + d),
    ];
    (
        prop_oneof![2 => Just(P::default()), 1 => params()],
        base,
        proptest::collection::vec((0usize..8, delta), 0..=3),
        any::<bool>(),
        any::<bool>(),
        eight(10, true),
    )
        .prop_map(|(p, n, ds, four, cancel, d)| {
            let lanes = if four { 4 } else { 8 };
            let mut lens = vec![n as i64; lanes];
            for (i, (l, x)) in ds.iter().enumerate() {
                lens[l % lanes] += x;
                if cancel && i == 0 {
                    lens[(l + 1) % lanes] -= x;
                }
            }
            let d: Vec<Data> =
                (0..lanes).map(|i| Data { n: lens[i].max(0) as usize, ..d[i].clone() }).collect();
            Case::Exact { p, d }
        })
        .boxed()
}

pub fn kernel() -> S<Case> {
    let t = prop_oneof![
        1 => Just(0u64),
        2 => (0u32..64, -2i64..=2).prop_map(|(k, d)| (1u64 << k).wrapping_add(d as u64)),
        1 => (0u64..100).prop_map(|k| k * 64),
        1 => any::<u64>(),
        1 => any::<u32>().prop_map(|x| x as u64),
    ];
    let word = prop_oneof![3 => any::<u32>(), 1 => Just(0u32), 1 => Just(u32::MAX), 1 => (0u32..32).prop_map(|k| 1 << k)];
    let h = prop_oneof![
        4 => proptest::collection::vec(proptest::array::uniform8(word), 8),
        1 => proptest::array::uniform8(any::<u32>()).prop_map(|h| vec![h; 8]),
    ];
    let blk = with_len(Just(64usize).boxed());
    let ts = prop_oneof![3 => proptest::collection::vec(t.clone(), 8), 1 => t.prop_map(|t| vec![t; 8])];
    let flag = || prop_oneof![1 => Just(0u8), 1 => Just(255u8), 2 => any::<u8>()];
    (h, proptest::collection::vec(blk, 8), ts, flag(), flag(), 0u8..8)
        .prop_map(|(h, m, t, lb, ln, rot)| Case::Kernel { h, m, t, lb, ln, rot })
        .boxed()
}

fn wide(limit: usize) -> S<usize> {
    prop_oneof![
        8 => 0..=limit,
        2 => limit..=limit + 3,
        2 => 0usize..=300,
        1 => (1usize..=4, 0..=limit).prop_map(|(k, x)| k * 256 + x),
        1 => (prop_oneof![Just(16u32), Just(32), Just(48), Just(63)], 0..=limit).prop_map(|(k, x)| (1u64 << k) as usize + x),
        1 => (0usize..3).prop_map(|x| usize::MAX - x),
        1 => (0u32..64).prop_map(|k| (!0u64 << k) as usize),
        1 => any::<usize>(),
    ]
    .boxed()
}
fn blob(limit: usize) -> S<Data> {
    let l = prop_oneof![
        8 => 0..=limit,
        2 => limit..=limit + 2,
        1 => 0usize..=300,
        1 => (1usize..=3, 0..=limit).prop_map(|(k, x)| k * 256 + x),
        1 => (0..=limit).prop_map(|x| 65536 + x),
    ];
    with_len(l.boxed())
}
pub fn call() -> S<Call> {
    prop_oneof![
        3 => wide(32).prop_map(Call::Hl),
        4 => blob(32).prop_map(Call::Key),
        3 => blob(8).prop_map(Call::Salt),
        3 => blob(8).prop_map(Call::Pers),
        2 => any::<u8>().prop_map(Call::Fo),
        2 => prop_oneof![3 => any::<u8>(), 1 => Just(0u8)].prop_map(Call::Md),
        2 => leaf().prop_map(Call::Leaf),
        3 => prop_oneof![
            4 => off(),
            1 => (-2i64..=2).prop_map(|d| ((1i64 << 48) + d) as u64),
            1 => (48u32..64, off()).prop_map(|(k, x)| (1u64 << k) | x),
            1 => any::<u64>(),
            1 => (0u64..3).prop_map(|x| u64::MAX - x),
            1 => (0u32..64).prop_map(|k| !0u64 << k),
            1 => (0u32..64).prop_map(|k| !(1u64 << k)),
        ].prop_map(Call::Off),
        2 => any::<u8>().prop_map(Call::Nd),
        3 => wide(32).prop_map(Call::Inner),
        2 => any::<bool>().prop_map(Call::Last),
        1 => Just(Call::Clone),
        1 => Just(Call::ToState),
    ]
    .boxed()
}
pub fn setters(max: usize) -> S<Case> {
    let d = prop_oneof![2 => small_data(), 1 => (1usize..4, small_data()).prop_map(|(n, d)| Data { n: n * 64, ..d })];
    (prop_oneof![3 => Just(false), 1 => Just(true)], proptest::collection::vec(call(), 1..=max), d)
        .prop_map(|(sp, mut calls, d)| {
            if sp {
                // Concentrate on what BLAKE2sp has.
                for (i, c) in calls.iter_mut().enumerate() {
                    let n = match &*c {
                        Call::Fo(v) | Call::Md(v) | Call::Nd(v) => Some(*v as usize),
                        Call::Inner(n) => Some(*n),
                        Call::Leaf(n) => Some(*n as usize % 40),
                        Call::Off(n) => Some(*n as usize % 34),
                        _ => None,
                    };
                    if let Some(n) = n {
                        *c = if i % 2 == 0 { Call::Hl(n) } else { Call::Key(Data { n: n % 70, ..d.clone() }) };
                    }
                    if let Call::Salt(d) | Call::Pers(d) = c.clone() {
                        *c = Call::Key(Data { n: d.n % 36, ..d });
                    }
                }
            }
            Case::Setters { sp, calls, d }
        })
        .boxed()
}
/// Only legal values: histories of overwriting.
pub fn setters_legal(max: usize) -> S<Case> {
    setters(max)
        .prop_map(|c| match c {
            Case::Setters { sp, mut calls, d } => {
                for c in calls.iter_mut() {
                    match c {
                        Call::Hl(n) => *n = 1 + *n % 32,
                        Call::Key(d) => d.n %= 33,
                        Call::Salt(d) | Call::Pers(d) => d.n %= 9,
                        Call::Md(v) => *v = (*v).max(1),
                        Call::Off(v) => *v %= 1 << 48,
                        Call::Inner(n) => *n %= 33,
                        _ => {}
                    }
                }
                Case::Setters { sp, calls, d }
            }
            c => c,
        })
        .boxed()
}

pub fn mutation() -> S<Mutation> {
    prop_oneof![
        4 => any::<u64>().prop_map(Mutation::FlipBit),
        2 => prop_oneof![Just(0u8), any::<u8>()].prop_map(Mutation::Append),
        1 => Just(Mutation::Truncate),
        1 => Just(Mutation::MoveKeyToMessage),
        2 => (0u8..33).prop_map(Mutation::KeyLen),
        2 => any::<u16>().prop_map(Mutation::KeyBit),
        2 => (0u8..64).prop_map(Mutation::SaltBit),
        2 => (0u8..64).prop_map(Mutation::PersBit),
        1 => Just(Mutation::SwapSaltPers),
        1 => (0u8..25).prop_map(Mutation::Hl),
        1 => any::<u8>().prop_map(Mutation::Fo),
        1 => any::<u8>().prop_map(Mutation::Md),
        2 => (0u8..32).prop_map(Mutation::LeafBit),
        2 => (0u8..48).prop_map(Mutation::OffBit),
        1 => any::<u8>().prop_map(Mutation::Nd),
        1 => (0u8..33).prop_map(Mutation::Inner),
        2 => Just(Mutation::Last),
        1 => Just(Mutation::OtherAlg),
        1 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| Mutation::SwapBlocks(a, b)),
    ]
    .boxed()
}
pub fn mutant() -> S<Case> {
    let d = prop_oneof![3 => data(12), 2 => (1usize..10, small_data()).prop_map(|(n, d)| Data { n: n * 64, ..d }),
        1 => (0usize..40, small_data()).prop_map(|(n, d)| Data { n: n * 64, ..d })];
    let p = params().prop_map(|mut p| {
        // Long digests: short ones collide by nature.
        if p.hl < 8 {
            p.hl = 32;
        }
        p
    });
    (0u8..9, p, d, prop_oneof![5 => proptest::collection::vec(mutation(), 1), 1 => proptest::collection::vec(mutation(), 2..4)], 0u8..64)
        .prop_map(|(iface, p, d, m, lane)| Case::Mutant { iface, p, d, m, lane })
        .boxed()
}

pub fn hashv() -> S<Case> {
    let d = || prop_oneof![2 => small_data(), 1 => (1usize..4, small_data()).prop_map(|(n, d)| Data { n: n * 64, ..d })];
    (
        0u8..49,
        hl(),
        hl(),
        d(),
        d(),
        (any::<u16>(), any::<u8>(), any::<u8>()),
        prop_oneof![6 => Just(false), 1 => Just(true)],
        prop_oneof![3 => Just(false), 1 => Just(true)],
        prop_oneof![1 => Just(false), 1 => Just(true)],
    )
        .prop_map(|(via, hl1, hl2, d1, d2, (flip, cut, ext), collide, same, samelen)| Case::HashV {
            via: if same { via % 7 * 8 } else { via },
            hl1,
            hl2: if same || samelen { hl1 } else { hl2 },
            d2: if same { d1.clone() } else { d2 },
            d1,
            flip,
            cut,
            ext,
            collide,
        })
        .boxed()
}

pub fn cteq() -> S<Case> {
    let flip = prop_oneof![
        // one byte, at any position
        4 => (0usize..32, 1u8..=255).prop_map(|(i, x)| { let mut v = vec![0; 32]; v[i] = x; v }),
        1 => proptest::collection::vec(any::<u8>(), 32),
        1 => (0usize..32, 1u8..=255).prop_map(|(i, x)| { let mut v = vec![0; 32]; v[i..].iter_mut().for_each(|y| *y = x); v }),
        1 => (0usize..32, 1u8..=255).prop_map(|(i, x)| { let mut v = vec![0; 32]; v[..=i].iter_mut().for_each(|y| *y = x); v }),
        1 => Just(vec![0; 32]),
    ];
    // What is compared: a digest, or other bytes, some with a stretch of equal ones.
    let bytes = prop_oneof![
        1 => any::<u64>().prop_map(|s| { let mut v = vec![0; 32]; crate::data::fill(4, s, &mut v); v }),
        1 => prop_oneof![2 => Just(0u8), 1 => Just(255u8), 2 => any::<u8>()].prop_map(|x| vec![x; 32]),
    ];
    let stretch = (0usize..32, 0usize..32, prop_oneof![3 => Just(0u8), 1 => Just(255u8), 1 => any::<u8>()]);
    let content = (bytes, stretch).prop_map(|(mut v, (a, b, x))| { v[a.min(b)..=a.max(b)].iter_mut().for_each(|y| *y = x); v });
    let flip = (flip, proptest::option::weighted(0.6, content)).prop_map(|(mut f, c)| { f.extend(c.into_iter().flatten()); f });
    (hl(), any::<bool>(), small_data(), proptest::collection::vec(flip, 2..10))
        .prop_map(|(hl, slice, d, flips)| Case::CtEq { hl, slice, d, flips })
        .boxed()
}

pub fn dbg() -> S<Case> {
    let mut m = everything(12, true);
    m.slots = 3;
    m.up8 = 1;
    m.fin8 = 1;
    m.snew = 3;
    (ops(m, 10), 1u64..100_000).prop_map(|(ops, v)| Case::Dbg { ops, v }).boxed()
}
/// Long messages, or very many calls, on few objects.
pub fn dbg_long(top: u32) -> S<Case> {
    let m = Mix { slots: 1, spslots: 1, new: 1, up: 4, snew: 1, sup: 4, fin: 1, sfin: 1, top, ..Mix::default() };
    let r = many(Mix { top: 10, small: true, ..m }, 13);
    (prop_oneof![3 => ops(m, 3), 1 => r.prop_map(|c| match c { Case::Prog { ops } => ops, _ => vec![] })], 1u64..100_000)
        .prop_map(|(ops, v)| Case::Dbg { ops, v })
        .boxed()
}
pub fn family() -> S<Case> {
    (0u8..9, params(), small_data(), any::<u8>(), 0u8..8).prop_map(|(iface, p, d, fam, lane)| Case::Family { iface, p, d, fam, lane }).boxed()
}

pub fn threads(n: usize, top: u32, small: bool, max: usize) -> S<Case> {
    (proptest::collection::vec(ops(everything(top, small), max), 2..=n), prop_oneof![3 => Just(false), 1 => Just(true)])
        .prop_map(|(mut progs, same)| {
            if same {
                let p = progs[0].clone();
                progs.iter_mut().for_each(|x| *x = p.clone());
            }
            Case::Threads { progs }
        })
        .boxed()
}

/// The first calls of a process, on several threads at once.
pub fn fresh() -> S<Case> {
    (proptest::collection::vec(ops(everything(11, true), 3), 2..=8), any::<bool>())
        .prop_map(|(mut progs, same)| {
            if same {
                let p = progs[0].clone();
                progs.iter_mut().for_each(|x| *x = p.clone());
            }
            Case::Fresh { progs }
        })
        .boxed()
}

/// The same by states that have taken much before.
pub fn call_late(mode: u8, max: usize, top: u32) -> S<Case> {
    let pre = prop_oneof![2 => (10..=top, 0usize..700).prop_map(|(k, x)| (1 << k) + x), 1 => (10..=top, 0usize..700).prop_map(|(k, x)| (1 << k) - x)];
    (call_of(mode, max), pre)
        .prop_map(|(mut c, n)| {
            if let Case::Call { what, pre, .. } = &mut c {
                *pre = n;
                // The ones that have states.
                if matches!(*what, 0 | 2 | 5 | 6 | 7) {
                    *what = if *what == 5 || *what == 7 { 4 } else { 10 };
                }
            }
            if let Case::Call { what: 10, d, .. } = &mut c {
                d.truncate(1);
            }
            c
        })
        .boxed()
}
fn side(long: u32) -> S<Side> {
    let pre = prop_oneof![
        2 => Just(0usize),
        4 => 0usize..1600,
        3 => (0u32..7, 0usize..700).prop_map(|(k, x)| (1 << (10 + k)) + x),
        1 => (0u32..4, 0usize..700).prop_map(|(k, x)| (1 << (17 + k)) + x),
    ];
    (prop_oneof![10 - long => call_of(1, 150), long => call_of(1, 1100)], pre)
        .prop_map(|(c, pre)| match c {
            Case::Call { what, p, q, d, cut, .. } => Side { what, p, q, pre, d, cut },
            _ => unreachable!(),
        })
        .boxed()
}
/// A use interrupted by others.
pub fn inter() -> S<Case> {
    let every = prop_oneof![2 => Just(0u16), 2 => 1u16..4, 1 => 4u16..60];
    (side(1), side(4), prop_oneof![2 => Just(0), 2 => Just(1), 1 => Just(2)], any::<u32>(), every)
        .prop_map(|(a, b, same, at, every)| {
            let b = match same {
                0 => b,
                // The same interface, with other contents.
                1 => match a.what == b.what {
                    true => b,
                    false => Side { what: a.what, d: a.d.iter().map(|d| Data { s: d.s ^ 0x55, k: 4, ..d.clone() }).collect(), pre: a.pre + b.pre % 70, ..b },
                },
                _ => Side { p: a.p.clone(), q: a.q.clone(), pre: a.pre, ..b },
            };
            Case::Inter { a, b, same: same == 2, at, every }
        })
        .boxed()
}

/// A single use of one interface, with inputs of up to about `max` bytes in all.
pub fn call_of(mode: u8, max: usize) -> S<Case> {
    let whats = if mode == 0 { 13u8 } else { 14 };
    (0..whats)
        .prop_flat_map(move |what| {
            let lanes = match what {
                4 | 5 | 7 => 8,
                6 => 4,
                _ => 1,
            };
            let cap = (max / lanes).max(128);
            let one = prop_oneof![3 => small_len(), 2 => len(12), 1 => (0..=cap)].prop_map(move |n| n.min(cap)).boxed();
            let d: S<Vec<Data>> = match what {
                6 | 7 => (proptest::collection::vec(with_len(Just(0).boxed()), lanes), 1..=cap / 64)
                    .prop_map(|(mut d, n)| {
                        d.iter_mut().for_each(|x| x.n = 64 * n);
                        d
                    })
                    .boxed(),
                4 | 5 => prop_oneof![
                    1 => proptest::collection::vec(with_len(one.clone()), lanes),
                    2 => (proptest::collection::vec(with_len(Just(0).boxed()), lanes), one, 0usize..9, small_len()).prop_map(move |(mut d, n, odd, m)| {
                        d.iter_mut().enumerate().for_each(|(i, x)| x.n = if i == odd { m.min(cap) } else { n });
                        d
                    }),
                ]
                .boxed(),
                _ => proptest::collection::vec(with_len(one), 1).boxed(),
            };
            let cut = proptest::collection::vec(small_len(), if what == 4 { 0..9 } else { 0..5 });
            (params(), params_sp(), d, cut, proptest::collection::vec(1u64..1 << 40, if mode == 0 { 4..7 } else { 0..1 }))
                .prop_map(move |(p, q, d, cut, v)| Case::Call { mode, what, p, q, d, cut, v, pre: 0 })
        })
        .boxed()
}
