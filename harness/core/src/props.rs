//! Which generators and enumerations decide which property, and what makes a case non-trivial.
use crate::case::*;
use crate::data::{mix64, Data, Place};
use crate::tag::*;
use crate::gen::{self, Mix, S};

pub enum Src {
    Gen(Box<dyn Fn() -> S<Case> + Send + Sync>),
    Enum(u64, Box<dyn Fn(u64) -> Case + Send + Sync>),
}
#[derive(Clone, Copy, PartialEq)]
pub enum Guard {
    /// Mostly exact heap buffers, sometimes between guard pages.
    Some,
    Always,
    Never,
}
pub struct Comp {
    pub name: &'static str,
    pub cases: u64,
    pub src: Src,
    /// Non-trivial when any of these tags is present (0: always).
    pub nt: u64,
    pub guard: Guard,
    /// Run by one worker at a time (the case itself uses threads).
    pub serial: bool,
    /// Executed one instruction at a time.
    pub stepped: bool,
    /// Only the calls' returning counts, not what they return.
    pub total: bool,
}

fn g(name: &'static str, cases: u64, nt: u64, f: impl Fn() -> S<Case> + Send + Sync + 'static) -> Comp {
    Comp { name, cases, src: Src::Gen(Box::new(f)), nt, guard: Guard::Some, serial: false, stepped: false, total: false }
}
fn e(name: &'static str, n: u64, nt: u64, f: impl Fn(u64) -> Case + Send + Sync + 'static) -> Comp {
    Comp { name, cases: n, src: Src::Enum(n, Box::new(f)), nt, guard: Guard::Some, serial: false, stepped: false, total: false }
}
fn d(s: u64, n: usize) -> Data {
    Data { k: 4, s, n, a: (s % 64) as u8, r: vec![] }
}
fn keyed(p: &P, n: usize) -> P {
    P { key: (0..n).map(|x| (x * 37 + 11) as u8).collect(), ..p.clone() }
}

pub fn place_for(gd: Guard, h: u64) -> Place {
    match gd {
        Guard::Never => Place::Heap,
        Guard::Always => {
            if h & 1 == 0 {
                Place::GuardEnd
            } else {
                Place::GuardStart
            }
        }
        Guard::Some => match h % 8 {
            0 => Place::GuardEnd,
            1 => Place::GuardStart,
            _ => Place::Heap,
        },
    }
}

/// Every value of each one-byte parameter, every bit of the wide ones, all length combinations.
fn param_sweep(i: u64) -> P {
    let b = P { hl: 32, key: vec![], salt: vec![5, 6], pers: vec![9], fo: 3, md: 4, leaf: 77, off: 1 << 33, nd: 2, inner: 9, last: false, x: false };
    let base = if i % 2 == 0 { P::default() } else { b };
    let j = i / 2;
    match j {
        0..=255 => P { fo: j as u8, ..base },
        256..=510 => P { md: (j - 255) as u8, ..base },
        511..=766 => P { nd: (j - 511) as u8, ..base },
        767..=799 => P { inner: (j - 767) as u8, ..base },
        800..=831 => P { leaf: 1 << (j - 800), ..base },
        832..=879 => P { off: 1 << (j - 832), ..base },
        880..=880 => P { off: (1 << 48) - 1, leaf: u32::MAX, ..base },
        881..=912 => P { hl: (j - 880) as u8, ..base },
        913..=976 => {
            let k = (j - 913) as usize;
            P { salt: (0..8).map(|x| if x == k / 8 { 1 << (k % 8) } else { 0 }).collect(), ..base }
        }
        977..=1040 => {
            let k = (j - 977) as usize;
            P { pers: (0..8).map(|x| if x == k / 8 { 1 << (k % 8) } else { 0 }).collect(), ..base }
        }
        1041..=1121 => {
            let k = (j - 1041) as usize;
            P { salt: (1..=(k % 9) as u8).collect(), pers: (11..11 + (k / 9) as u8).collect(), ..base }
        }
        1122..=2177 => {
            let k = (j - 1122) as usize;
            P { hl: 1 + (k % 32) as u8, last: k % 3 == 0, ..keyed(&base, k / 32) }
        }
        2178..=2433 => {
            let k = (j - 2178) as usize;
            P { key: (0..32).map(|x| if x == k / 8 { 1 << (k % 8) } else { 0 }).collect(), ..base }
        }
        _ => P { last: true, ..base },
    }
}
const SWEEP: u64 = 2 * 2435;

const EDGE: [usize; 32] = [
    0, 1, 2, 63, 64, 65, 127, 128, 129, 191, 192, 447, 448, 449, 511, 512, 513, 575, 576, 577, 895, 896, 897, 959,
    960, 961, 1023, 1024, 1025, 1087, 1088, 1473,
];
const STEP9: [usize; 9] = [0, 1, 63, 64, 65, 127, 128, 129, 192];

fn mix_s(top: u32) -> Mix {
    Mix { new: 1, up: 8, many: 2, fin: 2, slots: 2, top, ..Mix::default() }
}

/// One call over and over, past 2^16 times; then something else.
fn tiny_steps(new: Op, fill: Op, step: Op) -> Case {
    let (fin, more) = match &new {
        Op::SNew { .. } => (Op::SFin { i: 0, times: 1 }, Op::SUp { i: 0, d: d(5, 70) }),
        _ => (Op::Fin { i: 0, times: 1 }, Op::Up { i: 0, d: d(5, 70) }),
    };
    let ops = vec![new, fill, Op::Rep { n: (1 << 16) + 3, ops: vec![step] }, fin.clone(), more, fin];
    Case::Prog { ops }
}

/// `scale`: 1 for the quick tier.
pub fn components(prop: &str, scale: u64) -> Vec<Comp> {
    let k = |n: u64| n * scale;
    match prop {
        "C01" => vec![
            e("every length to 1100, four parameter sets", 4 * 1101, 0, |i| {
                let p = match i % 4 {
                    0 => P::default(),
                    1 => keyed(&P::default(), 32),
                    2 => P { hl: 20, last: true, ..keyed(&P::default(), 1) },
                    _ => P { salt: vec![1; 8], pers: vec![2; 8], fo: 2, md: 3, nd: 1, inner: 32, last: true, ..P::default() },
                };
                Case::One { p, d: d(i, (i / 4) as usize) }
            }),
            e("every value of each parameter", 3 * SWEEP, PARAMS, |i| Case::One {
                p: param_sweep(i / 3),
                d: d(i, [0, 70, 128][i as usize % 3]),
            }),
            g("random parameters and messages", k(300_000), PARAMS | MULTI, || gen::one(14)),
            g("long messages", k(600), MULTI, || gen::one(23)),
        ],
        "C02" => vec![
            e("every length to 280 split in two at every point", 2 * 281 * 282 / 2, SEVERAL, |i| {
                let p = if i % 2 == 0 { P::default() } else { keyed(&P::default(), 32) };
                let j = i / 2;
                let mut n = ((((8 * j + 1) as f64).sqrt() - 1.0) / 2.0) as u64;
                while n * (n + 1) / 2 > j {
                    n -= 1;
                }
                while (n + 1) * (n + 2) / 2 <= j {
                    n += 1;
                }
                let a = j - n * (n + 1) / 2;
                Case::Prog {
                    ops: vec![
                        Op::New { i: 0, p },
                        Op::Up { i: 0, d: d(i, a as usize) },
                        Op::Up { i: 0, d: d(i ^ 1, (n - a) as usize) },
                    ],
                }
            }),
            e("three and four updates around block boundaries", 2 * 9 * 9 * 9 * 9, SEVERAL, |i| {
                let p = if i % 2 == 0 { P::default() } else { keyed(&P::default(), 5) };
                let mut j = (i / 2) as usize;
                let mut ops = vec![Op::New { i: 0, p }];
                for x in 0..4 {
                    ops.push(Op::Up { i: 0, d: d(i + x, STEP9[j % 9]) });
                    j /= 9;
                }
                Case::Prog { ops }
            }),
            g("random histories", k(90_000), SEVERAL, || gen::prog(mix_s(13), 14)),
            g("chunked messages", k(20_000), SEVERAL, || {
                gen::prog(Mix { new: 1, many: 8, up: 1, fin: 1, slots: 1, top: 14, ..Mix::default() }, 4)
            }),
            g("long messages", k(250), LONG, || gen::prog(mix_s(22), 4)),
            g("hundreds of calls", k(250), MANYCALLS, || gen::many(mix_s(10), 16)),
            g("histories after much input", k(150), LONG, || gen::late(Mix { fin: 2, ..mix_s(11) }, 24, 8)),
            g("long walks along block boundaries", k(2_000), SEVERAL, || gen::walk(false, false, false, 1500)),
            e("2^16 tiny updates", 12 * 2, MANYCALLS, |i| {
                let n = [0, 1, 2, 31, 62, 63, 64, 65, 100, 127, 128, 129][i as usize / 2];
                let p = if i % 4 < 2 { P::default() } else { keyed(&P::default(), 5) };
                tiny_steps(Op::New { i: 0, p }, Op::Up { i: 0, d: d(i, n) }, Op::Up { i: 0, d: d(i, [0, 1][i as usize % 2]) })
            }),
        ],
        "C03" => {
            let m = |top, small| Mix { new: 2, up: 6, many: 1, fin: 5, cl: 4, last: 4, port: 1, slots: 4, top, small, ..Mix::default() };
            vec![
                e("finalize at every fill level, then continue", 2 * 130 * 9, REFIN, |i| {
                    let p = if i % 2 == 0 { P::default() } else { P { last: true, ..keyed(&P::default(), 32) } };
                    let (a, b) = ((i / 2 % 130) as usize, STEP9[(i / 260) as usize % 9]);
                    Case::Prog {
                        ops: vec![
                            Op::New { i: 0, p },
                            Op::Up { i: 0, d: Data { k: 1, s: 0, n: a, a: 0, r: vec![] } },
                            Op::Cl { i: 0, j: 1 },
                            Op::Fin { i: 0, times: 2 },
                            Op::Last { i: 1, v: i % 3 == 0 },
                            Op::Up { i: 0, d: d(i, b) },
                            Op::Up { i: 1, d: d(i ^ 5, 3) },
                            Op::Fin { i: 1, times: 1 },
                            Op::Fin { i: 0, times: 1 },
                            Op::Up { i: 0, d: d(i, 1) },
                        ],
                    }
                }),
                g("random histories", k(120_000), REFIN | CLONE, move || gen::prog(m(12, true), 24)),
                g("random histories, longer messages", k(20_000), REFIN | CLONE, move || gen::prog(m(14, false), 12)),
                g("eight-lane finalization in histories", k(20_000), REFIN | CLONE, move || {
                    gen::prog(Mix { fin8: 4, up8: 1, slots: 10, ..m(12, true) }, 14)
                }),
                g("hundreds of calls", k(250), MANYCALLS, move || gen::many(m(10, true), 16)),
                g("histories after much input", k(150), LONG, move || gen::late(m(11, true), 24, 10)),
                g("long walks of three states along block boundaries", k(4_000), CLONE, || gen::walk_clones(700)),
                e("2^16 finalizations", 24, MANYCALLS, |i| {
                    let n = [0, 1, 63, 64, 65, 128][i as usize / 4];
                    let op = if i % 4 < 2 { Op::Fin { i: 0, times: 1 } } else { Op::Last { i: 0, v: true } };
                    tiny_steps(Op::New { i: 0, p: P { last: i % 2 == 0, ..P::default() } }, Op::Up { i: 0, d: d(i, n) }, op)
                }),
            ]
        }
        "C04" => vec![
            e("every length to 2700, three parameter sets", 3 * 2701, 0, |i| {
                let q = match i % 3 {
                    0 => Q { hl: 32, key: vec![] },
                    1 => Q { hl: 32, key: (0..32).collect() },
                    _ => Q { hl: 20, key: vec![7] },
                };
                Case::OneSp { q, d: d(i, (i / 3) as usize) }
            }),
            e("every digest length with every key length", 33 * 32 * 4, 0, |i| {
                let (a, b) = (i / 4 % 33, i / 132 % 32);
                Case::OneSp {
                    q: Q { hl: 1 + b as u8, key: (0..a).map(|x| (x * 3 + 1) as u8).collect() },
                    d: d(i, [0, 100, 1000, 1600][i as usize % 4]),
                }
            }),
            e("every bit of the key", 256 * 2, 0, |i| {
                let k = (i / 2) as usize;
                Case::OneSp {
                    q: Q { hl: 32, key: (0..32).map(|x| if x == k / 8 { 1 << (k % 8) } else { 0 }).collect() },
                    d: d(i, 600),
                }
            }),
            g("random", k(80_000), SPLONG | KEYED | SHORT, || gen::one_sp(14)),
            g("long messages", k(400), LONG, || gen::one_sp(23)),
        ],
        "C05" => {
            let m = |top| Mix { snew: 2, sup: 8, smany: 2, sfin: 3, spslots: 2, top, ..Mix::default() };
            vec![
                e("first update of every length to 1100, second at the edges", 2 * 1101 * 32, SEVERAL, |i| {
                    let q = if i % 2 == 0 { Q { hl: 32, key: vec![] } } else { Q { hl: 32, key: vec![1; 32] } };
                    Case::Prog {
                        ops: vec![
                            Op::SNew { i: 0, q },
                            Op::SUp { i: 0, d: d(i, (i / 64) as usize) },
                            Op::SUp { i: 0, d: d(i ^ 3, EDGE[(i / 2 % 32) as usize]) },
                        ],
                    }
                }),
                e("three updates at the edges", 2 * 32 * 32 * 32, SEVERAL, |i| {
                    let q = if i % 2 == 0 { Q { hl: 32, key: vec![] } } else { Q { hl: 9, key: vec![1; 7] } };
                    let mut j = (i / 2) as usize;
                    let mut ops = vec![Op::SNew { i: 0, q }];
                    for x in 0..3 {
                        ops.push(Op::SUp { i: 0, d: d(i + x, EDGE[j % 32]) });
                        if i % 5 == x {
                            ops.push(Op::SFin { i: 0, times: 1 });
                        }
                        j /= 32;
                    }
                    Case::Prog { ops }
                }),
                g("random histories", k(60_000), SPLONG, move || gen::prog(m(12), 12)),
                g("long messages", k(250), LONG, move || gen::prog(m(22), 3)),
                g("hundreds of calls", k(200), MANYCALLS, move || gen::many(m(10), 16)),
                g("histories after much input", k(250), LONG, move || gen::late(m(12), 24, 8)),
                g("long walks along block boundaries", k(3_000), SEVERAL, || gen::walk(true, false, false, 1000)),
                e("2^16 tiny updates or finalizations", 9 * 4, MANYCALLS, |i| {
                    let q = if i % 8 < 4 { Q { hl: 32, key: vec![] } } else { Q { hl: 32, key: vec![1; 32] } };
                    let n = [0, 1, 64, 449, 511, 512, 961, 1023, 1024][i as usize / 4];
                    let op = match i % 4 {
                        0 => Op::SFin { i: 0, times: 1 },
                        t => Op::SUp { i: 0, d: d(i, t as usize - 1) },
                    };
                    tiny_steps(Op::SNew { i: 0, q }, Op::SUp { i: 0, d: d(i, n) }, op)
                }),
            ]
        }
        "C06" => {
            let m = |top, small| Mix {
                new: 2, up: 3, fin: 2, cl: 1, last: 2, port: 1, up8: 6, fin8: 4, slots: 10, top, small, ..Mix::default()
            };
            vec![
                e("equal fill levels and lengths", 65 * 70, UP8ALL | UP8UNEVEN | UP8PARTIAL, |i| {
                    let (f, j) = ((i % 65) as usize, (i / 65) as usize);
                    let n = STEP9[j % 9] + 64 * (j / 9 % 3) + (j / 27) * 61;
                    eight_case(&[f; 8], &[n; 8], i, i % 3 == 0)
                }),
                e("one lane off", 8 * 13 * 13 * 13, UP8ALL | UP8UNEVEN | UP8PARTIAL, |i| {
                    let o = [0usize, 1, 63, 64, 65, 128, 129, 192, 193, 256, 257, 320, 127];
                    let (l, a, b, c) = (i % 8, i / 8 % 13, i / 104 % 13, i / 1352);
                    let mut f = [o[a as usize] % 65; 8];
                    let mut n = [o[b as usize]; 8];
                    n[l as usize] = o[c as usize];
                    if i % 5 == 0 {
                        f[(l as usize + 3) % 8] = (i % 65) as usize;
                    }
                    eight_case(&f, &n, i, i % 2 == 0)
                }),
                g("random histories", k(60_000), UP8ALL | UP8UNEVEN | FIN8MIX, move || gen::prog(m(11, true), 8)),
                g("random histories, longer messages", k(6_000), UP8ALL | UP8UNEVEN | FIN8MIX, move || gen::prog(m(15, false), 5)),
                g("long messages", k(60), LONG, move || gen::prog(m(20, false), 2)),
                g("hundreds of calls", k(80), MANYCALLS, move || gen::many(m(10, true), 16)),
                g("histories after much input", k(250), LONG, move || gen::late(m(11, true), 23, 8)),
                g("long walks along block boundaries", k(1_000), UP8ALL, || gen::walk8(500)),
            ]
        }
        "C07" => vec![
            e("equal lengths to 700", 701 * 2, 0, |i| hash8_case(&[(i / 2) as usize; 8], i)),
            e("one lane off", 8 * 32 * 32, 0, |i| {
                let mut n = [EDGE[(i / 8 % 32) as usize]; 8];
                n[i as usize % 8] = EDGE[(i / 256) as usize];
                hash8_case(&n, i)
            }),
            e("a key of every length in every lane", 8 * 32 * 4, REJECT, |i| {
                let l = (i % 8) as usize;
                let n = [0usize, 64, 128, 200][(i / 8 % 4) as usize];
                match hash8_case(&[n; 8], i) {
                    Case::Hash8 { mut p, d } => {
                        p[l] = keyed(&p[l], 1 + (i / 32) as usize);
                        Case::Hash8 { p, d }
                    }
                    c => c,
                }
            }),
            g("random", k(60_000), TOGETHER | TOEND | MIXED, || gen::hash8(11, true, false)),
            g("random, longer", k(6_000), TOGETHER | TOEND | MIXED, || gen::hash8(15, false, false)),
            g("keyed lanes", k(15_000), REJECT, || gen::hash8(11, true, true)),
            g("long messages", k(160), LONG, || gen::hash8(21, false, false)),
        ],
        "C08" => vec![
            e("every number of blocks to 60", 60 * 8, 0, |i| {
                let p = match i / 2 % 4 {
                    0 => P::default(),
                    1 => P { last: true, hl: 1 + (i % 32) as u8, ..P::default() },
                    2 => keyed(&P::default(), 32),
                    _ => P { last: true, ..keyed(&P::default(), 1) },
                };
                let n = (1 + i / 8) as usize * 64;
                Case::Exact { p, d: (0..if i % 2 == 0 { 4 } else { 8 }).map(|x| d(i * 8 + x, n)).collect() }
            }),
            e("every value of each parameter", 2 * SWEEP, PARAMS, |i| Case::Exact {
                p: param_sweep(i / 2),
                d: (0..if i % 2 == 0 { 4 } else { 8 }).map(|x| d(i * 8 + x, 64 + 64 * (i % 5 == 0) as usize)).collect(),
            }),
            g("random", k(120_000), PARAMS | MULTI, || gen::exact_ok(200)),
            g("long", k(300), MULTI, || gen::exact_ok(60_000)),
        ],
        "C09" => vec![
            e("equal lengths to 4200", 4201 * 2, 0, |i| {
                let n = (i / 2) as usize;
                Case::Exact { p: P::default(), d: (0..if i % 2 == 0 { 4 } else { 8 }).map(|x| d(i * 8 + x, n)).collect() }
            }),
            e("one lane off by every amount", 12 * 6 * 600, 0, |i| {
                let (l, b, x) = (i % 12, i / 12 % 6, i / 72);
                let (lanes, l) = if l < 4 { (4, l) } else { (8, l - 4) };
                let base = b as usize * 64;
                let n = if x < 330 { x as usize } else { (x - 329) as usize * 64 };
                Case::Exact {
                    p: P::default(),
                    d: (0..lanes).map(|y| d(i * 8 + y, if y == l { n } else { base })).collect(),
                }
            }),
            e("two lanes off, cancelling out", 28 * 2 * 40, 0, |i| {
                let (pr, four, x) = (i % 28, i / 28 % 2, (i / 56) as usize + 1);
                let (mut a, mut b, mut c) = (0, 1, 0);
                while c < pr {
                    b += 1;
                    if b == 8 {
                        a += 1;
                        b = a + 1;
                    }
                    c += 1;
                }
                let lanes = if four == 1 { 4 } else { 8 };
                let (a, b) = (a % lanes, b % lanes);
                let del = if x <= 20 { x * 64 } else { x - 20 };
                Case::Exact {
                    p: P::default(),
                    d: (0..lanes)
                        .map(|y| d(i * 8 + y, if y == a { 1280 + del } else if y == b { 1280 - del } else { 1280 }))
                        .collect(),
                }
            }),
            g("random", k(150_000), REJECT, gen::exact_any),
            g("well-formed", k(20_000), 0, || gen::exact_ok(100)),
            e("gigantic lanes", 12 * 6 * 8 * 4, REJECT, |i| {
                let l = i % 12;
                let big = 1u64 << [8, 16, 31, 32, 33, 34][(i / 12 % 6) as usize];
                Case::Giant {
                    what: if l < 4 { 4 } else { 5 },
                    a: big + [0, 1, 63, 64, 65, 128, 192, 256][(i / 72 % 8) as usize],
                    b: (if l < 4 { l } else { l - 4 }) as u8 + 8 * (i / 576) as u8,
                }
            }),
        ]
        .into_iter()
        .map(|mut c| {
            c.guard = Guard::Always;
            c
        })
        .collect(),
        "C10" => {
            let m = Mix { new: 2, up: 5, many: 1, fin: 2, cl: 1, port: 4, up8: 2, fin8: 2, snew: 2, sup: 5, sfin: 2, sport: 4, slots: 9, spslots: 2, top: 12, ..Mix::default() };
            vec![
                g("kernels", k(250_000), 0, gen::kernel),
                e("kernels, one bit of counter, word or message set", 8 * (64 + 256 + 512), 0, |i| {
                    let l = (i % 8) as usize;
                    let b = i / 8;
                    let mut h = vec![[0u32; 8]; 8];
                    let mut t = vec![0u64; 8];
                    let mut m: Vec<Data> = (0..8).map(|_| Data::zeros(64)).collect();
                    match b {
                        0..=63 => t[l] = 1 << b,
                        64..=319 => h[l][((b - 64) / 32) as usize] = 1 << (b % 32),
                        _ => m[l] = Data { k: 5, s: b - 320, n: 64, a: 0, r: vec![] },
                    }
                    Case::Kernel { h, m, t, lb: if b % 2 == 0 { 0 } else { 1 << l }, ln: if b % 3 == 0 { 1 << l } else { 0 }, rot: (i / 64 % 8) as u8 }
                }),
                g("forced portable in histories", k(40_000), PORT, move || gen::prog(m, 14)),
                g("histories after much input", k(200), LONG, move || gen::late(m, 23, 8)),
                g("long walks along block boundaries", k(1_000), PORT, || gen::walk(false, false, true, 1000)),
                g("long walks along block boundaries, BLAKE2sp", k(1_000), PORT, || gen::walk(true, false, true, 700)),
            ]
        }
        "C12" => vec![
            e("every small value of each setter", 11 * 320, 0, |i| {
                let v = (i / 11) as usize;
                let b = |n: usize| d(i, n);
                let c = match i % 11 {
                    0 => Call::Hl(v),
                    1 => Call::Key(b(v)),
                    2 => Call::Salt(b(v)),
                    3 => Call::Pers(b(v)),
                    4 => Call::Fo(v as u8),
                    5 => Call::Md(v as u8),
                    6 => Call::Leaf(if v < 64 { 1u32.rotate_left(v as u32) } else { v as u32 }),
                    7 => Call::Off(if v < 64 { 1u64 << v } else if v < 128 { (1u64 << (v - 64)) - 1 } else if v < 192 { (1u64 << (v - 128)) + 1 } else { v as u64 }),
                    8 => Call::Nd(v as u8),
                    9 => Call::Inner(v),
                    _ => Call::Last(v % 2 == 1),
                };
                Case::Setters { sp: false, calls: vec![Call::Key(b(3)), c], d: d(i, 100) }
            }),
            e("BLAKE2sp setters", 2 * 320, 0, |i| {
                let v = (i / 2) as usize;
                let c = if i % 2 == 0 { Call::Hl(v) } else { Call::Key(d(i, v)) };
                Case::Setters { sp: true, calls: vec![c], d: d(i, 100) }
            }),
            e("values that wrap to legal ones", 5 * 64 * 34, SETREJ, |i| {
                let (w, bit, low) = (i % 5, i / 5 % 64, (i / 320) as usize);
                let big = (1u64 << bit) as usize;
                let v = big.wrapping_add(low);
                let c = match w {
                    0 | 3 => Call::Hl(v),
                    1 => Call::Inner(v),
                    2 => Call::Off(((1u64 << 48) << (bit % 16)) | low as u64),
                    _ => Call::Key(d(i, (1usize << (bit % 17)) + low)),
                };
                Case::Setters { sp: w == 3 || (w == 4 && bit % 2 == 0), calls: vec![Call::Hl(9), c], d: d(i, 10) }
            }),
            e("extreme values", 3 * 8 * 64 * 5, SETREJ, |i| {
                let (w, kind, bit, x) = (i % 3, i / 3 % 8, i / 24 % 64, i / 1536);
                let v = match kind {
                    0 => (!0u64).wrapping_sub(bit),
                    1 => !0 << bit,
                    2 => !0 >> bit,
                    3 => !(1 << bit),
                    4 => 1 << bit,
                    5 => (1u64 << bit).wrapping_mul(0x0001_0001_0001_0001),
                    6 => (mix64(i) | 1 << 48) << (bit % 16),
                    _ => mix64(i) >> bit,
                };
                let v = v.wrapping_add(x).wrapping_sub(2);
                let c = match w {
                    0 => Call::Off(v),
                    1 => Call::Hl(v as usize),
                    _ => Call::Inner(v as usize),
                };
                Case::Setters { sp: w == 1 && bit % 2 == 1, calls: vec![Call::Off(12345), Call::Inner(7), c], d: d(i, 10) }
            }),
            e("gigantic slices", 4 * 8 * 36, SETREJ, |i| Case::Giant {
                what: (i % 4) as u8,
                a: (1u64 << [8, 15, 16, 31, 32, 33, 8, 32][(i / 4 % 8) as usize]) * if i / 4 % 8 > 5 { 3 } else { 1 } + i / 32,
                b: 0,
            }),
            g("random sequences", k(500_000), SETREJ, || gen::setters(10)),
        ],
        "C13" => vec![
            g("random sequences of legal calls", k(400_000), OVERWR, || gen::setters_legal(14)),
            g("with rejected calls", k(120_000), OVERWR | SETREJ, || gen::setters(14)),
            g("hundreds of calls", k(150), OVERWR, || gen::setters_legal(1500)),
            e("every pair of setters, in both orders, then one again", 11 * 11 * 11, OVERWR | PARAMS, |i| {
                let one = |j: u64, v: usize| match j {
                    0 => Call::Hl(1 + v % 32),
                    1 => Call::Key(d(i + v as u64, v * 5 % 33)),
                    2 => Call::Salt(d(i + v as u64, v * 3 % 9)),
                    3 => Call::Pers(d(i + v as u64, v * 7 % 9)),
                    4 => Call::Fo(v as u8),
                    5 => Call::Md(1 + v as u8),
                    6 => Call::Leaf(v as u32 * 77_777_777),
                    7 => Call::Off(v as u64 * 7_777_777_777),
                    8 => Call::Nd(v as u8),
                    9 => Call::Inner(v % 33),
                    _ => Call::Last(v % 2 == 1),
                };
                let (a, b, c) = (i % 11, i / 11 % 11, i / 121);
                Case::Setters {
                    sp: false,
                    calls: vec![one(a, 31), one(b, 13), Call::ToState, one(c, 6), Call::Clone, one(a, 3), one(b, 1)],
                    d: d(i, 64),
                }
            }),
            e("shorter values replace longer ones", 33 * 33 + 81 * 2, OVERWR, |i| {
                let calls = if i < 33 * 33 {
                    vec![Call::Key(d(i, (i % 33) as usize)), Call::Key(d(!i, (i / 33) as usize))]
                } else {
                    let j = i - 33 * 33;
                    let (x, y) = (d(j, (j / 2 % 9) as usize), d(!j, (j / 18) as usize));
                    if j % 2 == 0 {
                        vec![Call::Salt(x), Call::Salt(y)]
                    } else {
                        vec![Call::Pers(x), Call::Pers(y)]
                    }
                };
                Case::Setters { sp: i % 2 == 0 && i < 33 * 33, calls, d: d(i, 128) }
            }),
            g("default objects", k(4_000), 0, || {
                gen::prog(Mix { new: 1, up: 2, fin: 1, snew: 1, sup: 2, sfin: 1, slots: 3, spslots: 2, small: true, top: 12, ..Mix::default() }, 8)
            }),
        ],
        "C14" => vec![
            e("every bit of a message", 9 * 1600, DISTINCT, |i| Case::Mutant {
                iface: (i % 9) as u8,
                p: P::default(),
                d: d(1, 192),
                m: vec![Mutation::FlipBit(i / 9)],
                lane: (i / 9 % 8) as u8,
            }),
            e("every single parameter change", 9 * 440, DISTINCT, |i| {
                let b = i / 9;
                let m = match b {
                    0..=63 => Mutation::SaltBit(b as u8),
                    64..=127 => Mutation::PersBit((b - 64) as u8),
                    128..=159 => Mutation::LeafBit((b - 128) as u8),
                    160..=207 => Mutation::OffBit((b - 160) as u8),
                    208..=240 => Mutation::KeyLen((b - 208) as u8),
                    241..=265 => Mutation::Hl((b - 241) as u8),
                    266..=298 => Mutation::Inner((b - 266) as u8),
                    299..=306 => Mutation::Fo(1 << (b - 299)),
                    307..=314 => Mutation::Md(1 << (b - 307)),
                    315..=322 => Mutation::Nd(1 << (b - 315)),
                    323 => Mutation::Last,
                    324 => Mutation::OtherAlg,
                    325 => Mutation::SwapSaltPers,
                    326 => Mutation::MoveKeyToMessage,
                    327 => Mutation::Append(0),
                    328 => Mutation::Truncate,
                    _ => Mutation::KeyBit((b - 329) as u16 * 5),
                };
                let n = [64, 128, 100][(i % 3) as usize];
                Case::Mutant { iface: (i % 9) as u8, p: P { salt: vec![3], pers: vec![4, 5], ..keyed(&P::default(), 16) }, d: d(i % 7, n), m: vec![m], lane: (i % 8) as u8 }
            }),
            e("families of related inputs", 9 * 17 * 3, RELATED, |i| Case::Family {
                iface: (i % 9) as u8,
                fam: (i / 9 % 17) as u8,
                p: match i / 153 {
                    0 => P::default(),
                    1 => keyed(&P { hl: 16, salt: vec![3], ..P::default() }, 9),
                    _ => P { fo: 3, md: 4, leaf: 77, off: 1 << 33, nd: 2, inner: 9, last: true, ..P::default() },
                },
                d: d(i / 153, [0, 64, 100][(i / 153) as usize]),
                lane: (i % 8) as u8,
            }),
            g("random families of related inputs", k(1_200), RELATED, gen::family),
            g("random changes", k(900_000), DISTINCT, gen::mutant),
        ],
        "C15" => vec![
            e("every pair of digest lengths, each interface", 32 * 32 * 7, 0, |i| Case::HashV {
                via: (i % 7) as u8,
                hl1: 1 + (i / 7 % 32) as u8,
                hl2: 1 + (i / 224) as u8,
                d1: d(i, 64),
                d2: d(i + 1, 64),
                flip: (mix64(i) % 1024) as u16,
                cut: i as u8,
                ext: i as u8,
                collide: false,
            }),
            e("every bit of a digest, each length", 32 * 256, CRAFT | NE, |i| Case::HashV {
                via: (i % 7) as u8,
                hl1: 1 + (i % 32) as u8,
                hl2: 1 + (i % 32) as u8,
                d1: d(i / 32, 64),
                d2: d(i / 32 + 999, 64),
                flip: (i / 32) as u16,
                cut: (i / 32) as u8,
                ext: (i / 64) as u8,
                collide: false,
            }),
            e("hashes of zeros against zeros of every length", 32 * 8 * 70, EQ | NE, |i| Case::Giant {
                what: 6,
                a: [0, 1 << 8, 1 << 9, 1 << 15, 1 << 16, 1 << 31, 1 << 32, 1 << 33][(i / 32 % 8) as usize] + i / 256,
                b: (i % 32) as u8,
            }),
            g("random", k(400_000), EQ | NE, gen::hashv),
        ],
        "C16" => vec![
            e("a one-byte difference at every position", 2 * 32 * 3, TRACED, |i| {
                let hl = 1 + (i / 2 % 32) as u8;
                let v = [1u8, 0x80, 0xff][(i / 64) as usize];
                let flips = (0..hl as usize).map(|p| { let mut f = vec![0; 32]; f[p] = v; f }).collect();
                Case::CtEq { hl, slice: i % 2 == 1, d: d(i, 50), flips }
            }),
            g("random differences", k(12_000), TRACED, gen::cteq),
        ],
        "C17" => vec![
            e("every fill level, keyed", 2 * 1200, FMT, |i| {
                let n = (i / 2) as usize;
                let ops = if i % 2 == 0 {
                    vec![Op::New { i: 0, p: keyed(&P::default(), (n * 7) % 33) }, Op::Up { i: 0, d: d(i, n % 300) }, Op::Fin { i: 0, times: 1 }]
                } else {
                    vec![Op::SNew { i: 0, q: Q { hl: 32, key: vec![8; (n * 7) % 33] } }, Op::SUp { i: 0, d: d(i, n) }, Op::SFin { i: 0, times: 1 }]
                };
                Case::Dbg { ops, v: 1 + mix64(i) % 100_000 }
            }),
            g("random histories", k(100_000), FMT, gen::dbg),
            g("long messages and hundreds of calls", k(400), LONG | MANYCALLS, || gen::dbg_long(20)),
        ],
        "C18" => {
            let m = |top, small| gen::everything(top, small);
            let mut v = vec![
                e("every small length at every offset", 64 * 260, 0, |i| Case::Prog {
                    ops: vec![
                        Op::Up { i: 0, d: Data { k: 4, s: i, n: (i / 64) as usize, a: (i % 64) as u8, r: vec![] } },
                        Op::SUp { i: 0, d: Data { k: 4, s: i, n: (i / 64) as usize * 5, a: (i % 64) as u8, r: vec![] } },
                    ],
                }),
                g("random histories", k(25_000), 0, move || gen::prog(m(12, true), 14)),
                g("random histories, longer messages", k(4_000), 0, move || gen::prog(m(15, false), 6)),
                g("histories after much input", k(300), LONG, move || gen::late(m(11, true), 24, 10)),
                g("hash8", k(15_000), 0, || gen::hash8(11, true, false)),
                g("hash8, longer", k(2_000), 0, || gen::hash8(14, false, false)),
                g("exact, any lengths", k(25_000), 0, gen::exact_any),
                g("exact, well-formed", k(10_000), 0, || gen::exact_ok(100)),
                g("kernels", k(10_000), 0, gen::kernel),
                g("setters", k(10_000), 0, || gen::setters(8)),
                g("hash values", k(8_000), 0, gen::hashv),
                g("whole messages", k(10_000), 0, || gen::one(14)),
                g("whole messages, BLAKE2sp", k(10_000), 0, || gen::one_sp(14)),
            ];
            v.iter_mut().for_each(|c| c.guard = Guard::Always);
            v
        }
        "C19" => vec![
            g("random histories", k(20_000), 0, move || gen::prog(gen::everything(12, true), 14)),
            g("histories after much input", k(200), LONG, || gen::late(gen::everything(11, true), 24, 10)),
            g("walks along block boundaries", k(200), 0, || gen::walk(false, true, true, 400)),
            g("walks along block boundaries, BLAKE2sp", k(200), 0, || gen::walk(true, true, true, 400)),
            g("walks along block boundaries, eight lanes", k(100), 0, || gen::walk8(200)),
            g("hash8", k(10_000), 0, || gen::hash8(11, true, false)),
            g("exact", k(10_000), 0, || gen::exact_ok(60)),
            g("whole messages", k(20_000), 0, || gen::one(13)),
            g("whole messages, BLAKE2sp", k(10_000), 0, || gen::one_sp(13)),
            g("setters", k(10_000), 0, || gen::setters(8)),
        ],
        "C20" => {
            let mut v = vec![
                g("two to eight threads", k(2_500), CONC, || gen::threads(8, 11, true, 8)),
                g("two to eight threads, longer messages", k(250), CONC, || gen::threads(8, 16, false, 6)),
                g("first use in a process", k(600), CONC, gen::fresh),
            ];
            v.iter_mut().for_each(|c| {
                c.serial = true;
                c.guard = Guard::Never;
            });
            v.push(g("a call interrupted by calls on another thread", k(1_200), INTER, gen::inter));
            v.last_mut().unwrap().guard = Guard::Never;
            v
        }
        "C21" => {
            let m = |top, small| Mix {
                new: 2, up: 3, wr: 8, fin: 2, cl: 1, last: 1, port: 1, snew: 2, sup: 3, swr: 8, sfin: 2, slots: 3, spslots: 2, top, small, ..Mix::default()
            };
            vec![
                e("every length to 1200, each way of writing", 1201 * 12 * 2, WRITE, |i| {
                    let (how, n) = ((i / 2 % 12) as u8, (i / 24) as usize);
                    let ops = if i % 2 == 0 {
                        vec![Op::Wr { i: 0, d: d(i, n), how }, Op::Wr { i: 0, d: d(i + 1, 70), how: (how + 1) % 12 }]
                    } else {
                        vec![Op::SWr { i: 0, d: d(i, n), how }, Op::SWr { i: 0, d: d(i + 1, 600), how: (how + 1) % 12 }]
                    };
                    Case::Prog { ops }
                }),
                g("random histories", k(60_000), WRITE, move || gen::prog(m(12, true), 14)),
                g("longer messages", k(4_000), WRITE, move || gen::prog(m(15, false), 8)),
                g("long messages", k(120), LONG, move || gen::prog(m(21, false), 3)),
                g("hundreds of calls", k(150), MANYCALLS, move || gen::many(m(10, true), 16)),
                g("histories after much input", k(200), LONG, move || gen::late(m(11, true), 24, 8)),
                g("long walks along block boundaries", k(500), WRITE, || gen::walk(false, true, false, 1000)),
                g("long walks along block boundaries, BLAKE2sp", k(500), WRITE, || gen::walk(true, true, false, 700)),
                e("2^16 tiny writes", 10 * 4, MANYCALLS, |i| {
                    let n = [0, 1, 63, 64, 65, 128, 511, 512, 1023, 1024][i as usize / 4];
                    let t = (i % 2) as usize;
                    if i % 4 < 2 {
                        tiny_steps(Op::New { i: 0, p: P::default() }, Op::Up { i: 0, d: d(i, n) }, Op::Wr { i: 0, d: d(i, t), how: 0 })
                    } else {
                        tiny_steps(Op::SNew { i: 0, q: Q { hl: 32, key: vec![] } }, Op::SUp { i: 0, d: d(i, n) }, Op::SWr { i: 0, d: d(i, t), how: 0 })
                    }
                }),
            ]
        }
        // Stepping through every instruction.
        "C22" => {
            let mut v = vec![
                e("each interface at the edges, stepped", 13 * 12 * 2, TRACED, |i| {
                    let n = [0, 1, 31, 64, 65, 128, 129, 200, 512, 513, 577, 1100][(i / 13 % 12) as usize];
                    let what = (i % 13) as u8;
                    call_case(0, what, if matches!(what, 4..=7) { n / 4 } else { n }, i / 13 / 12, i)
                }),
                g("random, stepped", k(500), TRACED, || gen::call_of(0, 600)),
            ];
            v.iter_mut().for_each(|c| c.guard = Guard::Never);
            v
        }
        "C22 by callbacks" => {
            let mut v = vec![
                e("each interface at the edges", 13 * 32 * 3, TRACED, |i| {
                    let (what, n) = ((i % 13) as u8, EDGE[((i / 13) % 32) as usize]);
                    call_case(0, what, n, i / 13 / 32, i)
                }),
                e("each interface at every length to 700", 13 * 701 * 3, TRACED, |i| {
                    call_case(0, (i % 13) as u8, (i / 13 % 701) as usize, i / 13 / 701, i)
                }),
                g("random", k(60_000), TRACED, || gen::call_of(0, 5000)),
                g("random, longer", k(6_000), TRACED, || gen::call_of(0, 100_000)),
                g("random, after much input", k(4_000), TRACED, || gen::call_late(0, 1500, 18)),
                g("random, after very much input", k(150), TRACED, || gen::call_late(0, 1500, 25)),
            ];
            v.iter_mut().for_each(|c| c.guard = Guard::Never);
            v
        }
        "C23" => {
            let mut v = vec![
                e("each interface at the edges", 14 * 32 * 3, LEAN, |i| {
                    let (what, n) = ((i % 14) as u8, EDGE[((i / 14) % 32) as usize]);
                    call_case(1, what, n, i / 14 / 32, i)
                }),
                g("random", k(40_000), LEAN, || gen::call_of(1, 20_000)),
                g("long messages", k(700), LEAN, || gen::call_of(1, 6 << 20)),
            ];
            v.iter_mut().for_each(|c| c.guard = Guard::Never);
            v
        }
        "C24" => {
            let mut v = vec![
                g("random histories", k(40_000), 0, move || gen::prog(gen::everything(12, true), 14)),
                g("random histories, longer messages", k(3_000), 0, move || gen::prog(gen::everything(16, false), 8)),
                g("hundreds of calls", k(40), 0, move || gen::many(gen::everything(10, true), 16)),
                g("histories after much input", k(200), LONG, || gen::late(gen::everything(11, true), 24, 10)),
                g("walks along block boundaries", k(200), 0, || gen::walk(false, true, true, 400)),
                g("walks along block boundaries, BLAKE2sp", k(200), 0, || gen::walk(true, true, true, 400)),
                g("walks along block boundaries, eight lanes", k(100), 0, || gen::walk8(200)),
                g("hash8", k(15_000), 0, || gen::hash8(12, false, false)),
                g("exact, well-formed", k(15_000), 0, || gen::exact_ok(100)),
                g("legal setter calls", k(40_000), 0, || gen::setters_legal(14)),
                g("whole messages", k(30_000), 0, || gen::one(14)),
                g("whole messages, BLAKE2sp", k(15_000), 0, || gen::one_sp(14)),
                g("hash values", k(30_000), 0, gen::hashv),
                g("kernels", k(15_000), 0, gen::kernel),
                e("every value of each parameter", SWEEP, 0, |i| Case::One { p: param_sweep(i), d: d(i, [0, 70, 128][i as usize % 3]) }),
                e("every length to 2700", 2701, 0, |i| Case::Prog {
                    ops: vec![
                        Op::Up { i: 0, d: d(i, i as usize) },
                        Op::SUp { i: 0, d: d(i, i as usize) },
                        Op::Up { i: 0, d: d(i, 1) },
                        Op::SUp { i: 0, d: d(i, 1) },
                    ],
                }),
            ];
            v.iter_mut().for_each(|c| c.total = true);
            v
        }
        "C24 by callbacks" => vec![
            e("cost of each interface at the edges", 14 * 32 * 3, COUNTED, |i| {
                let (what, n) = ((i % 14) as u8, EDGE[((i / 14) % 32) as usize]);
                call_case(2, what, n, i / 14 / 32, i)
            }),
            e("cost of each interface at 3 MiB", 14 * 4, COUNTED, |i| {
                let mut c = call_case(2, (i % 14) as u8, (3 << 20) + EDGE[i as usize % 32], i / 14 % 3, i);
                if let Case::Call { what, d, .. } = &mut c {
                    let lanes = if *what < 4 || *what > 7 { 1 } else { 8 };
                    // Contents of each kind; several inputs share the length.
                    d.iter_mut().for_each(|d| (d.k, d.n) = ([0, 1, 4, 2][(i / 14) as usize], d.n / lanes / 64 * 64 + if *what == 6 || *what == 7 { 0 } else { d.n % 64 }));
                }
                c
            }),
            g("cost of one use", k(30_000), COUNTED, || gen::call_of(2, 12_000)),
            g("cost of one use, longer", k(3_000), COUNTED, || gen::call_of(2, 400_000)),
        ],
        _ => vec![],
    }
}

fn eight_case(f: &[usize; 8], n: &[usize; 8], s: u64, fin: bool) -> Case {
    let mut ops = Vec::new();
    for i in 0..8u8 {
        let p = P {
            hl: if s % 7 == 0 { 1 + i * 3 } else { 32 },
            last: i % 3 == 0,
            nd: i,
            key: if (s >> i) % 11 == 0 { vec![i; 9] } else { vec![] },
            ..P::default()
        };
        ops.push(Op::New { i, p });
        if f[i as usize] > 0 {
            ops.push(Op::Up { i, d: d(s * 8 + i as u64, f[i as usize]) });
        }
        if fin && i % 2 == 0 {
            ops.push(Op::Fin { i, times: 1 });
        }
    }
    ops.push(Op::Up8 { lanes: [0; 8], d: std::array::from_fn(|i| d(s * 16 + i as u64, n[i])) });
    ops.push(Op::Fin8 { lanes: [0; 8] });
    if s % 4 == 0 {
        ops.push(Op::Up8 { lanes: [(s % 8) as u8; 8], d: std::array::from_fn(|i| d(s * 16 + i as u64, 65 + i)) });
    }
    Case::Prog { ops }
}

/// One use of an interface with n bytes (in every lane), watched.
fn call_case(mode: u8, what: u8, n: usize, variant: u64, s: u64) -> Case {
    let (lanes, n) = match what {
        4 | 5 => (8, n),
        6 => (4, (n + 63) / 64 * 64 + 64 * (n == 0) as usize),
        7 => (8, (n + 63) / 64 * 64 + 64 * (n == 0) as usize),
        _ => (1, n),
    };
    let (p, q) = match variant {
        0 => (P::default(), Q { hl: 32, key: vec![] }),
        1 => (keyed(&P::default(), 32), Q { hl: 32, key: vec![7; 32] }),
        _ => (P { hl: 20, last: true, salt: vec![3], ..keyed(&P::default(), 5) }, Q { hl: 9, key: vec![1, 2, 3] }),
    };
    // Zero, all ones, a counter, random, one bit of the key.
    let mut v = vec![];
    let mut x = s;
    for k in [0u64, 1, 2, 3, 5] {
        x = mix64(x);
        v.push(x & 0xff_ffff_ffff & !7 | k);
    }
    Case::Call { mode, what, p, q, d: (0..lanes).map(|l| Data { k: 4, s: s * 8 + l, n, a: (s % 64) as u8, r: vec![] }).collect(), cut: vec![(s % 70) as usize, 64 * (s % 3) as usize], v, pre: 0 }
}

fn hash8_case(n: &[usize; 8], s: u64) -> Case {
    let p = (0..8u8)
        .map(|i| {
            if s % 2 == 0 {
                P::default()
            } else {
                P {
                    hl: 32 - (i * 3 + (s % 5) as u8) % 32,
                    last: (s >> (i % 8)) & 1 == 1,
                    fo: i,
                    salt: vec![i; i as usize],
                    off: (s << i) & 0xffff_ffff_ffff,
                    ..P::default()
                }
            }
        })
        .collect();
    Case::Hash8 { p, d: (0..8).map(|i| d(s * 8 + i as u64, n[i])).collect() }
}

/// Histories that start from states fed about 4 GiB.
pub fn big_components(prop: &str, scale: u64) -> Vec<Comp> {
    let k = |n: u64| n * scale;
    let b = |m: Mix, n: u64, len: usize, name: &'static str| {
        let mut c = g(name, k(n), BIG, move || gen::prog(m, len));
        c.guard = Guard::Never;
        c
    };
    let m = Mix { big: 8, up: 6, many: 1, fin: 3, slots: 3, top: 13, ..Mix::default() };
    match prop {
        "C02" => vec![b(m, 4_000, 10, "histories around 4 GiB")],
        "C03" => vec![b(Mix { cl: 4, last: 4, fin: 5, ..m }, 4_000, 14, "histories around 4 GiB")],
        "C06" => vec![b(Mix { big: 20, up8: 8, fin8: 6, slots: 10, new: 1, last: 1, ..m }, 4_000, 24, "eight-lane histories around 4 GiB")],
        "C10" => vec![b(Mix { big: 10, port: 5, up8: 3, fin8: 3, slots: 9, ..m }, 4_000, 20, "forced portable around 4 GiB")],
        "C11" => vec![b(Mix { big: 20, port: 2, wr: 2, cl: 2, up8: 8, fin8: 6, slots: 10, new: 1, last: 1, ..m }, 8_000, 24, "histories around 4 GiB")],
        "C21" => vec![b(Mix { wr: 6, ..m }, 2_000, 10, "writing around 4 GiB")],
        _ => vec![],
    }
}

/// Watched instruction by instruction, on a pretended lesser CPU.
pub fn stepped_components(prop: &str, scale: u64) -> Vec<Comp> {
    if prop != "C19" {
        return vec![];
    }
    let k = |n: u64| n * scale;
    let mut v = vec![
        g("watched: random histories", k(160), 0, move || gen::prog(gen::everything(9, true), 5)),
        g("watched: hash8", k(80), 0, || gen::hash8(9, true, false)),
        g("watched: exact", k(80), 0, || gen::exact_ok(6)),
        g("watched: whole messages", k(80), 0, || gen::one(9)),
        g("watched: whole messages, BLAKE2sp", k(80), 0, || gen::one_sp(11)),
        g("watched: setters", k(40), 0, || gen::setters(3)),
        g("watched: hash values", k(40), 0, gen::hashv),
    ];
    v.iter_mut().for_each(|c| {
        c.guard = Guard::Never;
        c.stepped = true;
    });
    v
}
