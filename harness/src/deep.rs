//! Inputs past 4 GiB. The message is a 16 MiB random pattern repeated; it is mapped many times in a
//! row instead of stored, and the reference model runs over the same bytes in other threads.
use crate::build::Build;
use crate::case::{P, Q};
use crate::data::random_fill_pub;
use crate::exec::{call_exact4, call_exact8, call_hash8};
use crate::refimpl::{RParams, RSp, RStream};
use crate::selftest::hex;
use blake2s_simd as b2;
use std::collections::HashMap;
use std::sync::{Arc, Mutex, OnceLock};

const PAT: usize = 1 << 24;
pub const G4: u64 = 1 << 32;

struct Region {
    ptr: *const u8,
    len: usize,
}
unsafe impl Send for Region {}
unsafe impl Sync for Region {}

fn pattern() -> &'static [u8] {
    static P: OnceLock<Vec<u8>> = OnceLock::new();
    P.get_or_init(|| {
        let mut v = vec![0; PAT];
        random_fill_pub(0x4e0f1a, &mut v);
        v
    })
}

/// 16 GiB + 64 MiB of the repeated pattern, read-only.
fn region() -> &'static [u8] {
    static R: OnceLock<Region> = OnceLock::new();
    let r = R.get_or_init(|| unsafe {
        let len = 4 * (G4 as usize) + 4 * PAT;
        let fd = libc::memfd_create(c"pattern".as_ptr(), 0);
        assert!(fd >= 0, "memfd_create failed");
        assert_eq!(0, libc::ftruncate(fd, PAT as i64));
        let w = libc::mmap(std::ptr::null_mut(), PAT, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, fd, 0);
        assert!(w != libc::MAP_FAILED);
        std::slice::from_raw_parts_mut(w as *mut u8, PAT).copy_from_slice(pattern());
        libc::munmap(w, PAT);
        let base = libc::mmap(
            std::ptr::null_mut(),
            len,
            libc::PROT_NONE,
            libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
            -1,
            0,
        );
        assert!(base != libc::MAP_FAILED);
        for i in 0..len / PAT {
            let at = (base as *mut u8).add(i * PAT) as *mut libc::c_void;
            let m = libc::mmap(at, PAT, libc::PROT_READ, libc::MAP_SHARED | libc::MAP_FIXED, fd, 0);
            assert!(m == at);
        }
        libc::close(fd);
        Region { ptr: base as *const u8, len }
    });
    unsafe { std::slice::from_raw_parts(r.ptr, r.len) }
}

type Snaps = Arc<Vec<(u64, RStream)>>;

/// The model after each of `marks` (ascending) bytes of the message starting at offset `off`.
fn reference(p: &RParams, off: usize, marks: &[u64]) -> Snaps {
    static MEMO: OnceLock<Mutex<HashMap<String, Arc<OnceLock<Snaps>>>>> = OnceLock::new();
    let key = format!("{:?} {} {:?}", p, off, marks);
    let cell = MEMO.get_or_init(Default::default).lock().unwrap().entry(key).or_default().clone();
    cell.get_or_init(|| {
        let r = region();
        let mut s = RStream::new(p);
        let mut at = 0u64;
        let mut out = Vec::new();
        for &m in marks {
            // One page of memory many times over costs page tables: stay in the first 32 MiB.
            while at < m {
                let o = (off + at as usize) % PAT;
                let k = (m - at).min(PAT as u64);
                s.feed(&r[o..o + k as usize]);
                at += k;
            }
            out.push((m, s.clone()));
        }
        Arc::new(out)
    })
    .clone()
}
fn snap(v: &Snaps, n: u64) -> &RStream {
    &v.iter().find(|x| x.0 == n).expect("mark").1
}

pub fn marks(deltas: &[i64]) -> Vec<u64> {
    let mut v: Vec<u64> = deltas.iter().map(|d| (G4 as i64 + d) as u64).collect();
    v.sort();
    v.dedup();
    v
}

fn multi_params() -> P {
    P { salt: vec![1, 2, 3], last: true, off: 5, ..P::default() }
}
pub fn state_params(which: usize) -> P {
    match which {
        0 => P::default(),
        1 => P { hl: 20, key: (1..=32).collect(), pers: vec![7; 8], last: true, ..P::default() },
        _ => P { key: vec![9], salt: vec![3; 8], ..P::default() },
    }
}

pub struct Report {
    pub checks: u64,
    pub note: String,
}

fn same(what: String, got: &[u8], want: &[u8]) -> Result<(), String> {
    if got != want {
        return Err(format!("{}: digest {} should be {}", what, hex(got), hex(want)));
    }
    Ok(())
}

/// One state fed past 4 GiB, looked at at every mark. Returns the states at the marks.
pub fn state_job(
    which: usize,
    portable: bool,
    step: usize,
    deltas: &[i64],
) -> Result<(Report, Vec<(b2::State, RStream)>), String> {
    let p = state_params(which);
    let ms = marks(deltas);
    let mut st = p.build().to_state();
    if portable {
        crate::portable::force(&mut st);
    }
    let r = region();
    let mut at = 0usize;
    let mut got = Vec::new();
    for &m in &ms {
        if step == 0 {
            st.update(&r[at..m as usize]);
        } else {
            for c in r[at..m as usize].chunks(step) {
                st.update(c);
            }
        }
        at = m as usize;
        if st.count() != m {
            return Err(format!("count() is {} after {} bytes", st.count(), m));
        }
        got.push((m, st.clone(), st.finalize()));
        if st.count() != m {
            return Err(format!("count() is {} after finalizing at {} bytes", st.count(), m));
        }
    }
    let want = reference(&p.model(), 0, &ms);
    let mut out = Vec::new();
    for (m, s, h) in got {
        same(format!("state {} after {} bytes", which, m), h.as_bytes(), &snap(&want, m).digest())?;
        out.push((s, snap(&want, m).clone()));
    }
    Ok((
        Report { checks: ms.len() as u64 * 2, note: format!("BLAKE2s state, parameters {:?}, portable {}, update size {}, looked at after {:?} bytes", p, portable, step, ms) },
        out,
    ))
}

pub fn one_shot_job(delta: i64) -> Result<Report, String> {
    let ms = marks(&[delta]);
    let h = b2::blake2s(&region()[..ms[0] as usize]);
    let want = reference(&RParams::default(), 0, &ms);
    same(format!("blake2s() of {} bytes", ms[0]), h.as_bytes(), &snap(&want, ms[0]).digest())?;
    Ok(Report { checks: 1, note: format!("blake2s() of {} bytes", ms[0]) })
}

const LANE: usize = 64 * 33 + 1;
/// Three different contents over the lanes.
fn lane_off(i: usize) -> usize {
    (i % 3) * LANE
}

/// The last-node flag matters only when finalizing, so lanes can differ in it and share the model's work.
fn lane_last(i: usize) -> bool {
    i % 2 == 1
}
fn lane_model(i: usize, n: usize, all: &[i64]) -> RStream {
    let p = multi_params();
    let mut m = if n < 1 << 22 {
        let mut m = RStream::new(&p.model());
        m.feed(&region()[lane_off(i)..lane_off(i) + n]);
        m
    } else {
        snap(&reference(&p.model(), lane_off(i), &marks(all)), n as u64).clone()
    };
    m.last_node = lane_last(i);
    m
}

/// One eight-way update of eight states that already hold a few bytes, with inputs past 4 GiB.
pub fn update8_job(lens: &[i64], held: &[usize; 8], all: &[i64]) -> Result<Report, String> {
    let p = multi_params();
    let r = region();
    let n: Vec<usize> = lens.iter().map(|d| (G4 as i64 + d) as usize).collect();
    let mut st: Vec<b2::State> = (0..8).map(|i| P { last: lane_last(i), ..p.clone() }.build().to_state()).collect();
    for i in 0..8 {
        st[i].update(&r[lane_off(i)..lane_off(i) + held[i].min(n[i])]);
    }
    let refs: Vec<&[u8]> = (0..8).map(|i| &r[lane_off(i) + held[i].min(n[i])..lane_off(i) + n[i]]).collect();
    {
        let mut it = st.iter_mut();
        let mut s = || it.next().unwrap();
        b2::update8(
            s(), s(), s(), s(), s(), s(), s(), s(), refs[0], refs[1], refs[2], refs[3], refs[4], refs[5], refs[6], refs[7],
        );
    }
    let h = {
        let mut it = st.iter_mut();
        let mut s = || it.next().unwrap();
        b2::finalize8(s(), s(), s(), s(), s(), s(), s(), s())
    };
    for i in 0..8 {
        if st[i].count() != n[i] as u64 {
            return Err(format!("update8 lane {}: count() is {} after {} bytes", i, st[i].count(), n[i]));
        }
        let w = lane_model(i, n[i], all).digest();
        same(format!("update8 and finalize8, lane {} ({} bytes)", i, n[i]), h[i].as_bytes(), &w)?;
        same(format!("update8 and finalize, lane {} ({} bytes)", i, n[i]), st[i].finalize().as_bytes(), &w)?;
    }
    Ok(Report { checks: 24, note: format!("update8 of states holding {:?} bytes to lengths {:?}", held, n) })
}

/// Long inputs, of which nothing is asked but that the calls return.
pub const TOTAL: [&str; 8] = ["state", "keyed state, in pieces", "BLAKE2sp in pieces", "hash4_exact", "hash8_exact", "hash8", "update8", "BLAKE2sp, leaves past 4 GiB"];
pub fn total_job(what: usize, delta: i64) -> Result<Report, String> {
    let n = (G4 as i64 + delta) as usize;
    let whole = n / 64 * 64;
    let r = region();
    let p = state_params(1);
    match what {
        0 => {
            let mut s = b2::State::new();
            s.update(&r[..n]).update(&r[..100]);
            s.finalize();
            let _ = (s.count(), format!("{:?}", s), s.clone().update(&r[..1000]).finalize());
        }
        1 => {
            // Slowly over the edge.
            let mut s = p.build().to_state();
            let edge = G4 as usize - 64;
            let mut at = 0;
            while at < n {
                let k = if at < edge - 100 { ((1 << 22) + 17).min(edge - 100 - at) } else if at < edge + 200 { 1 } else { n - at };
                s.update(&r[at..at + k]);
                at += k;
                s.count();
                if k == 1 {
                    s.finalize();
                    let _ = format!("{:?}", s);
                }
            }
            s.finalize();
        }
        2 | 7 => {
            let mut s = b2::blake2sp::Params::new().key(if what == 2 { &[1; 32] } else { &[] }).to_state();
            let edge = (if what == 2 { 1 } else { 8 }) * G4 as usize - 1536;
            let end = edge + 3000;
            let mut at = 0;
            while at < end {
                let k = if at < edge { ((1 << 26) + 17).min(edge - at) } else if at % 8 == 0 { 8 } else { 8 - at % 8 };
                s.update(&r[..k]);
                at += k;
                s.count();
                if k <= 8 {
                    s.finalize();
                    let _ = format!("{:?}", s);
                }
            }
            s.finalize();
        }
        3 => drop(call_exact4(&multi_params().build(), &[&r[..whole]; 4])),
        4 => drop(call_exact8(&multi_params().build(), &[&r[..whole]; 8])),
        5 => {
            let q: Vec<b2::Params> = (0..8).map(|_| multi_params().build()).collect();
            let l: Vec<&[u8]> = (0..8).map(|i| &r[..n - i * 50]).collect();
            call_hash8(&q.iter().collect::<Vec<_>>(), &l);
        }
        _ => {
            let mut st: Vec<b2::State> = (0..8).map(|_| p.build().to_state()).collect();
            let l: Vec<&[u8]> = (0..8).map(|i| &r[..n - i * 50]).collect();
            let mut it = st.iter_mut();
            let mut s = || it.next().unwrap();
            b2::update8(s(), s(), s(), s(), s(), s(), s(), s(), l[0], l[1], l[2], l[3], l[4], l[5], l[6], l[7]);
            let mut it = st.iter_mut();
            let mut s = || it.next().unwrap();
            b2::finalize8(s(), s(), s(), s(), s(), s(), s(), s());
        }
    }
    Ok(Report { checks: 1, note: format!("{}: inputs of {} bytes", TOTAL[what], n) })
}

/// Heap and stack with long inputs.
pub fn lean_job(what: u8, seed: u64, std_on: bool) -> Result<Report, String> {
    let g = G4 as usize / if std_on { 1 } else { 4 };
    let odd = (crate::data::mix64(seed ^ what as u64) % 3000) as usize;
    let n: Vec<usize> = match what {
        2 | 3 | 9 => vec![2 * g + odd],
        4 | 5 => (0..8).map(|i| g / 2 + odd + 50 * i).collect(),
        6 => vec![g / 2; 4],
        7 => vec![g / 2; 8],
        _ => vec![g + odd],
    };
    let q = Q { hl: 32, key: vec![7; 32] };
    crate::raw::lean(what, &state_params(1), &q, region(), &n, &[]).map(|note| Report { checks: 1, note })
}

/// Lengths that differ from allowed ones by multiples of 4 GiB are rejected.
pub fn reject_exact_job(seed: u64) -> Result<Report, String> {
    let r = region();
    let g = G4 as usize;
    let mut n = 0;
    for four in [false, true] {
        let lanes = if four { 4 } else { 8 };
        for l in 0..lanes {
            for (base, odd) in [(64, 64 + g), (64 + g, 64), (0, g), (g, 0), (128, 128 + g + 1)] {
                let refs: Vec<&[u8]> =
                    (0..8).map(|i| if i == l { &r[..odd] } else { &r[(seed as usize + i) % 64..][..base] }).collect();
                let p = b2::Params::new();
                let ok = std::panic::catch_unwind(|| {
                    if four {
                        call_exact4(&p, &refs).len()
                    } else {
                        call_exact8(&p, &refs).len()
                    }
                })
                .is_ok();
                n += 1;
                if ok {
                    return Err(format!("hash{}_exact accepted {} bytes in lane {} and {} in the others", lanes, odd, l, base));
                }
            }
        }
    }
    Ok(Report { checks: n, note: "exact-length calls with lanes differing by 4 GiB".into() })
}

/// Keys, salts and personalizations 4 GiB too long are rejected.
pub fn reject_setter_job() -> Result<Report, String> {
    let r = region();
    let mut n = 0;
    for k in 0..34usize {
        let b = &r[..G4 as usize + k];
        let bad = |what: &str| Err(format!("{} accepted {} bytes", what, b.len()));
        macro_rules! rejected { ($p:expr, $m:ident) => { std::panic::catch_unwind(|| { let mut p = $p; p.$m(b); }).is_err() } }
        if !rejected!(b2::Params::new(), key) {
            return bad("key");
        }
        if !rejected!(b2::blake2sp::Params::new(), key) {
            return bad("blake2sp key");
        }
        if !rejected!(b2::Params::new(), salt) {
            return bad("salt");
        }
        if !rejected!(b2::Params::new(), personal) {
            return bad("personal");
        }
        n += 4;
    }
    Ok(Report { checks: n, note: "keys, salts and personalizations past 4 GiB".into() })
}

/// `lens`: difference from 4 GiB, per lane.
pub fn hash8_job(lens: &[i64], all: &[i64]) -> Result<Report, String> {
    let p = multi_params();
    let r = region();
    let n: Vec<usize> = lens.iter().map(|d| (G4 as i64 + d) as usize).collect();
    let refs: Vec<&[u8]> = (0..8).map(|i| &r[lane_off(i)..lane_off(i) + n[i]]).collect();
    let ps: Vec<b2::Params> = (0..8).map(|i| P { last: lane_last(i), ..p.clone() }.build()).collect();
    let h = call_hash8(&ps.iter().collect::<Vec<_>>(), &refs);
    for i in 0..8 {
        same(format!("hash8 lane {} ({} bytes)", i, n[i]), h[i].as_bytes(), &lane_model(i, n[i], all).digest())?;
    }
    Ok(Report { checks: 8, note: format!("hash8 of lengths {:?}", n) })
}

pub fn exact_job(eight: bool, delta: i64, all: &[i64]) -> Result<Report, String> {
    let p = multi_params();
    let r = region();
    let n = (G4 as i64 + delta) as usize;
    let refs: Vec<&[u8]> = (0..8).map(|i| &r[lane_off(i)..lane_off(i) + n]).collect();
    let h = if eight { call_exact8(&p.build(), &refs).to_vec() } else { call_exact4(&p.build(), &refs).to_vec() };
    for i in 0..h.len() {
        let w = reference(&p.model(), lane_off(i), &marks(all));
        same(
            format!("hash{}_exact lane {} ({} bytes)", h.len(), i, n),
            h[i].as_bytes(),
            &snap(&w, n as u64).digest(),
        )?;
    }
    Ok(Report { checks: h.len() as u64, note: format!("hash{}_exact of {} bytes per lane", h.len(), n) })
}

/// Starts the model for the multi-lane jobs (so that it runs beside them).
pub fn warm_lanes(i: usize, all: &[i64]) {
    reference(&multi_params().model(), lane_off(i), &marks(all));
}

fn sp_params(which: usize) -> Q {
    match which {
        0 => Q { hl: 32, key: vec![] },
        _ => Q { hl: 17, key: (0..32).collect() },
    }
}

fn leaf_pattern(i: usize) -> Vec<u8> {
    let mut v = Vec::with_capacity(PAT / 8);
    for c in pattern().chunks(512) {
        v.extend_from_slice(&c[i * 64..i * 64 + 64]);
    }
    v
}

/// BLAKE2sp until every leaf has seen more than 4 GiB. `total`: log2 of the length aimed at.
/// deltas are relative to that length; those must exceed -1 MiB.
pub fn sp_job(which: usize, total: u32, step: usize, big: u64, deltas: &[i64]) -> Result<Report, String> {
    let q = sp_params(which);
    let n = 1u64 << total;
    let base = n - (1 << 20);
    let r = region();
    // Also looked at a little around the powers of two on the way, if it comes in small pieces.
    let stops: Vec<u64> = (24..total).filter(|_| which == 1).map(|k| (1u64 << k) - 4096).chain([base]).collect();
    let model = std::thread::spawn({
        let (q, stops) = (q.clone(), stops.clone());
        move || {
            let hs: Vec<_> = (0..8usize)
                .map(|i| {
                    let (q, stops) = (q.clone(), stops.clone());
                    std::thread::spawn(move || {
                        let pat = leaf_pattern(i);
                        let mut s = RStream::new(&RSp::leaf_params(q.hl, &q.key, i as u64));
                        let mut at = 0;
                        let mut out = Vec::new();
                        for stop in stops {
                            while at < stop / 8 {
                                let o = (at % pat.len() as u64) as usize;
                                let k = ((stop / 8 - at) as usize).min(pat.len() - o);
                                s.feed(&pat[o..o + k]);
                                at += k as u64;
                            }
                            out.push(s.clone());
                        }
                        out
                    })
                })
                .collect();
            let leaves: Vec<Vec<RStream>> = hs.into_iter().map(|h| h.join().unwrap()).collect();
            stops
                .iter()
                .enumerate()
                .map(|(x, &b)| (b, RSp::from_leaves(q.hl, &q.key, leaves.iter().map(|l| l[x].clone()).collect(), b)))
                .collect::<Vec<_>>()
        }
    });
    let mut st = q.build().to_state();
    let mut at = 0u64;
    let mut feed = |st: &mut b2::blake2sp::State, to: u64| {
        while at < to {
            let o = (at % PAT as u64) as usize;
            let k = (to - at).min(big) as usize;
            let s = &r[o..o + k];
            if step == 0 {
                st.update(s);
            } else {
                for c in s.chunks(step) {
                    st.update(c);
                }
            }
            at += k as u64;
        }
    };
    let mut checks = 0;
    let mut ms: Vec<u64> = deltas.iter().map(|d| (n as i64 + d) as u64).collect();
    // Around 4 GiB in total, and the powers of two.
    let on_the_way = stops[..stops.len() - 1].iter().flat_map(|&b| [-513i64, -64, -1, 0, 1, 65, 513].map(|d| (b as i64 + 4096 + d) as u64));
    let four_g = [-1i64, 0, 1, 513].map(|d| (G4 as i64 + d) as u64);
    ms.extend(on_the_way.chain(four_g).filter(|&m| m < base));
    ms.sort();
    ms.dedup();
    let mut got = Vec::new();
    for &m in &ms {
        feed(&mut st, m);
        if st.count() != m {
            return Err(format!("BLAKE2sp count() is {} after {} bytes", st.count(), m));
        }
        got.push((m, st.finalize()));
    }
    let mut models = model.join().map_err(|_| "model thread died".to_string())?.into_iter().peekable();
    let mut w: Option<(u64, RSp)> = None;
    for (m, h) in got {
        checks += 1;
        while models.peek().map_or(false, |x| x.0 <= m) {
            w = models.next();
        }
        let Some((at, w)) = w.as_mut() else { continue };
        if m - *at > 1 << 25 {
            // Around 4 GiB: only the count.
            continue;
        }
        while *at < m {
            let o = (*at % PAT as u64) as usize;
            let k = (m - *at).min(PAT as u64) as usize;
            w.feed(&r[o..o + k]);
            *at += k as u64;
        }
        same(format!("BLAKE2sp ({:?}) after {} bytes", q, m), h.as_bytes(), &w.digest())?;
        checks += 1;
    }
    Ok(Report { checks, note: format!("BLAKE2sp, parameters {:?}, update size {}, looked at after {:?} bytes", q, step, ms) })
}
