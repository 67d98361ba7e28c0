//! The reference model must agree with hashlib and the official KATs before its word counts.
use crate::refimpl::*;
use serde::Deserialize;

#[derive(Deserialize)]
struct SVec {
    n: usize,
    dl: u8,
    key: String,
    salt: String,
    person: String,
    fanout: u8,
    depth: u8,
    leaf: u32,
    off: u64,
    nd: u8,
    inner: u8,
    last: bool,
    out: String,
}
#[derive(Deserialize)]
struct SpVec {
    n: usize,
    key: String,
    out: String,
}
#[derive(Deserialize)]
struct All {
    s: Vec<SVec>,
    sp: Vec<SpVec>,
    sp_kat: Vec<SpVec>,
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2)
        .map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap())
        .collect()
}
fn data(n: usize) -> Vec<u8> {
    (0..n)
        .map(|i| ((i.wrapping_mul(167)) ^ (i >> 8).wrapping_mul(13) ^ (i >> 3)) as u8)
        .collect()
}

/// Returns the number of vectors checked, or what disagreed.
pub fn run(limit: usize) -> Result<usize, String> {
    if limit == 0 {
        // Where interpretation is slow: two known answers.
        let ok = hex(&hash_whole(&RParams::default(), b"abc"))
            == "508c5e8c327c14e2e1a72ba34eeb452f37458b209ed63a294d999b4c86675982"
            && hex(&hash_whole_sp(18, b"bar", b"foo")) == "947d4c671e2794f5e1a57daeca97bb46ed66";
        return if ok { Ok(2) } else { Err("known answers".into()) };
    }
    let all: All = serde_json::from_str(include_str!("../vectors.json")).map_err(|e| e.to_string())?;
    let mut n = 0;
    for (i, v) in all.s.iter().take(limit).enumerate() {
        let p = RParams {
            digest_len: v.dl,
            key: unhex(&v.key),
            salt: unhex(&v.salt),
            personal: unhex(&v.person),
            fanout: v.fanout,
            depth: v.depth,
            leaf_len: v.leaf,
            node_offset: v.off,
            node_depth: v.nd,
            inner_len: v.inner,
            last_node: v.last,
        };
        let d = data(v.n);
        if hex(&hash_whole(&p, &d)) != v.out {
            return Err(format!("whole-message model, vector s[{}]", i));
        }
        let mut s = RStream::new(&p);
        let mut at = 0;
        let mut step = 1 + i % 70;
        while at < d.len() {
            let k = step.min(d.len() - at);
            s.feed(&d[at..at + k]);
            at += k;
            step = 1 + (step * 31 + 17) % 200;
        }
        if hex(&s.digest()) != v.out || s.fed != d.len() as u64 {
            return Err(format!("incremental model, vector s[{}]", i));
        }
        n += 1;
    }
    let kat = |n: usize| -> Vec<u8> { (0..n).map(|i| i as u8).collect() };
    let sp = all.sp.iter().map(|v| (v, data(v.n)));
    let spk = all.sp_kat.iter().map(|v| (v, kat(v.n)));
    for (i, (v, d)) in sp.take(limit).chain(spk.take(limit)).enumerate() {
        let key = unhex(&v.key);
        if hex(&hash_whole_sp(32, &key, &d)) != v.out {
            return Err(format!("whole-message BLAKE2sp model, vector {}", i));
        }
        let mut s = RSp::new(32, &key);
        let mut at = 0;
        let mut step = 1 + i % 700;
        while at < d.len() {
            let k = step.min(d.len() - at);
            s.feed(&d[at..at + k]);
            at += k;
            step = 1 + (step * 31 + 17) % 1500;
        }
        if hex(&s.digest()) != v.out {
            return Err(format!("incremental BLAKE2sp model, vector {}", i));
        }
        n += 1;
    }
    // From the BLAKE2 designers' C code (digest length 18, key "bar", input "foo").
    if hex(&hash_whole_sp(18, b"bar", b"foo")) != "947d4c671e2794f5e1a57daeca97bb46ed66" {
        return Err("BLAKE2sp with digest length 18".into());
    }
    let mut s = RSp::new(18, b"bar");
    s.feed(b"foo");
    if hex(&s.digest()) != "947d4c671e2794f5e1a57daeca97bb46ed66" {
        return Err("incremental BLAKE2sp with digest length 18".into());
    }
    Ok(n + 1)
}
