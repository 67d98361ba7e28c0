//! Cases led by what the code compares: a case is run while every comparison made in the crate under
//! test reports its operands; where one operand is found in the case (in a message, a key, a parameter, a length),
//! the other is put in its place. New cases that take a new edge, or meet a comparison for the first time, are
//! continued from. So content that a random search never hits ("these eight bytes", "this very length") is reached.
use crate::case::Case;
use crate::cov::{watch, Compared};
use serde_json::{json, Value};
use std::collections::{HashMap, HashSet, VecDeque};

pub struct Search {
    rng: u64,
    tried: HashMap<(u64, u64), u32>,
    met: HashSet<(u64, u64)>,
    queue: VecDeque<(Case, u32, u32)>,
    pub evals: u64,
    pub solved: u64,
    pub kept: u64,
}

/// Longest message looked into.
const LOOK: usize = 8192;
/// Largest message made.
const LONGEST: u64 = 3 << 20;

impl Search {
    pub fn new(seed: u64) -> Search {
        Search { rng: seed, tried: HashMap::new(), met: HashSet::new(), queue: VecDeque::new(), evals: 0, solved: 0, kept: 0 }
    }
    fn draw(&mut self, n: usize) -> usize {
        self.rng = crate::data::mix64(self.rng);
        (self.rng % n.max(1) as u64) as usize
    }

    /// One case from the queue, or a new one, and the cases made from it. The failing case, if there is one.
    pub fn round(&mut self, base: &mut dyn FnMut() -> Case, legal: &dyn Fn(&Case) -> bool, run: &mut dyn FnMut(&Case, bool) -> Result<(), String>) -> Option<(Case, String)> {
        // What led on is come back to; a third of the time something new.
        let next = if self.draw(3) > 0 { self.queue.pop_front() } else { None };
        let (case, depth) = match next {
            Some((c, depth, left)) => {
                if left > 0 {
                    self.queue.push_back((c.clone(), depth, left - 1));
                }
                (c, depth)
            }
            None => (base(), 0),
        };
        let (r, seen, _) = watch(|| run(&case, false));
        self.evals += 1;
        if let Err(e) = r {
            return Some((case, e));
        }
        let js = serde_json::to_value(&case).unwrap();
        let mut pairs: Vec<Compared> = Vec::new();
        let mut dup = HashSet::new();
        for c in seen {
            if c.want == c.got {
                if c.fixed {
                    self.met.insert((c.want, c.at));
                }
                continue;
            }
            for (want, got) in [(c.want, c.got), (c.got, c.want)] {
                // A constant of the code is nowhere in the case except by chance.
                if (want, got) == (c.want, c.got) || !c.fixed {
                    let x = Compared { want, got, ..c };
                    if dup.insert(x) {
                        pairs.push(x);
                    }
                }
            }
        }
        // The least tried first.
        let key = |c: &Compared| (if c.fixed { c.want } else { c.want >> 56 | c.want << 8 & 0xff00 }, c.at);
        for i in (1..pairs.len()).rev() {
            let j = self.draw(i + 1);
            pairs.swap(i, j);
        }
        pairs.sort_by_key(|c| self.tried.get(&key(c)).cloned().unwrap_or(0) / 8);
        pairs.truncate(12);
        for c in pairs {
            let n = self.tried.entry(key(&c)).or_insert(0);
            *n += 1;
            if *n > 20_000 {
                continue;
            }
            let mask = if c.width == 8 { !0 } else { (1 << (8 * c.width)) - 1 };
            let near = match self.draw(4) {
                0 => c.want.wrapping_add(1) & mask,
                1 => c.want.wrapping_sub(1) & mask,
                _ => c.want,
            };
            let mut made = Vec::new();
            self.substitute(&js, &c, near, &mut made);
            for _ in 0..2.min(made.len()) {
                let k = self.draw(made.len());
                let v = made.swap_remove(k);
                let new = match serde_json::from_value::<Case>(v) {
                    Ok(n) if legal(&n) => n,
                    _ => continue,
                };
                self.solved += 1;
                self.evals += 1;
                let (r, seen, edges) = watch(|| run(&new, true));
                if let Err(e) = r {
                    return Some((new, e));
                }
                let mut fresh = edges > 0;
                for c in seen.iter().filter(|c| c.want == c.got && c.fixed) {
                    fresh |= self.met.insert((c.want, c.at));
                }
                if fresh && depth < 40 && self.queue.len() < 4000 {
                    self.kept += 1;
                    self.queue.push_front((new, depth + 1, 8));
                }
            }
        }
        None
    }

    fn substitute(&mut self, v: &Value, c: &Compared, to: u64, out: &mut Vec<Value>) {
        let mut paths = Vec::new();
        spots(v, &mut Vec::new(), c, to, &mut paths, &mut self.rng);
        for (path, new) in paths {
            let mut w = v.clone();
            *path.iter().fold(&mut w, |x, s| match s {
                Step::Key(k) => x.get_mut(k.as_str()).unwrap(),
                Step::At(i) => x.get_mut(*i).unwrap(),
            }) = new;
            out.push(w);
            if out.len() >= 32 {
                break;
            }
        }
    }
}

#[derive(Clone)]
enum Step {
    Key(String),
    At(usize),
}

/// Where in the content `got` stands, and the content with `to` there.
fn windows(content: &[u8], c: &Compared, to: u64, most: usize, rng: &mut u64) -> Vec<Vec<u8>> {
    let mut r = Vec::new();
    let mut widths = vec![c.width as usize];
    // A comparison may be wider than what was loaded.
    for w in [4, 2] {
        if w < c.width as usize && c.got >> (8 * w) == 0 && to >> (8 * w) == 0 {
            widths.push(w);
        }
    }
    for w in widths {
        let le = &c.got.to_le_bytes()[..w];
        let be = &c.got.to_be_bytes()[8 - w..];
        for (needle, new) in [(le, to.to_le_bytes()[..w].to_vec()), (be, to.to_be_bytes()[8 - w..].to_vec())] {
            if w == 1 && r.len() >= most {
                break;
            }
            // A few of the places, any of them.
            let mut places: Vec<usize> = content.windows(w).enumerate().filter(|x| x.1 == needle).map(|x| x.0).take(400).collect();
            for _ in 0..most {
                if places.is_empty() {
                    break;
                }
                *rng = crate::data::mix64(*rng);
                let i = places.swap_remove(*rng as usize % places.len());
                let mut n = content.to_vec();
                n[i..i + w].copy_from_slice(&new);
                r.push(n);
            }
        }
    }
    r
}

fn spots(v: &Value, path: &mut Vec<Step>, c: &Compared, to: u64, out: &mut Vec<(Vec<Step>, Value)>, rng: &mut u64) {
    match v {
        Value::Object(o) => {
            let num = |k: &str| o.get(k).and_then(|x| x.as_u64());
            if let (Some(k), Some(s), Some(n), Some(a)) = (num("k"), num("s"), num("n"), num("a")) {
                // A message.
                let d = crate::data::Data { k: k as u8, s, n: n as usize, a: a as u8, r: o.get("r").and_then(|r| serde_json::from_value(r.clone()).ok()).unwrap_or_default() };
                let at = |p: &[Step], k: &str| {
                    let mut p = p.to_vec();
                    p.push(Step::Key(k.to_string()));
                    p
                };
                let longer = n.wrapping_add(to.wrapping_sub(c.got));
                if longer != n && longer <= LONGEST && c.width >= 2 {
                    out.push((at(path, "n"), json!(longer)));
                }
                if c.width == 8 || c.width == 4 {
                    // Lengths in blocks, or what is left of one.
                    for unit in [64u64, 512] {
                        let l = n.wrapping_add(to.wrapping_sub(c.got).wrapping_mul(unit));
                        if l != n && l <= LONGEST && to.wrapping_sub(c.got).wrapping_add(1 << 14) < 1 << 15 {
                            out.push((at(path, "n"), json!(l)));
                        }
                    }
                }
                if n as usize <= LOOK && n > 0 {
                    let mut p = path.clone();
                    let content = d.vec();
                    for w in windows(&content, c, to, 2, rng) {
                        p.truncate(path.len());
                        let mut o = o.clone();
                        o.insert("r".into(), json!(w));
                        out.push((p.clone(), Value::Object(o)));
                    }
                }
                return;
            }
            for (k, x) in o {
                path.push(Step::Key(k.clone()));
                match x {
                    Value::Number(_) if matches!(&k[..], "fo" | "md" | "leaf" | "off" | "nd" | "inner" | "hl" | "Leaf" | "Off" | "Fo" | "Md" | "Nd" | "Inner" | "c" | "lb" | "ln") => {
                        number(x, path, c, to, out)
                    }
                    Value::Array(a) if matches!(&k[..], "h" | "t") => {
                        for (i, y) in a.iter().enumerate() {
                            path.push(Step::At(i));
                            match y {
                                Value::Array(b) => {
                                    for (j, z) in b.iter().enumerate() {
                                        path.push(Step::At(j));
                                        number(z, path, c, to, out);
                                        path.pop();
                                    }
                                }
                                y => number(y, path, c, to, out),
                            }
                            path.pop();
                        }
                    }
                    Value::Array(a) if matches!(&k[..], "key" | "salt" | "pers") => {
                        let bytes: Vec<u8> = a.iter().filter_map(|x| x.as_u64()).map(|x| x as u8).collect();
                        for w in windows(&bytes, c, to, 2, rng) {
                            out.push((path.clone(), json!(w)));
                        }
                    }
                    x => spots(x, path, c, to, out, rng),
                }
                path.pop();
            }
        }
        Value::Array(a) => {
            for (i, x) in a.iter().enumerate().take(64) {
                path.push(Step::At(i));
                spots(x, path, c, to, out, rng);
                path.pop();
            }
        }
        _ => {}
    }
}

fn number(x: &Value, path: &[Step], c: &Compared, to: u64, out: &mut Vec<(Vec<Step>, Value)>) {
    let x = match x.as_u64() {
        Some(x) => x,
        None => return,
    };
    if x == c.got {
        out.push((path.to_vec(), json!(to)));
    }
    if c.width == 4 {
        if x >> 32 == c.got && x >= 1 << 32 {
            out.push((path.to_vec(), json!(to << 32 | x & 0xffff_ffff)));
        }
        if x & 0xffff_ffff == c.got && x >= 1 << 32 {
            out.push((path.to_vec(), json!(x >> 32 << 32 | to)));
        }
    }
}
