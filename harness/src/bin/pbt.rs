//! Property-based runner: generates the cases of one property, runs them on all cores, shrinks a
//! failure and writes it out; also replays and minimises saved cases.
use harness::case::Case;
use harness::data::{mix64, set_place, Place};
use harness::deep;
use harness::exec::{self, tag};
use harness::props::{self, Comp, Guard, Src};
use harness::selftest;
use harness::shrink::candidates;
use proptest::strategy::{Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;

fn arg(name: &str) -> Option<String> {
    let a: Vec<String> = std::env::args().collect();
    a.iter().position(|x| x == name).and_then(|i| a.get(i + 1).cloned())
}
fn num(name: &str, dflt: u64) -> u64 {
    arg(name).map(|x| x.parse().expect("number")).unwrap_or(dflt)
}

fn hash_str(s: &str) -> u64 {
    s.bytes().fold(0xcbf29ce484222325u64, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3))
}

fn place_name(p: Place) -> &'static str {
    match p {
        Place::Heap => "heap",
        Place::GuardEnd => "guard_end",
        Place::GuardStart => "guard_start",
    }
}
fn place_of(s: &str) -> Place {
    match s {
        "guard_end" => Place::GuardEnd,
        "guard_start" => Place::GuardStart,
        _ => Place::Heap,
    }
}

/// The case in hand, readable by whoever finds this process dead.
struct CrashNote {
    ptr: *mut u8,
    worker: usize,
}
const NOTE: usize = 1 << 20;
/// Cases started per worker; 0 when idle. A case that stays in hand too long is reported as hanging.
static TICKS: [AtomicU64; 64] = [const { AtomicU64::new(0) }; 64];
const HANG_S: u64 = 90;

fn watchdog(dir: String) {
    std::thread::spawn(move || {
        let mut last = [(0u64, 0u64); 64];
        loop {
            std::thread::sleep(std::time::Duration::from_secs(1));
            for (i, l) in last.iter_mut().enumerate() {
                let t = TICKS[i].load(Ordering::Relaxed);
                *l = if t == 0 || t != l.0 { (t, 0) } else { (t, l.1 + 1) };
                if l.1 >= HANG_S {
                    let _ = std::fs::rename(format!("{}/crash-{}.note", dir, i), format!("{}/hang.note", dir));
                    eprintln!("a case does not end");
                    unsafe { libc::_exit(4) };
                }
            }
        }
    });
}
impl CrashNote {
    fn new(dir: &str, worker: usize) -> CrashNote {
        let path = std::ffi::CString::new(format!("{}/crash-{}.note", dir, worker)).unwrap();
        unsafe {
            let fd = libc::open(path.as_ptr(), libc::O_RDWR | libc::O_CREAT | libc::O_TRUNC, 0o644);
            assert!(fd >= 0);
            assert_eq!(0, libc::ftruncate(fd, NOTE as i64));
            let p = libc::mmap(std::ptr::null_mut(), NOTE, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, fd, 0);
            assert!(p != libc::MAP_FAILED);
            libc::close(fd);
            CrashNote { ptr: p as *mut u8, worker }
        }
    }
    fn set(&self, place: Place, comp: usize, js: &str) {
        TICKS[self.worker].fetch_add(1, Ordering::Relaxed);
        let head = format!("{} {} ", place_name(place), comp);
        let n = (head.len() + js.len()).min(NOTE - 9);
        unsafe {
            (self.ptr as *mut u64).write_volatile(0);
            std::ptr::copy_nonoverlapping(head.as_ptr(), self.ptr.add(8), head.len());
            std::ptr::copy_nonoverlapping(js.as_ptr(), self.ptr.add(8 + head.len()), n - head.len());
            (self.ptr as *mut u64).write_volatile(n as u64);
        }
    }
    fn clear(&self) {
        TICKS[self.worker].store(0, Ordering::Relaxed);
        unsafe { (self.ptr as *mut u64).write_volatile(0) };
    }
}

#[derive(Default)]
struct Stats {
    evals: u64,
    nontrivial: HashSet<u64>,
    hist: BTreeMap<&'static str, u64>,
    samples: Vec<String>,
}

struct Failure {
    place: Place,
    comp: &'static str,
    case: Case,
    error: String,
    shrinks: u64,
}

fn run(c: &Case, place: Place) -> Result<u64, String> {
    if let Case::Fresh { .. } = c {
        if std::env::var_os("PBT_CHILD").is_none() {
            return in_new_process(c);
        }
    }
    set_place(place);
    let r = exec::run_case(c);
    set_place(Place::Heap);
    r
}

/// Also watches the instructions, where a lesser CPU is pretended.
fn run_watched(c: &Case, place: Place) -> Result<u64, String> {
    if harness::cpu::level().is_none() {
        return run(c, place);
    }
    let (r, w) = harness::cpu::watched(|| run(c, place));
    let t = r?;
    w?;
    Ok(t | tag::STEPPED)
}

/// Only panics count.
fn run_total(c: &Case, place: Place) -> Result<u64, String> {
    run(c, place).or_else(|e| if e.contains("panic") { Err(e) } else { Ok(0) })
}

fn in_new_process(c: &Case) -> Result<u64, String> {
    static N: AtomicU64 = AtomicU64::new(0);
    let f = std::env::temp_dir().join(format!("pbt-fresh-{}-{}.json", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
    std::fs::write(&f, json!({"place": "heap", "case": c}).to_string()).map_err(|e| e.to_string())?;
    let o = std::process::Command::new(std::env::current_exe().unwrap()).arg("replay").arg(&f).env("PBT_CHILD", "1").output();
    let _ = std::fs::remove_file(&f);
    let o = o.map_err(|e| e.to_string())?;
    if o.status.success() {
        return Ok(tag::CONC);
    }
    let out = String::from_utf8_lossy(&o.stdout);
    let err = String::from_utf8_lossy(&o.stderr);
    let line = |s: &str, p: &str| s.lines().find(|l| l.contains(p)).map(|l| l.to_string());
    Err(line(&out, "FAIL").or(line(&err, "SUMMARY: ThreadSanitizer")).or(line(&err, "WARNING: ThreadSanitizer")).unwrap_or_else(|| {
        format!("the process ends with {}", o.status)
    }))
}

fn seed_bytes(parts: &[u64]) -> [u8; 32] {
    let mut x = 0x1234_5678u64;
    for p in parts {
        x = mix64(x ^ *p);
    }
    let mut out = [0u8; 32];
    for i in 0..4 {
        x = mix64(x);
        out[i * 8..i * 8 + 8].copy_from_slice(&x.to_le_bytes());
    }
    out
}

#[allow(clippy::too_many_arguments)]
fn work(
    comp: &Comp,
    ci: usize,
    worker: usize,
    workers: usize,
    seed: u64,
    share: f64,
    note: &CrashNote,
    stop: &AtomicBool,
    fail: &Mutex<Option<Failure>>,
    next: &AtomicU64,
) -> Stats {
    let mut st = Stats::default();
    let mut one = |case: &Case, tree: &mut dyn FnMut(bool) -> Option<Case>| -> bool {
        let js = serde_json::to_string(case).unwrap();
        let h = hash_str(&js);
        let place = props::place_for(comp.guard, mix64(h));
        note.set(place, ci, &js);
        st.evals += 1;
        let run = if comp.stepped { run_watched } else if comp.total { run_total } else { run };
        match run(case, place) {
            Ok(mut t) => {
                if place != Place::Heap {
                    t |= tag::GUARD;
                }
                for n in tag::names(t) {
                    *st.hist.entry(n).or_default() += 1;
                }
                if (comp.nt == 0 || t & comp.nt != 0) && st.nontrivial.insert(h) && st.samples.len() < 2 {
                    st.samples.push(js);
                }
                true
            }
            Err(e) => {
                stop.store(true, Ordering::SeqCst);
                let mut best = (case.clone(), e);
                let mut n = 0;
                let t0 = std::time::Instant::now();
                // Shrink with the generator's own value tree.
                let mut last_failed = true;
                while n < 4000 && t0.elapsed().as_secs() < 20 {
                    match tree(last_failed) {
                        None => break,
                        Some(c) => {
                            n += 1;
                            note.set(place, ci, &serde_json::to_string(&c).unwrap());
                            match run(&c, place) {
                                Err(e) => {
                                    best = (c, e);
                                    last_failed = true;
                                }
                                Ok(_) => last_failed = false,
                            }
                        }
                    }
                }
                let mut f = fail.lock().unwrap();
                if f.is_none() {
                    *f = Some(Failure { place, comp: comp.name, case: best.0, error: best.1, shrinks: n });
                }
                false
            }
        }
    };
    match &comp.src {
        Src::Enum(n, f) => {
            let keep = (share.min(1.0) * 65536.0) as u64;
            loop {
                let from = next.fetch_add(64, Ordering::Relaxed);
                if from >= *n || stop.load(Ordering::Relaxed) {
                    break;
                }
                for i in from..(from + 64).min(*n) {
                    if keep < 65536 && mix64(i ^ mix64(seed ^ ci as u64)) % 65536 >= keep {
                        continue;
                    }
                    if !one(&f(i), &mut |_| None) {
                        break;
                    }
                }
            }
        }
        Src::Gen(f) => {
            let total = ((comp.cases as f64 * share) as u64).max(1);
            let mine = total / workers as u64 + ((worker as u64) < total % workers as u64) as u64;
            let strat = f();
            let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &seed_bytes(&[seed, ci as u64, worker as u64]));
            let mut runner = TestRunner::new_with_rng(Config { failure_persistence: None, ..Config::default() }, rng);
            for _ in 0..mine {
                if stop.load(Ordering::Relaxed) {
                    break;
                }
                let mut tree = strat.new_tree(&mut runner).expect("generator");
                let case = tree.current();
                let ok = one(&case, &mut |failed| {
                    let moved = if failed { tree.simplify() } else { tree.complicate() };
                    if moved {
                        Some(tree.current())
                    } else if failed {
                        None
                    } else {
                        // complicate() ended: the tree is back at the last failing value
                        if tree.simplify() {
                            Some(tree.current())
                        } else {
                            None
                        }
                    }
                });
                if !ok {
                    break;
                }
            }
        }
    }
    note.clear();
    st
}

/// The cases of all components, and what comparisons in the code make of them.
#[cfg(feature = "cov")]
fn guided(prop: &str, comps: &[Comp], ci: usize, worker: usize, seed: u64, cases: u64, seconds: f64, note: &CrashNote, stop: &AtomicBool, fail: &Mutex<Option<Failure>>) -> (Stats, u64, u64) {
    let mut st = Stats::default();
    let from: Vec<&Comp> = comps.iter().filter(|c| !c.serial && c.cases > 0).collect();
    let mut strats: Vec<Option<_>> = from.iter().map(|c| if let Src::Gen(f) = &c.src { Some(f()) } else { None }).collect();
    let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &seed_bytes(&[seed, ci as u64, worker as u64]));
    let mut runner = TestRunner::new_with_rng(Config { failure_persistence: None, ..Config::default() }, rng);
    let mut r = mix64(seed ^ worker as u64);
    let fits = |c: &Case| !matches!(c, Case::Family { .. }) && shaped(c) && total_len(c) <= 4 << 20;
    let mut base = || loop {
        r = mix64(r);
        let k = r as usize % from.len();
        let c = match (&from[k].src, &mut strats[k]) {
            (Src::Enum(n, f), _) => f(mix64(r) % n),
            (_, Some(s)) => s.new_tree(&mut runner).expect("generator").current(),
            _ => unreachable!(),
        };
        if fits(&c) && total_len(&c) <= 16 << 10 && serde_json::to_string(&c).unwrap().len() < 8000 {
            return c;
        }
    };
    let legal = |c: &Case| fits(c) && legal_params(c);
    let mut search = harness::guided::Search::new(mix64(seed ^ 0x6775 ^ worker as u64));
    let t0 = std::time::Instant::now();
    let mut place = Place::Heap;
    let go = |c: &Case, place: Place| if prop == "C24" && !matches!(c, Case::Call { .. }) { run_total(c, place) } else { run(c, place) };
    let mut exec = |c: &Case, made: bool| {
        let js = serde_json::to_string(c).unwrap();
        let h = hash_str(&js);
        place = if prop == "C18" { props::place_for(Guard::Always, mix64(h)) } else { Place::Heap };
        note.set(place, ci, &js);
        let t = go(c, place)?;
        for n in tag::names(t) {
            *st.hist.entry(n).or_default() += 1;
        }
        if made && st.nontrivial.insert(h) && st.samples.len() < 2 && js.contains("\"r\":") {
            st.samples.push(js);
        }
        Ok(())
    };
    let mut bad = None;
    while bad.is_none() && search.evals < cases && t0.elapsed().as_secs_f64() < seconds && !stop.load(Ordering::Relaxed) {
        bad = search.round(&mut base, &legal, &mut exec);
    }
    if let Some((case, e)) = bad {
        stop.store(true, Ordering::SeqCst);
        let mut best = (case, e);
        let mut n = 0;
        let t0 = std::time::Instant::now();
        let mut again = true;
        while again && t0.elapsed().as_secs() < 20 {
            again = false;
            let mut c = Vec::new();
            candidates(&serde_json::to_value(&best.0).unwrap(), &mut c);
            for x in c {
                if let Ok(c) = serde_json::from_value::<Case>(x) {
                    if !legal(&c) || t0.elapsed().as_secs() >= 20 {
                        continue;
                    }
                    n += 1;
                    note.set(place, ci, &serde_json::to_string(&c).unwrap());
                    if let Err(e) = go(&c, place) {
                        best = (c, e);
                        again = true;
                        break;
                    }
                }
            }
        }
        let mut f = fail.lock().unwrap();
        if f.is_none() {
            *f = Some(Failure { place, comp: "led by comparisons", case: best.0, error: best.1, shrinks: n });
        }
    }
    st.evals = search.evals;
    note.clear();
    (st, search.solved, search.kept)
}

fn write_replay(path: &str, prop: &str, config: &str, place: Place, comp: &str, case: &Case, error: &str) {
    let v = json!({
        "property": prop, "config": config, "place": place_name(place), "component": comp,
        "error": error, "seed": num("--seed", 1), "case": case,
    });
    std::fs::write(path, serde_json::to_string_pretty(&v).unwrap()).expect("write replay");
}

const G4: i64 = deep::G4 as i64;
type DeepJob = (String, Box<dyn Fn() -> Result<(u64, String), String> + Send + Sync>);

fn big_deltas(seed: u64) -> Vec<i64> {
    let r = |i: u64, m: u64| (mix64(seed ^ i) % m) as i64;
    let mut v = vec![
        -4096 - r(1, 1000), -640, -64 * (2 + r(2, 8)) - 1 - r(3, 62), -129, -128, -65, -64, -63, -1 - r(4, 62), -1, 0, 1,
        1 + r(5, 62), 63, 64, 65, 128 + r(6, 200), 4096 + r(7, 9000),
    ];
    v.sort();
    v.dedup();
    v
}
fn sp_deltas(seed: u64, keyed: bool) -> Vec<i64> {
    let r = |i: u64, m: u64| (mix64(seed ^ i) % m) as i64;
    let k = if keyed { -512 } else { 0 };
    vec![
        -9000 - r(1, 1000), k - 1024 - r(2, 512), k - 512, k - 64, k - 1, k, k + 1, k + 63 + r(3, 60), k + 448, k + 512, k + 513,
        k + 960 + r(4, 70), k + 1600, 20_000 + r(5, 3000),
    ]
}

fn deep_jobs(prop: &str, seed: u64, std_on: bool, thorough: bool) -> Vec<DeepJob> {
    let mut v: Vec<DeepJob> = Vec::new();
    let bd = big_deltas(seed);
    let mut add = |n: String, f: Box<dyn Fn() -> Result<(u64, String), String> + Send + Sync>| v.push((n, f));
    let rep = |r: Result<deep::Report, String>| r.map(|r| (r.checks, r.note));
    let all = prop == "C11";
    // States: the first two also feed the generated histories.
    if matches!(prop, "C01" | "C02" | "C03" | "C06" | "C10" | "C11" | "C21") {
        for w in 0..2usize {
            let mut bd = bd.clone();
            if w == 0 {
                // The next multiple as well.
                bd.extend([-129, -64, -1, 0, 1, 64, 65, 700].map(|d| G4 + d));
                if thorough && all {
                    bd.extend([-64, 0, 1, 100].map(|d| 3 * G4 + d));
                }
            } else {
                // On the way there.
                bd.extend((24..32).flat_map(|k| [-65, -64, -1, 0, 1, 64].map(|d| (1 << k) + d - G4)));
            }
            add(
                format!("state {}", w),
                Box::new(move || {
                    let (r, mut s) = deep::state_job(w, false, if w == 0 { 0 } else { (1 << 20) + 7 }, &bd)?;
                    // Those around 2^31 as well as the late ones go on in histories.
                    s.retain(|x| x.0.count() >= (1 << 31) - 100);
                    STATES.lock().unwrap().push((w, s));
                    Ok((r.checks, r.note))
                }),
            );
        }
    }
    if all && (std_on || thorough) {
        let b2 = bd.clone();
        add(
            "state, portable".into(),
            Box::new(move || deep::state_job(2, true, 4096, &b2).map(|r| (r.0.checks, r.0.note))),
        );
    }
    if matches!(prop, "C01" | "C11") {
        let dl = 3 + (mix64(seed ^ 99) % 200) as i64;
        add("one-shot".into(), Box::new(move || rep(deep::one_shot_job(dl))));
    }
    let r = |i: u64, m: u64| (mix64(seed ^ i) % m) as i64;
    let ex = 64 * (1 + r(20, 4));
    let tail = 64 * (1 + r(21, 3)) + 1 + r(22, 62);
    let l8: Vec<i64> = (0..8).map(|i| if i == (seed % 8) as i64 { 64 + 64 * (i % 2) } else { [64, 128, tail][i as usize % 3] }).collect();
    // Past 8 GiB, in the thorough tier past 16 GiB.
    let twice = if thorough { 3 * G4 } else { G4 };
    let mut m8: Vec<i64> = vec![0, 64, 128, ex, tail];
    if all && std_on {
        m8.extend([twice + 64, twice + tail]);
    }
    m8.sort();
    m8.dedup();
    if matches!(prop, "C07" | "C11") {
        let (a, b, c) = (m8.clone(), m8.clone(), m8.clone());
        let short: Vec<i64> = (0..8).map(|i| if i == (seed + 3) % 8 { tail } else { 100 * i as i64 - G4 }).collect();
        let d = m8.clone();
        add("hash8, one lane past 4 GiB".into(), Box::new(move || rep(deep::hash8_job(&short, &d))));
        add("hash8, equal whole-block lengths".into(), Box::new(move || rep(deep::hash8_job(&[ex; 8], &a))));
        add("hash8, different lengths".into(), Box::new(move || rep(deep::hash8_job(&l8, &b))));
        if all && std_on {
            let e = m8.clone();
            let l: Vec<i64> = (0..8).map(|i| if i == 7 - (seed % 8) as i64 { tail } else { twice + [64, tail][i as usize % 2] }).collect();
            add("hash8 past 8 GiB".into(), Box::new(move || rep(deep::hash8_job(&l, &e))));
        }
        if thorough {
            add("hash8 of exactly 4 GiB".into(), Box::new(move || rep(deep::hash8_job(&[0; 8], &c))));
        }
    }
    if matches!(prop, "C08" | "C11") {
        let (a, b) = (m8.clone(), m8.clone());
        add("hash8_exact".into(), Box::new(move || rep(deep::exact_job(true, ex, &a))));
        add("hash4_exact".into(), Box::new(move || rep(deep::exact_job(false, ex, &b))));
        if all && std_on {
            let (a, b) = (m8.clone(), m8.clone());
            add("hash8_exact past 8 GiB".into(), Box::new(move || rep(deep::exact_job(true, twice + 64, &a))));
            add("hash4_exact past 8 GiB".into(), Box::new(move || rep(deep::exact_job(false, twice + 64, &b))));
        }
        if thorough {
            let (a, b) = (m8.clone(), m8.clone());
            add("hash8_exact of exactly 4 GiB".into(), Box::new(move || rep(deep::exact_job(true, 0, &a))));
            add("hash4_exact of exactly 4 GiB".into(), Box::new(move || rep(deep::exact_job(false, 0, &b))));
        }
    }
    if matches!(prop, "C06" | "C11") {
        let a = m8.clone();
        let held: [usize; 8] = std::array::from_fn(|i| [0, 1, 64, 63, 0, 200, 64, 100][(i + seed as usize) % 8]);
        let lens: Vec<i64> = (0..8).map(|i| [64, 128, tail, 64, tail][(i + seed as usize) % 5]).collect();
        if all && std_on {
            let a = m8.clone();
            let l: Vec<i64> = (0..8).map(|i| twice + [64, tail][(i + seed as usize) % 2]).collect();
            add("update8 past 8 GiB".into(), Box::new(move || rep(deep::update8_job(&l, &[0, 64, 63, 1, 64, 100, 200, 0], &a))));
        }
        add("update8".into(), Box::new(move || rep(deep::update8_job(&lens, &held, &a))));
    }
    if matches!(prop, "C06" | "C07" | "C08" | "C11") {
        for i in 0..3 {
            let m = m8.clone();
            add(
                format!("model of lane {}", i),
                Box::new(move || {
                    deep::warm_lanes(i, &m);
                    Ok((0, String::new()))
                }),
            );
        }
    }
    if matches!(prop, "C04" | "C05" | "C11") {
        for w in 0..2usize {
            // The unkeyed one in one update per 256 MiB, the keyed one in odd pieces.
            let step = if w == 0 { 0 } else { (1 << 18) + 13 };
            add(
                format!("BLAKE2sp {}", w),
                Box::new(move || rep(deep::sp_job(w, if thorough && w == 0 { 36 } else { 35 }, step, 1 << 28, &sp_deltas(seed, w == 1)))),
            );
        }
    }
    if matches!(prop, "C04" | "C05" | "C11") {
        let dl = 700 + (mix64(seed ^ 77) % 3000) as i64;
        // All at once, and looked at around 4 GiB in total.
        add("BLAKE2sp in one update past 4 GiB".into(), Box::new(move || rep(deep::sp_job(0, 32, 0, 1 << 40, &[dl]))));
        add("BLAKE2sp around 4 GiB".into(), Box::new(move || rep(deep::sp_job(1, 32, 0, 1 << 40, &sp_deltas(seed, true)))));
    }
    if prop == "C24" {
        let dl = 100 + (mix64(seed ^ 55) % 3000) as i64;
        for w in 0..if std_on { 8 } else { 3 } {
            add(format!("{}, past 4 GiB", deep::TOTAL[w]), Box::new(move || rep(deep::total_job(w, dl))));
        }
    }
    if prop == "C23" {
        for w in [0u8, 1, 2, 3, 4, 5, 6, 7, 8, 9, 13] {
            add(format!("heap and stack with long inputs, {}", w), Box::new(move || rep(deep::lean_job(w, seed, std_on))));
        }
    }
    if prop == "C09" {
        add("lanes differing by 4 GiB".into(), Box::new(move || rep(deep::reject_exact_job(seed))));
    }
    if prop == "C12" {
        add("bytes past 4 GiB to setters".into(), Box::new(move || rep(deep::reject_setter_job())));
    }
    v
}

static STATES: Mutex<Vec<(usize, Vec<(blake2s_simd::State, harness::refimpl::RStream)>)>> = Mutex::new(Vec::new());

fn run_deep(jobs: &[DeepJob]) -> (u64, Vec<String>, Option<(String, String)>) {
    let res: Vec<(String, Result<(u64, String), String>)> = std::thread::scope(|s| {
        let hs: Vec<_> = jobs
            .iter()
            .map(|(n, f)| {
                (
                    n.clone(),
                    s.spawn(move || {
                        std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).unwrap_or_else(|e| {
                            let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|x| x.to_string()));
                            Err(format!("panicked: {}", m.unwrap_or_default()))
                        })
                    }),
                )
            })
            .collect();
        hs.into_iter().map(|(n, h)| (n, h.join().unwrap())).collect()
    });
    let mut checks = 0;
    let mut notes = Vec::new();
    for (n, r) in res {
        match r {
            Ok((c, note)) => {
                checks += c;
                if !note.is_empty() {
                    notes.push(note);
                }
            }
            Err(e) => return (checks, notes, Some((n, e))),
        }
    }
    (checks, notes, None)
}

fn publish_states() {
    let mut s = STATES.lock().unwrap();
    s.sort_by_key(|x| x.0);
    let flat: Vec<_> = s.drain(..).flat_map(|x| x.1).collect();
    let _ = exec::BIG_STATES.set(flat);
}

fn cmd_run() -> i32 {
    let prop = arg("--prop").expect("--prop");
    let seed = num("--seed", 1);
    let share: f64 = arg("--share").map(|x| x.parse().unwrap()).unwrap_or(1.0);
    let thorough = arg("--tier").as_deref() == Some("thorough");
    let scale = num("--scale", if thorough { 20 } else { 1 });
    let workdir = arg("--work").expect("--work");
    let config = arg("--config").unwrap_or_default();
    let out = arg("--out").expect("--out");
    let workers = num("--threads", 8) as usize;
    let want_deep = num("--deep", 0) == 1;
    let only = arg("--only");
    let t0 = std::time::Instant::now();
    match selftest::run(1000) {
        Ok(_) => {}
        Err(e) => {
            eprintln!("SELFTEST the reference model is wrong: {}", e);
            return 3;
        }
    }
    if cfg!(feature = "cov") && !harness::raw::tracing_works() {
        println!("UNSUPPORTED");
        return 77;
    }
    let std_on = cfg!(feature = "std");
    let pretended = harness::cpu::level();
    let mut comps_json = Vec::new();
    let mut total = 0u64;
    let mut distinct = 0u64;
    let mut samples: Vec<Value> = Vec::new();
    let mut hist_all: BTreeMap<String, u64> = BTreeMap::new();
    let mut failure: Option<(String, String)> = None;

    // The long inputs run beside the generated cases; the histories that start from them come last.
    let mut deep_run = None;
    if want_deep {
        let jobs = deep_jobs(&prop, seed, std_on, thorough);
        if !jobs.is_empty() {
            deep_run = Some((std::time::Instant::now(), std::thread::spawn(move || run_deep(&jobs))));
        }
    }
    watchdog(workdir.clone());
    let mut all_hashes: Vec<u64> = Vec::new();
    // With every instruction stepped through, far fewer and smaller cases.
    let traces = if cfg!(feature = "cov") { " by callbacks" } else { "" };
    let mut comps = props::components(&format!("{}{}", prop, if matches!(&prop[..], "C22" | "C24") { traces } else { "" }), scale);
    if config.starts_with("tsan") {
        // Its runtime has locks of its own.
        comps.retain(|c| c.nt != harness::tag::INTER);
    }
    let first_big = comps.len();
    if want_deep {
        comps.extend(props::big_components(&prop, scale));
    }
    if pretended.is_some() {
        comps.extend(props::stepped_components(&prop, scale));
    }
    let notes: Vec<CrashNote> = (0..workers).map(|i| CrashNote::new(&workdir, i)).collect();
    struct SendNote<'a>(&'a CrashNote);
    unsafe impl<'a> Send for SendNote<'a> {}
    unsafe impl<'a> Sync for SendNote<'a> {}
    for ci in 0..comps.len() + 1 {
        if ci == first_big && failure.is_none() {
            if let Some((td, h)) = deep_run.take() {
                let (checks, notes, bad) = h.join().unwrap();
                if let Some((job, e)) = bad {
                    let case = Case::Deep { what: job, deltas: vec![], seed };
                    let p = format!("{}/fail.json", workdir);
                    write_replay(&p, &prop, &config, Place::Heap, "inputs past 4 GiB", &case, &e);
                    failure = Some((p, e));
                }
                total += checks;
                distinct += checks;
                for n in notes.iter().take(2) {
                    samples.push(json!(n));
                }
                comps_json.push(json!({"component": "inputs past 4 GiB", "evaluations": checks, "jobs": notes, "wall_s": td.elapsed().as_secs_f64()}));
                publish_states();
            }
        }
        if ci == comps.len() {
            break;
        }
        let comp = &comps[ci];
        if cfg!(feature = "cov") && !matches!(&prop[..], "C16" | "C22" | "C24") {
            // Only sources of cases here.
            continue;
        }
        if failure.is_some() || only.as_ref().map_or(false, |o| o != comp.name) {
            continue;
        }
        let tc = std::time::Instant::now();
        let stop = AtomicBool::new(false);
        let fail = Mutex::new(None);
        let next = AtomicU64::new(0);
        let w = if comp.serial { 1 } else { workers };
        let cseed = mix64(seed ^ hash_str(&prop)) ^ hash_str(&config);
        let stats: Vec<Stats> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..w)
                .map(|i| {
                    let note = SendNote(&notes[i]);
                    let (stop, fail, next) = (&stop, &fail, &next);
                    std::thread::Builder::new()
                        .stack_size(16 << 20)
                        .spawn_scoped(s, move || {
                            let note = note;
                            work(comp, ci, i, w, cseed, share, note.0, stop, fail, next)
                        })
                        .unwrap()
                })
                .collect();
            hs.into_iter().map(|h| h.join().expect("worker")).collect()
        });
        let mut set: HashSet<u64> = HashSet::new();
        let mut evals = 0;
        let mut hist: BTreeMap<&str, u64> = BTreeMap::new();
        for s in &stats {
            evals += s.evals;
            set.extend(&s.nontrivial);
            for (k, v) in &s.hist {
                *hist.entry(k).or_default() += v;
                *hist_all.entry(k.to_string()).or_default() += v;
            }
        }
        for s in stats.iter().flat_map(|s| s.samples.iter()).take(2) {
            let mut s = s.clone();
            if s.len() > 600 {
                let mut n = 600;
                while !s.is_char_boundary(n) {
                    n -= 1;
                }
                s.truncate(n);
                s.push_str("...");
            }
            samples.push(json!({"component": comp.name, "case": s}));
        }
        total += evals;
        distinct += set.len() as u64;
        all_hashes.extend(&set);
        comps_json.push(json!({
            "component": comp.name,
            "kind": match comp.src { Src::Enum(..) => "enumeration", Src::Gen(_) => "random generation" },
            "evaluations": evals, "distinct_nontrivial": set.len(),
            "nontrivial_if_any_of": if comp.nt == 0 { vec!["(any case)"] } else { tag::names(comp.nt) },
            "classes": hist, "wall_s": tc.elapsed().as_secs_f64(),
            "input_placement": match comp.guard { Guard::Some => "exact heap, 1 in 4 between guard pages", Guard::Always => "between guard pages", Guard::Never => "exact heap" },
        }));
        if let Some(f) = fail.into_inner().unwrap() {
            let p = format!("{}/fail.json", workdir);
            write_replay(&p, &prop, &config, f.place, f.comp, &f.case, &f.error);
            eprintln!("component '{}', {} shrink steps", f.comp, f.shrinks);
            failure = Some((p, f.error));
        }
    }
    #[cfg(feature = "cov")]
    if failure.is_none() && !matches!(&prop[..], "C11" | "C20") {
        let tc = std::time::Instant::now();
        let stop = AtomicBool::new(false);
        let fail = Mutex::new(None);
        let ci = comps.len();
        let gseed = mix64(seed ^ hash_str(&prop) ^ 0x677569);
        let (cases, seconds) = ((num("--guided", 6_000 * scale) as f64 * share.min(1.0)) as u64, num("--seconds", 12) as f64 * scale as f64 * share.min(1.0));
        let res: Vec<(Stats, u64, u64)> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..workers)
                .map(|i| {
                    let note = SendNote(&notes[i]);
                    let (stop, fail, comps, prop) = (&stop, &fail, &comps, &prop);
                    std::thread::Builder::new()
                        .stack_size(16 << 20)
                        .spawn_scoped(s, move || {
                            let note = note;
                            guided(prop, comps, ci, i, gseed, cases, seconds, note.0, stop, fail)
                        })
                        .unwrap()
                })
                .collect();
            hs.into_iter().map(|h| h.join().expect("worker")).collect()
        });
        let mut set: HashSet<u64> = HashSet::new();
        let mut hist: BTreeMap<&str, u64> = BTreeMap::new();
        let (mut evals, mut solved, mut kept) = (0, 0, 0);
        for (s, a, b) in &res {
            evals += s.evals;
            solved += a;
            kept += b;
            set.extend(&s.nontrivial);
            for (k, v) in &s.hist {
                *hist.entry(k).or_default() += v;
                *hist_all.entry(k.to_string()).or_default() += v;
            }
        }
        for s in res.iter().flat_map(|s| s.0.samples.iter()).take(1) {
            samples.push(json!({"component": "led by comparisons", "case": s.chars().take(600).collect::<String>()}));
        }
        total += evals;
        distinct += set.len() as u64;
        all_hashes.extend(&set);
        comps_json.push(json!({
            "component": "led by comparisons", "kind": "search led by the comparisons the code makes",
            "evaluations": evals, "distinct_nontrivial": set.len(), "made_from_comparisons": solved, "reached_something_new": kept,
            "nontrivial_if_any_of": vec!["the case was made from a comparison"], "classes": hist, "wall_s": tc.elapsed().as_secs_f64(),
        }));
        if let Some(f) = fail.into_inner().unwrap() {
            let p = format!("{}/fail.json", workdir);
            write_replay(&p, &prop, &config, f.place, f.comp, &f.case, &f.error);
            eprintln!("component '{}', {} shrink steps", f.comp, f.shrinks);
            failure = Some((p, f.error));
        }
    }
    let v = json!({
        "config": config, "evaluations": total, "distinct_nontrivial": distinct, "components": comps_json,
        "samples": samples, "classes": hist_all, "cpu": pretended.map(|l| format!("at most {:?} reported", l)),
        "cost_per_1000_bytes": harness::raw::COST.load(Ordering::Relaxed), "most_stack_bytes": harness::raw::MOST.load(Ordering::Relaxed), "instructions_watched": harness::cpu::instructions_seen(), "wall_s": t0.elapsed().as_secs_f64(),
    });
    // For counting distinct cases over several configurations.
    let raw: Vec<u8> = all_hashes.iter().flat_map(|h| h.to_le_bytes()).collect();
    std::fs::write(format!("{}.hashes", out), raw).expect("write hashes");
    std::fs::write(&out, serde_json::to_string(&v).unwrap()).expect("write stats");
    match failure {
        Some((p, e)) => {
            println!("FAIL {} {}", p, e.replace('\n', " "));
            1
        }
        None => 0,
    }
}

fn load(path: &str) -> (Value, Place, Case) {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(path).expect("read")).expect("json");
    let place = place_of(v["place"].as_str().unwrap_or("heap"));
    let case: Case = serde_json::from_value(v["case"].clone()).expect("case");
    (v, place, case)
}

fn cmd_replay(path: &str) -> i32 {
    let (v, place, case) = load(path);
    let r = match &case {
        Case::Deep { what, seed, .. } => {
            let prop = v["property"].as_str().unwrap_or("C11");
            let jobs: Vec<DeepJob> = deep_jobs(prop, *seed, cfg!(feature = "std"), true)
                .into_iter()
                .filter(|j| j.0 == *what || j.0.starts_with("model"))
                .collect();
            match run_deep(&jobs).2 {
                None => Ok(0),
                Some((_, e)) => Err(e),
            }
        }
        c => {
            if v["case"].to_string().contains("\"Big\"") {
                // The states these start from.
                let jobs: Vec<DeepJob> = deep_jobs("C02", v["seed"].as_u64().unwrap_or(1), cfg!(feature = "std"), false);
                if let Some((j, e)) = run_deep(&jobs).2 {
                    println!("FAIL {}: {}", j, e);
                    return 1;
                }
                publish_states();
            }
            let stepped = v["component"].as_str().map_or(false, |c| c.starts_with("watched"));
            if stepped {
                run_watched(c, place)
            } else if v["property"] == "C24" && !matches!(c, Case::Call { .. }) {
                run_total(c, place)
            } else {
                run(c, place)
            }
        }
    };
    match r {
        Ok(t) => {
            println!("PASS {:?}", tag::names(t));
            0
        }
        Err(e) => {
            println!("FAIL {}", e);
            1
        }
    }
}

/// Runs the case in a child process: None if it ended well, otherwise how it failed.
fn forked(c: &Case, place: Place) -> Option<String> {
    unsafe {
        let pid = libc::fork();
        assert!(pid >= 0);
        if pid == 0 {
            libc::alarm(60);
            let r = run(c, place);
            libc::_exit(if r.is_ok() { 0 } else { 9 });
        }
        let mut st = 0;
        libc::waitpid(pid, &mut st, 0);
        if libc::WIFSIGNALED(st) {
            let s = libc::WTERMSIG(st);
            if s == libc::SIGALRM || s == libc::SIGKILL {
                return None;
            }
            return Some(format!("the process dies with signal {}", s));
        }
        match libc::WEXITSTATUS(st) {
            0 => None,
            9 => Some("the case fails".into()),
            n => Some(format!("the process ends with status {}", n)),
        }
    }
}

fn cmd_minimize(path: &str, to: &str) -> i32 {
    let (v, place, case) = load(path);
    let why = match forked(&case, place) {
        None => {
            println!("PASS");
            return 0;
        }
        Some(w) => w,
    };
    let mut best = serde_json::to_value(&case).unwrap();
    let mut err = why;
    let t0 = std::time::Instant::now();
    let mut again = true;
    while again && t0.elapsed().as_secs() < 40 {
        again = false;
        let mut c = Vec::new();
        candidates(&best, &mut c);
        for x in c {
            if t0.elapsed().as_secs() >= 40 {
                break;
            }
            if let Ok(case) = serde_json::from_value::<Case>(x.clone()) {
                if !shaped(&case) || !legal_params(&case) {
                    continue;
                }
                if let Some(e) = forked(&case, place) {
                    best = x;
                    err = e;
                    again = true;
                    break;
                }
            }
        }
    }
    let case: Case = serde_json::from_value(best).unwrap();
    write_replay(to, v["property"].as_str().unwrap_or(""), v["config"].as_str().unwrap_or(""), place, "", &case, &err);
    println!("FAIL {}", err);
    1
}

/// Shapes the executor relies on.
fn shaped(c: &Case) -> bool {
    let hl = |n: u8| n >= 1 && n <= 32;
    match c {
        Case::Hash8 { p, d } => p.len() == 8 && d.len() == 8,
        Case::Exact { d, .. } => d.len() == 4 || d.len() == 8,
        Case::Kernel { h, m, t, .. } => h.len() == 8 && m.len() == 8 && t.len() == 8,
        Case::HashV { hl1, hl2, .. } => hl(*hl1) && hl(*hl2),
        Case::Call { what, d, v, mode, .. } => {
            d.len() == match what { 4 | 5 | 7 => 8, 6 => 4, _ => 1 }
                && (*mode != 0 || v.len() > 1)
                && (!matches!(what, 6 | 7) || d.iter().all(|x| x.n == d[0].n && x.n > 0 && x.n % 64 == 0))
        }
        Case::CtEq { hl: n, .. } => hl(*n),
        Case::Prog { .. } | Case::Setters { .. } | Case::One { .. } | Case::OneSp { .. } | Case::Mutant { .. } | Case::Family { .. } | Case::Dbg { .. } => true,
        _ => false,
    }
}

fn legal_params(c: &Case) -> bool {
    let ok = |p: &harness::case::P| {
        p.hl >= 1 && p.hl <= 32 && p.md >= 1 && p.key.len() <= 32 && p.salt.len() <= 8 && p.pers.len() <= 8
            && p.off < 1 << 48 && p.inner <= 32
    };
    use harness::case::Op;
    match c {
        Case::One { p, .. } | Case::Exact { p, .. } | Case::Mutant { p, .. } | Case::Family { p, .. } => ok(p),
        Case::OneSp { q, .. } => q.hl >= 1 && q.hl <= 32 && q.key.len() <= 32,
        Case::Hash8 { p, .. } => p.iter().all(ok),
        Case::Call { p, q, .. } => ok(p) && q.hl >= 1 && q.hl <= 32 && q.key.len() <= 32,
        Case::Prog { ops } | Case::Dbg { ops, .. } => {
            fn legal(o: &Op, ok: &dyn Fn(&harness::case::P) -> bool) -> bool {
                match o {
                    Op::New { p, .. } => ok(p),
                    Op::SNew { q, .. } => q.hl >= 1 && q.hl <= 32 && q.key.len() <= 32,
                    Op::Rep { ops, .. } => ops.iter().all(|o| legal(o, ok)),
                    _ => true,
                }
            }
            ops.iter().all(|o| legal(o, &ok))
        }
        _ => true,
    }
}

/// Cases as JSON lines, for the interpreter runs.
fn cmd_gen() -> i32 {
    let n = num("--n", 10);
    let seed = num("--seed", 1);
    let what = arg("--what").expect("--what");
    let strat = match what.as_str() {
        "prog" => harness::gen::prog(harness::gen::everything(10, true), 6),
        "up8" => harness::gen::prog(
            harness::gen::Mix { new: 1, up: 1, up8: 5, fin8: 3, last: 1, slots: 10, top: 10, small: true, ..Default::default() },
            2,
        ),
        "sp" => harness::gen::prog(
            harness::gen::Mix { snew: 1, sup: 4, sfin: 2, spslots: 1, top: 11, ..Default::default() },
            3,
        ),
        "hash8" => harness::gen::hash8(9, true, false),
        "exact" => harness::gen::exact_ok(5),
        "exact_any" => harness::gen::exact_any(),
        "kernel" => harness::gen::kernel(),
        "setters" => harness::gen::setters(4),
        "hashv" => harness::gen::hashv(),
        "one" => harness::gen::one(10),
        "one_sp" => harness::gen::one_sp(11),
        "threads" => harness::gen::threads(3, 9, true, 3),
        "fresh" => harness::gen::fresh(),
        w => panic!("unknown kind {}", w),
    };
    let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &seed_bytes(&[seed, hash_str(&what)]));
    let mut runner = TestRunner::new_with_rng(Config { failure_persistence: None, ..Config::default() }, rng);
    let cap = num("--maxlen", 4000) as usize;
    let mut k = 0;
    while k < n {
        let c = strat.new_tree(&mut runner).unwrap().current();
        let s = serde_json::to_string(&c).unwrap();
        // Interpreted hashing is slow: leave the longest inputs to the native runs.
        if s.len() > 20_000 || total_len(&c) > cap {
            continue;
        }
        println!("{}", s);
        k += 1;
    }
    0
}
fn op_len(o: &harness::case::Op) -> usize {
    use harness::case::Op;
    match o {
        Op::Up { d, .. } | Op::Wr { d, .. } | Op::SUp { d, .. } | Op::SWr { d, .. } => d.n,
        Op::UpMany { d, c, .. } | Op::SUpMany { d, c, .. } => d.n + d.n / (*c).max(1) * 64,
        Op::Up8 { d, .. } => d.iter().map(|x| x.n).sum(),
        Op::Rep { n, ops } => *n as usize * (64 + ops.iter().map(op_len).sum::<usize>()),
        _ => 0,
    }
}
fn total_len(c: &Case) -> usize {
    let op = op_len;
    match c {
        Case::One { d, .. } | Case::OneSp { d, .. } => d.n,
        Case::Setters { d, calls, .. } => d.n * (calls.len() + 20),
        Case::Mutant { d, .. } => d.n * 8,
        Case::Prog { ops } | Case::Dbg { ops, .. } => ops.iter().map(op).sum(),
        Case::Family { d, .. } => d.n * 100,
        Case::Call { d, .. } => d.iter().map(|x| x.n).sum::<usize>() * 4,
        Case::CtEq { .. } => 0,
        Case::Threads { progs } | Case::Fresh { progs } => progs.iter().flatten().map(op).sum(),
        Case::Hash8 { d, .. } | Case::Exact { d, .. } => d.iter().map(|x| x.n).sum(),
        Case::HashV { d1, d2, collide, .. } => {
            if *collide {
                usize::MAX
            } else {
                (d1.n + d2.n) * 4
            }
        }
        _ => 0,
    }
}

fn main() {
    if let Some(l) = std::env::var("PBT_CPU").ok().filter(|l| !l.is_empty()) {
        let l = harness::cpu::Level::parse(&l).expect("PBT_CPU");
        if !harness::cpu::mask(l) {
            println!("UNSUPPORTED");
            std::process::exit(77);
        }
    }
    exec::install_hook();
    let a: Vec<String> = std::env::args().collect();
    let code = match a.get(1).map(|x| x.as_str()) {
        Some("run") => cmd_run(),
        Some("replay") => cmd_replay(&a[2]),
        Some("minimize") => cmd_minimize(&a[2], &a[3]),
        Some("gen") => cmd_gen(),
        Some("selftest") => match selftest::run(1000) {
            Ok(n) => {
                println!("{} vectors agree", n);
                0
            }
            Err(e) => {
                println!("{}", e);
                3
            }
        },
        _ => {
            eprintln!("pbt run|replay|minimize|gen|selftest");
            2
        }
    };
    std::process::exit(code);
}
