//! Runs a case against the crate under test and compares with the reference model.
use crate::case::*;
use crate::data::{fill, mix64, Buf, Bufs, Data};
use crate::place::{self, Placed};
use crate::refimpl::{self, RParams, RSp, RStream};
use blake2s_simd as b2;
use std::cell::RefCell;
use std::fmt::Debug;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::OnceLock;

pub use hcore::tag;
use tag::*;
use crate::build::Build;

pub type Res<T> = Result<T, String>;

thread_local! {
    static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
}

/// Panics are part of many cases: keep the message, print nothing.
pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let m = i.to_string();
        LAST_PANIC.with(|l| *l.borrow_mut() = m);
    }));
}
fn last_panic() -> String {
    LAST_PANIC.with(|l| l.borrow().clone())
}
fn panics<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| last_panic())
}

pub fn run_case(c: &Case) -> Res<u64> {
    place::restart();
    match panics(|| run_inner(c)) {
        Ok(r) => r,
        Err(m) => Err(format!("unexpected panic: {}", m)),
    }
}

fn run_inner(c: &Case) -> Res<u64> {
    match c {
        Case::One { p, d } => one(p, d),
        Case::OneSp { q, d } => one_sp(q, d),
        Case::Prog { ops } => {
            let mut m = Machine::new();
            m.run(ops)?;
            Ok(m.tags)
        }
        Case::Hash8 { p, d } => hash8(p, d),
        Case::Exact { p, d } => exact(p, d),
        Case::Kernel { h, m, t, lb, ln, rot } => kernel(h, m, t, *lb, *ln, *rot),
        Case::Setters { sp, calls, d } => {
            if *sp {
                setters_sp(calls, d)
            } else {
                setters(calls, d)
            }
        }
        Case::Mutant { iface, p, d, m, lane } => mutant(*iface, p, d, m, *lane),
        Case::Family { iface, p, d, fam, lane } => family(*iface, p, d, *fam, *lane),
        Case::Giant { what, a, b } => giant(*what, *a, *b),
        Case::HashV { via, hl1, hl2, d1, d2, flip, cut, ext, collide } => {
            hashv(*via, *hl1, *hl2, d1, d2, *flip, *cut, *ext, *collide)
        }
        Case::CtEq { hl, slice, d, flips } => cteq(*hl, *slice, d, flips),
        Case::Dbg { ops, v } => dbg(ops, *v),
        Case::Threads { progs } => threads(progs),
        Case::Fresh { progs } => fresh(progs),
        #[cfg(all(feature = "pbt", target_arch = "x86_64", not(miri)))]
        Case::Call { mode, what, p, q, d, cut, v, pre } => crate::raw::call(*mode, *what, p, q, d, cut, v, *pre),
        #[cfg(not(all(feature = "pbt", target_arch = "x86_64", not(miri))))]
        Case::Call { .. } => Ok(0),
        #[cfg(all(feature = "pbt", target_arch = "x86_64", not(miri)))]
        Case::Inter { a, b, same, at, every } => crate::raw::inter(a, b, *same, *at, *every),
        #[cfg(not(all(feature = "pbt", target_arch = "x86_64", not(miri))))]
        Case::Inter { .. } => Ok(0),
        Case::Deep { .. } => Err("not runnable here".into()),
    }
}

fn hx(b: &[u8]) -> String {
    crate::selftest::hex(b)
}

fn expect_hash(what: &str, h: &b2::Hash, want: &[u8]) -> Res<()> {
    if h.as_bytes() != want {
        return Err(format!("{}: digest {} should be {}", what, hx(h.as_bytes()), hx(want)));
    }
    Ok(())
}

fn ptags(p: &P) -> u64 {
    let mut t = 0;
    if !p.key.is_empty() {
        t |= KEYED;
    }
    if !p.is_default() {
        t |= PARAMS;
    }
    if p.hl != 32 {
        t |= SHORT;
    }
    if p.last {
        t |= LAST;
    }
    t
}
fn ltags(n: usize) -> u64 {
    let mut t = 0;
    if n > 64 {
        t |= MULTI;
    }
    if n > 0 && n % 64 == 0 {
        t |= WHOLE;
    }
    if n == 0 {
        t |= EMPTYMSG;
    }
    if n > 65536 {
        t |= LONG;
    }
    t
}

fn one(p: &P, d: &Data) -> Res<u64> {
    let mut t = ptags(p) | ltags(d.n);
    let b = d.place();
    let msg = b.get();
    let want = refimpl::hash_whole(&p.model(), msg);
    let params = Placed::new(p.build());
    let mut st = Placed::new(params.to_state());
    st.update(msg);
    let n = st.count();
    if n != msg.len() as u64 {
        return Err(format!("count {} after {} bytes", n, msg.len()));
    }
    expect_hash("State from Params", &st.finalize(), &want)?;
    expect_hash("chained calls", &p.build().to_state().update(msg).finalize(), &want)?;
    expect_hash("cloned Params", &params.clone().to_state().update(msg).finalize(), &want)?;
    if p.is_default() {
        t |= ONESHOT;
        expect_hash("blake2s()", &b2::blake2s(msg), &want)?;
        expect_hash("State::new()", &b2::State::new().update(msg).finalize(), &want)?;
    }
    Ok(t)
}

fn sptags(q: &Q, n: usize) -> u64 {
    let mut t = ltags(n);
    if !q.key.is_empty() {
        t |= KEYED;
    }
    if q.hl != 32 {
        t |= SHORT;
    }
    if n > 1024 {
        t |= SPLONG;
        if !q.key.is_empty() {
            t |= SPKEYLONG;
        }
    }
    t
}

fn one_sp(q: &Q, d: &Data) -> Res<u64> {
    let mut t = sptags(q, d.n);
    let b = d.place();
    let msg = b.get();
    let want = refimpl::hash_whole_sp(q.hl, &q.key, msg);
    let params = Placed::new(q.build());
    let mut st = Placed::new(params.to_state());
    st.update(msg);
    if st.count() != msg.len() as u64 {
        return Err(format!("BLAKE2sp count {} after {} bytes", st.count(), msg.len()));
    }
    expect_hash("BLAKE2sp state", &st.finalize(), &want)?;
    expect_hash("BLAKE2sp chained", &q.build().to_state().update(msg).finalize(), &want)?;
    if q.is_default() {
        t |= ONESHOT;
        expect_hash("blake2sp()", &b2::blake2sp::blake2sp(msg), &want)?;
        expect_hash("blake2sp::State::new()", &b2::blake2sp::State::new().update(msg).finalize(), &want)?;
    }
    Ok(t)
}

// ---------------------------------------------------------------------------------------------
// Histories over a pool of states
// ---------------------------------------------------------------------------------------------

pub const SLOTS: usize = 10;
pub const SPSLOTS: usize = 3;

struct Slot {
    st: Placed<b2::State>,
    m: RStream,
    ups: u32,
    finalized: bool,
    from_clone: bool,
    keyed: bool,
}
impl Slot {
    fn new(p: &P) -> Slot {
        Slot {
            st: Placed::new(Placed::new(p.build()).to_state()),
            m: RStream::new(&p.model()),
            ups: 0,
            finalized: false,
            from_clone: false,
            keyed: !p.key.is_empty(),
        }
    }
}
struct SpSlot {
    st: Placed<b2::blake2sp::State>,
    m: RSp,
    ups: u32,
    finalized: bool,
    keyed: bool,
}

pub struct Machine {
    s: Vec<Option<Box<Slot>>>,
    sp: Vec<Option<Box<SpSlot>>>,
    pub tags: u64,
    vary: u64,
    log: Option<Vec<(usize, String)>>,
}

pub static BIG_STATES: OnceLock<Vec<(b2::State, RStream)>> = OnceLock::new();

fn update8_arr(s: &mut [Option<Box<Slot>>], d: &[&[u8]]) {
    let mut it = s.iter_mut().map(|x| &mut *x.as_mut().unwrap().st);
    let mut n = || it.next().unwrap();
    b2::update8(
        n(), n(), n(), n(), n(), n(), n(), n(), d[0], d[1], d[2], d[3], d[4], d[5], d[6], d[7],
    );
}
fn finalize8_arr(s: &mut [Option<Box<Slot>>]) -> [b2::Hash; 8] {
    let mut it = s.iter_mut().map(|x| &mut *x.as_mut().unwrap().st);
    let mut n = || it.next().unwrap();
    b2::finalize8(n(), n(), n(), n(), n(), n(), n(), n())
}

impl Machine {
    pub fn new() -> Machine {
        Machine {
            s: (0..SLOTS).map(|_| None).collect(),
            sp: (0..SPSLOTS).map(|_| None).collect(),
            tags: 0,
            vary: 0,
            log: None,
        }
    }

    fn slot(&mut self, i: u8) -> &mut Slot {
        let i = i as usize % SLOTS;
        if self.s[i].is_none() {
            self.s[i] = Some(Box::new(Slot::new(&P::default())));
        }
        self.s[i].as_mut().unwrap()
    }
    fn spslot(&mut self, i: u8) -> &mut SpSlot {
        let i = i as usize % SPSLOTS;
        if self.sp[i].is_none() {
            self.sp[i] = Some(Box::new(SpSlot {
                st: Placed::new(b2::blake2sp::State::new()),
                m: RSp::new(32, &[]),
                ups: 0,
                finalized: false,
                keyed: false,
            }));
        }
        self.sp[i].as_mut().unwrap()
    }

    pub fn run(&mut self, ops: &[Op]) -> Res<()> {
        for (k, op) in ops.iter().enumerate() {
            self.step(op).map_err(|e| format!("op {} ({}): {}", k, op_name(op), e))?;
            if self.log.is_some() {
                self.snapshot(k);
            }
        }
        // Whatever has not been looked at yet must be right too.
        for i in 0..SLOTS {
            if self.s[i].is_some() {
                self.fin(i as u8, 2).map_err(|e| format!("at the end, state {}: {}", i, e))?;
            }
        }
        for i in 0..SPSLOTS {
            if self.sp[i].is_some() {
                self.sfin(i as u8, 2).map_err(|e| format!("at the end, BLAKE2sp state {}: {}", i, e))?;
            }
        }
        if self.log.is_some() {
            self.snapshot(ops.len());
        }
        Ok(())
    }

    fn note_update(&mut self, i: u8, n: usize) {
        let s = self.slot(i);
        let mut t = 0;
        let held = s.m.held();
        if n == 0 {
            t |= EMPTYUP;
        } else {
            if held > 0 && held < 64 {
                t |= PARTIAL;
            }
            if held == 64 {
                t |= FULLBUF;
            }
            if s.finalized {
                t |= REFIN;
            }
            s.ups += 1;
            if s.ups > 1 {
                t |= SEVERAL;
            }
            if s.from_clone {
                t |= CLONE;
            }
            if s.m.fed + (n as u64) >= 1 << 32 {
                t |= BIG;
            }
            if n > 65536 {
                t |= LONG;
            }
            if s.keyed {
                t |= KEYED;
            }
            if s.m.fed as usize + n > 64 {
                t |= MULTI;
            }
        }
        self.tags |= t;
    }
    fn note_sp(&mut self, i: u8, n: usize) {
        let s = self.spslot(i);
        let mut t = 0;
        if n == 0 {
            t |= EMPTYUP;
        } else {
            let total = s.m.fed + n as u64;
            if s.finalized {
                t |= REFIN;
            }
            s.ups += 1;
            if s.ups > 1 {
                t |= SEVERAL;
            }
            if total > 1024 {
                t |= SPLONG;
                if s.keyed {
                    t |= SPKEYLONG;
                }
                if s.ups > 1 {
                    t |= SPBUF;
                }
            }
            if n > 15 * 64 {
                t |= SPDIRECT;
            }
            if n > 65536 {
                t |= LONG;
            }
            if s.keyed {
                t |= KEYED;
            }
        }
        self.tags |= t;
    }

    fn count_ok(&mut self, i: u8) -> Res<()> {
        let s = self.slot(i);
        if s.st.count() != s.m.fed {
            return Err(format!("count() is {} after {} bytes", s.st.count(), s.m.fed));
        }
        Ok(())
    }
    fn scount_ok(&mut self, i: u8) -> Res<()> {
        let s = self.spslot(i);
        if s.st.count() != s.m.fed {
            return Err(format!("BLAKE2sp count() is {} after {} bytes", s.st.count(), s.m.fed));
        }
        Ok(())
    }

    fn fin(&mut self, i: u8, times: u8) -> Res<()> {
        let s = self.slot(i);
        let want = s.m.digest();
        for k in 0..times.max(1) {
            let h = s.st.finalize();
            expect_hash(if k == 0 { "finalize" } else { "finalize again" }, &h, &want)?;
        }
        let mut t = 0;
        if s.finalized || times > 1 {
            t |= REFIN;
        }
        if s.m.last_node {
            t |= LAST;
        }
        if s.m.digest_len != 32 {
            t |= SHORT;
        }
        if s.m.fed > 0 && s.m.fed % 64 == 0 {
            t |= WHOLE;
        }
        s.finalized = true;
        self.tags |= t;
        self.count_ok(i)
    }
    fn sfin(&mut self, i: u8, times: u8) -> Res<()> {
        let s = self.spslot(i);
        let want = s.m.digest();
        for k in 0..times.max(1) {
            let h = s.st.finalize();
            expect_hash(if k == 0 { "BLAKE2sp finalize" } else { "BLAKE2sp finalize again" }, &h, &want)?;
        }
        let mut t = 0;
        if s.finalized || times > 1 {
            t |= REFIN;
        }
        if s.m.digest_len != 32 {
            t |= SHORT;
        }
        s.finalized = true;
        self.tags |= t;
        self.scount_ok(i)
    }

    /// Eight distinct slots.
    fn pick(&mut self, lanes: &[u8; 8]) -> Vec<usize> {
        let mut free: Vec<usize> = (0..SLOTS).collect();
        lanes.iter().map(|&l| free.remove(l as usize % free.len())).collect()
    }
    fn take8(&mut self, idx: &[usize]) -> Vec<Option<Box<Slot>>> {
        idx.iter()
            .map(|&i| {
                self.slot(i as u8);
                self.s[i].take()
            })
            .collect()
    }
    fn put8(&mut self, idx: &[usize], v: Vec<Option<Box<Slot>>>) {
        for (&i, s) in idx.iter().zip(v) {
            self.s[i] = s;
        }
    }

    fn step(&mut self, op: &Op) -> Res<()> {
        let vary = self.vary;
        match op {
            Op::New { i, p } => {
                let p = p.varied(vary);
                self.tags |= ptags(&p);
                let slot = Slot::new(&p);
                if self.log.is_some() {
                    let params = p.build();
                    let l = (&MaybeDbg(&params)).dbg();
                    self.log.as_mut().unwrap().extend(l.into_iter().map(|x| (usize::MAX, x)));
                }
                self.s[*i as usize % SLOTS] = Some(Box::new(slot));
                self.count_ok(*i)
            }
            Op::NewDef { i, how } => {
                let mut slot = Slot::new(&P::default());
                slot.st = Placed::new(match how % 4 {
                    0 => b2::State::new(),
                    1 => b2::State::default(),
                    2 => b2::Params::default().to_state(),
                    _ => b2::Params::new().to_state(),
                });
                self.s[*i as usize % SLOTS] = Some(Box::new(slot));
                self.count_ok(*i)
            }
            Op::Big { i, w } => {
                let mut slot = Slot::new(&P::default());
                if let Some(v) = BIG_STATES.get() {
                    if !v.is_empty() {
                        let (st, m) = &v[*w as usize % v.len()];
                        slot.st = Placed::new(st.clone());
                        slot.m = m.clone();
                    }
                }
                self.s[*i as usize % SLOTS] = Some(Box::new(slot));
                self.count_ok(*i)
            }
            Op::Up { i, d } => {
                let d = d.varied(vary);
                self.note_update(*i, d.n);
                let b = d.place();
                if b.get().as_ptr() as usize % 64 != 0 {
                    self.tags |= UNALIGNED;
                }
                let s = self.slot(*i);
                let r = s.st.update(b.get()) as *const b2::State;
                if r != &*s.st as *const b2::State {
                    return Err("update returned another state".into());
                }
                s.m.feed(b.get());
                self.count_ok(*i)
            }
            Op::UpMany { i, d, c } => {
                let d = d.varied(vary);
                let b = d.place();
                for ch in b.get().chunks((*c).max(1)) {
                    self.note_update(*i, ch.len());
                    let s = self.slot(*i);
                    s.st.update(ch);
                    s.m.feed(ch);
                    self.count_ok(*i)?;
                }
                Ok(())
            }
            Op::Wr { i, d, how } => {
                let how_seed = d.s;
                // A line writer cuts at newlines: no such thing where only contents are to differ.
                let how = &if self.log.is_some() && how % 12 == 7 { 1 } else { *how };
                let d = d.varied(vary);
                self.note_update(*i, d.n);
                self.tags |= WRITE;
                let b = d.place();
                let s = self.slot(*i);
                let Slot { st, m, .. } = s;
                write_op(&mut **st, &mut |x| m.feed(x), &|st| st.count(), b.get(), *how, how_seed)?;
                self.count_ok(*i)
            }
            Op::Rep { n, ops } => {
                if *n >= 200 {
                    self.tags |= MANYCALLS;
                }
                for k in 0..*n {
                    for op in ops {
                        self.step(op).map_err(|e| format!("round {}, {}: {}", k, op_name(op), e))?;
                    }
                }
                Ok(())
            }
            Op::Fin { i, times } => self.fin(*i, *times),
            Op::Cl { i, j } => {
                let s = self.slot(*i);
                let n = Slot {
                    st: Placed::new((*s.st).clone()),
                    m: s.m.clone(),
                    ups: s.ups,
                    finalized: s.finalized,
                    from_clone: true,
                    keyed: s.keyed,
                };
                s.from_clone = true;
                let (i, j) = (*i as usize % SLOTS, *j as usize % SLOTS);
                if i != j {
                    if let Some(old) = self.s[j].as_mut() {
                        // clone_from over a used state
                        (*old.st).clone_from(&n.st);
                        old.m = n.m;
                        old.ups = n.ups;
                        old.finalized = n.finalized;
                        old.from_clone = true;
                        old.keyed = n.keyed;
                    } else {
                        self.s[j] = Some(Box::new(n));
                    }
                } else {
                    // Keep the clone, drop the original.
                    self.s[j] = Some(Box::new(n));
                }
                self.count_ok(j as u8)?;
                self.count_ok(i as u8)
            }
            Op::Last { i, v } => {
                let s = self.slot(*i);
                let r = s.st.set_last_node(*v) as *const b2::State;
                if r != &*s.st as *const b2::State {
                    return Err("set_last_node returned another state".into());
                }
                s.m.last_node = *v;
                self.count_ok(*i)
            }
            Op::Port { i } => {
                let s = self.slot(*i);
                if s.m.fed > 0 {
                    self.tags |= PORT;
                }
                let s = self.slot(*i);
                crate::portable::force(&mut s.st);
                self.count_ok(*i)
            }
            Op::Up8 { lanes, d } => {
                let idx = self.pick(lanes);
                let ds: Vec<Data> = d.iter().map(|x| x.varied(vary)).collect();
                let bufs = Bufs::new(&ds);
                if bufs.shared() {
                    self.tags |= ALIAS;
                }
                let mut all = true;
                for (l, &i) in idx.iter().enumerate() {
                    let held = self.slot(i as u8).m.held();
                    let rest = ds[l].n.saturating_sub(if held > 0 { 64 - held } else { 0 });
                    all &= rest > 64;
                    if held > 0 {
                        self.tags |= UP8PARTIAL;
                    }
                    self.note_update(i as u8, ds[l].n);
                }
                if all {
                    self.tags |= UP8ALL;
                }
                if ds.iter().any(|x| x.n != ds[0].n) {
                    self.tags |= UP8UNEVEN;
                }
                let mut v = self.take8(&idx);
                let refs: Vec<&[u8]> = bufs.get();
                update8_arr(&mut v, &refs);
                for (s, b) in v.iter_mut().zip(&refs) {
                    s.as_mut().unwrap().m.feed(b);
                }
                self.put8(&idx, v);
                for (l, &i) in idx.iter().enumerate() {
                    self.count_ok(i as u8).map_err(|e| format!("lane {}: {}", l, e))?;
                }
                Ok(())
            }
            Op::Fin8 { lanes } => {
                let idx = self.pick(lanes);
                let mut v = self.take8(&idx);
                let hs = finalize8_arr(&mut v);
                self.tags |= FIN8;
                let mut first = 0;
                for (l, s) in v.iter_mut().enumerate() {
                    let s = s.as_mut().unwrap();
                    if l == 0 {
                        first = s.m.digest_len;
                    }
                    if s.m.digest_len != first {
                        self.tags |= FIN8MIX;
                    }
                    if s.m.fed >= 1 << 32 {
                        self.tags |= BIG;
                    }
                    expect_hash(&format!("finalize8 lane {}", l), &hs[l], &s.m.digest())?;
                    s.finalized = true;
                }
                self.put8(&idx, v);
                for (l, &i) in idx.iter().enumerate() {
                    self.count_ok(i as u8).map_err(|e| format!("lane {}: {}", l, e))?;
                }
                Ok(())
            }
            Op::SNew { i, q } => {
                let q = q.varied(vary);
                let params = Placed::new(q.build());
                if self.log.is_some() {
                    let l = (&MaybeDbg(&*params)).dbg();
                    if !l.is_empty() {
                        self.tags |= PFMT;
                    }
                    self.log.as_mut().unwrap().extend(l.into_iter().map(|x| (usize::MAX, x)));
                }
                self.sp[*i as usize % SPSLOTS] = Some(Box::new(SpSlot {
                    st: Placed::new(params.to_state()),
                    m: RSp::new(q.hl, &q.key),
                    ups: 0,
                    finalized: false,
                    keyed: !q.key.is_empty(),
                }));
                self.scount_ok(*i)
            }
            Op::SNewDef { i, how } => {
                let st = match how % 4 {
                    0 => b2::blake2sp::State::new(),
                    1 => b2::blake2sp::State::default(),
                    2 => b2::blake2sp::Params::default().to_state(),
                    _ => b2::blake2sp::Params::new().to_state(),
                };
                self.sp[*i as usize % SPSLOTS] = Some(Box::new(SpSlot {
                    st: Placed::new(st),
                    m: RSp::new(32, &[]),
                    ups: 0,
                    finalized: false,
                    keyed: false,
                }));
                self.scount_ok(*i)
            }
            Op::SUp { i, d } => {
                let d = d.varied(vary);
                self.note_sp(*i, d.n);
                let b = d.place();
                let s = self.spslot(*i);
                let r = s.st.update(b.get()) as *const b2::blake2sp::State;
                if r != &*s.st as *const b2::blake2sp::State {
                    return Err("update returned another state".into());
                }
                s.m.feed(b.get());
                self.scount_ok(*i)
            }
            Op::SUpMany { i, d, c } => {
                let d = d.varied(vary);
                let b = d.place();
                for ch in b.get().chunks((*c).max(1)) {
                    self.note_sp(*i, ch.len());
                    let s = self.spslot(*i);
                    s.st.update(ch);
                    s.m.feed(ch);
                    self.scount_ok(*i)?;
                }
                Ok(())
            }
            Op::SWr { i, d, how } => {
                let how_seed = d.s;
                // A line writer cuts at newlines: no such thing where only contents are to differ.
                let how = &if self.log.is_some() && how % 12 == 7 { 1 } else { *how };
                let d = d.varied(vary);
                self.note_sp(*i, d.n);
                self.tags |= WRITE;
                let b = d.place();
                let s = self.spslot(*i);
                let SpSlot { st, m, .. } = s;
                write_op(&mut **st, &mut |x| m.feed(x), &|st| st.count(), b.get(), *how, how_seed)?;
                self.scount_ok(*i)
            }
            Op::SFin { i, times } => self.sfin(*i, *times),
            Op::SPort { i } => {
                let s = self.spslot(*i);
                if s.m.fed > 0 {
                    self.tags |= PORT;
                }
                let s = self.spslot(*i);
                crate::portable::force_sp(&mut s.st);
                self.scount_ok(*i)
            }
        }
    }

    fn snapshot(&mut self, k: usize) {
        let mut out = Vec::new();
        for s in self.s.iter().flatten() {
            for f in formats(&*s.st) {
                out.push((k, f));
            }
        }
        for s in self.sp.iter().flatten() {
            for f in formats(&*s.st) {
                out.push((k, f));
            }
        }
        self.tags |= FMT;
        self.log.as_mut().unwrap().extend(out);
    }
}

pub fn op_name(op: &Op) -> String {
    let s = format!("{:?}", op);
    s.split(|c: char| !c.is_alphanumeric()).next().unwrap_or("").to_string()
}

/// Drives std::io::Write; without the feature the same bytes go through update in other portions.
#[cfg(feature = "std")]
fn write_op<W: std::io::Write>(
    st: &mut W,
    feed: &mut dyn FnMut(&[u8]),
    count: &dyn Fn(&W) -> u64,
    data: &[u8],
    how: u8,
    s: u64,
) -> Res<()> {
    use std::io::{BufWriter, IoSlice, LineWriter, Write};
    let e = |x: std::io::Error| format!("write failed: {}", x);
    match how % 12 {
        0 => {
            let n = st.write(data).map_err(e)?;
            if n != data.len() {
                return Err(format!("write took {} of {} bytes", n, data.len()));
            }
            feed(data);
        }
        1 => {
            st.write_all(data).map_err(e)?;
            feed(data);
        }
        2 => {
            // Vectored: any prefix may be taken, at least the first non-empty buffer.
            let mut left: &[u8] = data;
            // Three buffers, or many, up to more than a system call would take; some are empty.
            let many = [2, 2, 2, 9, 20, 70, 1100, 2][(mix64(s ^ 9) % 8) as usize].min(data.len() + 3);
            let most = 2 * data.len() / many + 2;
            let mut bounds: Vec<usize> = Vec::new();
            let mut at = 0;
            while bounds.len() < many {
                let k = ((mix64(s ^ bounds.len() as u64) % most as u64) as usize).min(data.len() - at);
                bounds.push(k);
                at += k;
            }
            bounds.push(data.len() - at);
            let empty = match st.write_vectored(&[]) {
                Ok(n) => n,
                Err(x) => return Err(format!("write_vectored of no buffers failed: {}", x)),
            };
            if empty != 0 {
                return Err(format!("write_vectored of no buffers took {} bytes", empty));
            }
            for _ in 0..5000 {
                if left.is_empty() {
                    break;
                }
                let mut parts: Vec<IoSlice> = if s % 3 == 0 { vec![] } else { vec![IoSlice::new(&[])] };
                let mut at = 0;
                let mut first = 0;
                // All at first; then the next few.
                let skip = if left.len() == data.len() { 0 } else { bounds.iter().take_while(|b| **b == 0).count() };
                let take = if skip == 0 { bounds.len() } else { 8 };
                for b in bounds.iter().skip(skip).take(take) {
                    if first == 0 {
                        first = *b;
                    }
                    parts.push(IoSlice::new(&left[at..at + b]));
                    at += b;
                }
                let n = st.write_vectored(&parts).map_err(e)?;
                if n < first || n > left.len() {
                    return Err(format!("write_vectored took {} bytes of {}", n, left.len()));
                }
                feed(&left[..n]);
                left = &left[n..];
                let mut drop = n;
                for b in bounds.iter_mut() {
                    let k = drop.min(*b);
                    *b -= k;
                    drop -= k;
                }
            }
            if !left.is_empty() {
                return Err("write_vectored makes no progress".into());
            }
        }
        3 => {
            let text = hx(data);
            write!(st, "<{}>{}", text, data.len()).map_err(e)?;
            feed(format!("<{}>{}", text, data.len()).as_bytes());
        }
        4 => {
            let cap = 1 + (mix64(s) % 200) as usize;
            {
                let mut w = BufWriter::with_capacity(cap, &mut *st);
                let step = 1 + (mix64(s ^ 1) % 150) as usize;
                for c in data.chunks(step) {
                    w.write_all(c).map_err(e)?;
                }
                w.flush().map_err(e)?;
            }
            feed(data);
        }
        5 => {
            let mut r = data;
            let n = std::io::copy(&mut r, st).map_err(e)?;
            if n != data.len() as u64 {
                return Err(format!("io::copy moved {} of {}", n, data.len()));
            }
            feed(data);
        }
        6 => {
            let w: &mut dyn Write = &mut *st;
            let n = w.write(data).map_err(e)?;
            if n != data.len() {
                return Err(format!("dyn write took {} of {}", n, data.len()));
            }
            w.flush().map_err(e)?;
            feed(data);
        }
        7 => {
            {
                let mut w = LineWriter::new(&mut *st);
                w.write_all(data).map_err(e)?;
                w.flush().map_err(e)?;
            }
            feed(data);
        }
        8 => {
            let half = data.len() / 2;
            st.write_all(&data[..half]).map_err(e)?;
            feed(&data[..half]);
            let before = count(st);
            st.flush().map_err(e)?;
            st.flush().map_err(e)?;
            if count(st) != before {
                return Err("flush changed the count".into());
            }
            st.by_ref().write_all(&data[half..]).map_err(e)?;
            feed(&data[half..]);
        }
        9 => {
            // Many tiny writes, a few empty ones.
            let step = 1 + (mix64(s) % 70) as usize;
            for c in data.chunks(step) {
                let n = st.write(c).map_err(e)?;
                if n != c.len() {
                    return Err(format!("write took {} of {} bytes", n, c.len()));
                }
                if st.write(&[]).map_err(e)? != 0 {
                    return Err("empty write reported bytes".into());
                }
                feed(c);
            }
        }
        10 => {
            let n = (&mut &mut *st).write(data).map_err(e)?;
            if n != data.len() {
                return Err(format!("write through &mut took {} of {}", n, data.len()));
            }
            feed(data);
        }
        _ => {
            // One byte per character, so that the number of bytes is that of the data.
            let text: String = data.iter().map(|b| (b % 95 + 32) as char).collect();
            st.write_fmt(format_args!("{:>10}", text)).map_err(e)?;
            feed(format!("{:>10}", text).as_bytes());
        }
    }
    Ok(())
}
#[cfg(not(feature = "std"))]
trait Upd {
    fn upd(&mut self, b: &[u8]);
}
#[cfg(not(feature = "std"))]
impl Upd for b2::State {
    fn upd(&mut self, b: &[u8]) {
        self.update(b);
    }
}
#[cfg(not(feature = "std"))]
impl Upd for b2::blake2sp::State {
    fn upd(&mut self, b: &[u8]) {
        self.update(b);
    }
}
#[cfg(not(feature = "std"))]
fn write_op<W: Upd>(
    st: &mut W,
    feed: &mut dyn FnMut(&[u8]),
    _count: &dyn Fn(&W) -> u64,
    data: &[u8],
    how: u8,
    _s: u64,
) -> Res<()> {
    let at = data.len() * (how as usize % 5) / 4;
    st.upd(&data[..at]);
    st.upd(&data[at..]);
    feed(data);
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// Multi-input functions
// ---------------------------------------------------------------------------------------------

pub fn call_hash8(p: &[&b2::Params], d: &[&[u8]]) -> [b2::Hash; 8] {
    b2::hash8(
        p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7], d[0], d[1], d[2], d[3], d[4], d[5], d[6], d[7],
    )
}
pub fn call_exact8(p: &b2::Params, d: &[&[u8]]) -> [b2::Hash; 8] {
    b2::hash8_exact(p, d[0], d[1], d[2], d[3], d[4], d[5], d[6], d[7])
}
pub fn call_exact4(p: &b2::Params, d: &[&[u8]]) -> [b2::Hash; 4] {
    b2::hash4_exact(p, d[0], d[1], d[2], d[3])
}

fn hash8(p: &[P], d: &[Data]) -> Res<u64> {
    let mut t = 0;
    let params: Vec<Placed<b2::Params>> = p.iter().map(|x| Placed::new(x.build())).collect();
    // Equal parameters: one object in several lanes, or equal objects.
    let lane_params: Vec<&b2::Params> = (0..8)
        .map(|i| if d[0].s % 2 == 0 { &*params[(0..i).find(|&j| p[j] == p[i]).unwrap_or(i)] } else { &*params[i] })
        .collect();
    let bufs = Bufs::new(d);
    if bufs.shared() {
        t |= ALIAS;
    }
    let refs: Vec<&[u8]> = bufs.get();
    let want: Vec<Vec<u8>> = (0..8).map(|i| refimpl::hash_whole(&p[i].model(), refs[i])).collect();
    for x in p {
        t |= ptags(x);
    }
    for x in d {
        t |= ltags(x.n);
    }
    if p.iter().any(|x| x.model() != p[0].model()) {
        t |= MIXED;
    }
    let keyed = p.iter().any(|x| !x.key.is_empty());
    let r = panics(|| call_hash8(&lane_params, &refs));
    match (keyed, r) {
        (true, Err(_)) => Ok(t | REJECT),
        (true, Ok(_)) => Err("hash8 accepted parameters with a key".into()),
        (false, Err(m)) => Err(format!("hash8 panicked: {}", m)),
        (false, Ok(h)) => {
            for i in 0..8 {
                expect_hash(&format!("hash8 lane {}", i), &h[i], &want[i])?;
            }
            let min = d.iter().map(|x| x.n).min().unwrap();
            if min > 64 {
                t |= TOGETHER;
            }
            if min > 0 && min % 64 == 0 && d.iter().all(|x| x.n == min) {
                t |= TOEND;
            }
            Ok(t)
        }
    }
}

fn exact(p: &P, d: &[Data]) -> Res<u64> {
    let mut t = ptags(p);
    let params = Placed::new(p.build());
    let bufs = Bufs::new(d);
    if bufs.shared() {
        t |= ALIAS;
    }
    let refs: Vec<&[u8]> = bufs.get();
    let n = d[0].n;
    let ok = n > 0 && n % 64 == 0 && d.iter().all(|x| x.n == n);
    let name = if d.len() == 4 { "hash4_exact" } else { "hash8_exact" };
    let r = panics(|| {
        if d.len() == 4 {
            call_exact4(&params, &refs).to_vec()
        } else {
            call_exact8(&params, &refs).to_vec()
        }
    });
    match (ok, r) {
        (false, Err(_)) => Ok(t | REJECT),
        (false, Ok(_)) => Err(format!(
            "{} accepted inputs of lengths {:?}",
            name,
            d.iter().map(|x| x.n).collect::<Vec<_>>()
        )),
        (true, Err(m)) => Err(format!("{} rejected well-formed inputs: {}", name, m)),
        (true, Ok(h)) => {
            let m = p.model();
            for i in 0..d.len() {
                expect_hash(&format!("{} lane {}", name, i), &h[i], &refimpl::hash_whole(&m, refs[i]))?;
            }
            t |= ltags(n);
            Ok(t)
        }
    }
}

// ---------------------------------------------------------------------------------------------
// Lengths beyond 32 bits, none of which is ever to be read
// ---------------------------------------------------------------------------------------------

#[cfg(all(target_pointer_width = "64", not(miri)))]
fn zeros(n: u64) -> Option<&'static [u8]> {
    static REGION: std::sync::OnceLock<Option<(usize, usize)>> = std::sync::OnceLock::new();
    let r = REGION.get_or_init(|| unsafe {
        let n = (1usize << 34) + (1 << 20);
        let p = libc::mmap(std::ptr::null_mut(), n, libc::PROT_READ, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0);
        if p == libc::MAP_FAILED {
            None
        } else {
            Some((p as usize, n))
        }
    });
    let (p, m) = (*r)?;
    if n as usize > m {
        return None;
    }
    Some(unsafe { std::slice::from_raw_parts(p as *const u8, n as usize) })
}
#[cfg(not(all(target_pointer_width = "64", not(miri))))]
fn zeros(_n: u64) -> Option<&'static [u8]> {
    None
}

/// An input of `a` zero bytes where it has no business.
fn giant(what: u8, a: u64, b: u8) -> Res<u64> {
    let z = match zeros(a) {
        Some(z) => z,
        None => return Ok(0),
    };
    let must = |name: &str, ok: bool| if ok { Ok(SETREJ) } else { Err(format!("{} accepted {} bytes", name, a)) };
    match what % 8 {
        0 | 1 | 2 => {
            let limit = if what % 8 == 0 { 32 } else { 8 };
            if a <= limit {
                return Ok(0);
            }
            let mut p = Placed::new(b2::Params::new());
            p.hash_length(9).key(b"abc").salt(b"de").personal(b"fgh");
            let r = panics(|| {
                match what % 8 {
                    0 => p.key(z),
                    1 => p.salt(z),
                    _ => p.personal(z),
                };
            });
            let t = must(["key", "salt", "personal"][what as usize % 8], r.is_err())?;
            let m = P { hl: 9, key: b"abc".to_vec(), salt: b"de".to_vec(), pers: b"fgh".to_vec(), ..P::default() };
            expect_hash("parameters after a rejected call", &digest_of(&p, b"x"), &refimpl::hash_whole(&m.model(), b"x"))?;
            Ok(t)
        }
        3 => {
            if a <= 32 {
                return Ok(0);
            }
            let mut p = Placed::new(b2::blake2sp::Params::new());
            p.hash_length(9).key(b"abc");
            let r = panics(|| {
                p.key(z);
            });
            let t = must("BLAKE2sp key", r.is_err())?;
            let mut m = RSp::new(9, b"abc");
            m.feed(b"x");
            expect_hash("BLAKE2sp parameters after a rejected call", &p.to_state().update(b"x").finalize(), &m.digest())?;
            Ok(t)
        }
        4 | 5 => {
            // One lane gigantic, or all of the same length that is no multiple of a block.
            let lanes = if what % 8 == 4 { 4 } else { 8 };
            let all = a % 64 != 0;
            let one = vec![0u8; 64 * (1 + b as usize / 8)];
            let refs: Vec<&[u8]> = (0..lanes).map(|i| if all || i == b as usize % lanes { z } else { &one[..] }).collect();
            if a as usize == one.len() {
                return Ok(0);
            }
            let p = b2::Params::new();
            let r = panics(|| if lanes == 4 { call_exact4(&p, &refs).to_vec() } else { call_exact8(&p, &refs).to_vec() });
            if r.is_ok() {
                return Err(format!("hash{}_exact accepted inputs of lengths {:?}", lanes, refs.iter().map(|x| x.len()).collect::<Vec<_>>()));
            }
            Ok(REJECT)
        }
        _ => {
            // A hash of zeros against zeros of another number.
            let hl = 1 + b as usize % 32;
            let h = P { hl: hl as u8, ..P::default() }.build().to_state().finalize();
            let h = match craft(&h, |x| x.iter_mut().for_each(|y| *y = 0)) {
                Some(h) => h,
                None => return Ok(0),
            };
            let want = a == hl as u64;
            if (h == *z) != want || (h != *z) == want {
                return Err(format!("a hash of {} zero bytes == a slice of {} zero bytes should be {}", hl, a, want));
            }
            Ok(if want { EQ } else { NE })
        }
    }
}

// ---------------------------------------------------------------------------------------------
// Compression kernels
// ---------------------------------------------------------------------------------------------

#[allow(unused_variables)]
#[cfg(not(feature = "bench"))]
fn kernel(_: &[[u32; 8]], _: &[Data], _: &[u64], _: u8, _: u8, _: u8) -> Res<u64> {
    Ok(0)
}
#[cfg(feature = "bench")]
fn kernel(h: &[[u32; 8]], m: &[Data], t: &[u64], lb: u8, ln: u8, rot: u8) -> Res<u64> {
    let mut tags = 0;
    // Placement is kept; only the first 64 bytes count.
    let bufs = Bufs::new(&m.iter().map(|d| Data { n: 64, ..d.clone() }).collect::<Vec<_>>());
    if bufs.shared() {
        tags |= ALIAS;
    }
    let blocks: Vec<&[u8; 64]> = bufs.get().into_iter().map(|b| <&[u8; 64]>::try_from(b).unwrap()).collect();
    let f = |bits: u8, i: usize| if bits >> i & 1 == 1 { !0u32 } else { 0 };
    let want: Vec<[u32; 8]> = (0..8)
        .map(|i| {
            let mut x = h[i];
            refimpl::compress(&mut x, blocks[i], t[i], f(lb, i), f(ln, i));
            x
        })
        .collect();
    if t.iter().any(|x| x >> 32 != 0) {
        tags |= HIGHT;
    }
    if lb != 0 && lb != 0xff {
        tags |= MIXED;
    }
    let cmp = |name: &str, i: usize, got: &[u32; 8], want: &[u32; 8]| -> Res<()> {
        if got != want {
            return Err(format!("{} lane {}: {:08x?} should be {:08x?}", name, i, got, want));
        }
        Ok(())
    };
    for i in 0..8 {
        let mut x = Placed::new(h[i]);
        b2::benchmarks::compress_portable(&mut x, blocks[i], t[i], f(lb, i), f(ln, i));
        cmp("portable::compress", i, &x, &want[i])?;
    }
    // Lane order must not matter: rotate inputs, expect rotated outputs.
    let ix: Vec<usize> = (0..8).map(|i| (i + rot as usize) % 8).collect();
    macro_rules! eight {
        ($f:path, $name:expr) => {{
            let mut s: Vec<Placed<[u32; 8]>> = ix.iter().map(|&i| Placed::new(h[i])).collect();
            {
                let mut it = s.iter_mut();
                let mut w = || &mut **it.next().unwrap();
                #[allow(unused_unsafe)]
                unsafe {
                    $f(
                        w(), w(), w(), w(), w(), w(), w(), w(),
                        blocks[ix[0]], blocks[ix[1]], blocks[ix[2]], blocks[ix[3]],
                        blocks[ix[4]], blocks[ix[5]], blocks[ix[6]], blocks[ix[7]],
                        t[ix[0]], t[ix[1]], t[ix[2]], t[ix[3]], t[ix[4]], t[ix[5]], t[ix[6]], t[ix[7]],
                        f(lb, ix[0]), f(lb, ix[1]), f(lb, ix[2]), f(lb, ix[3]),
                        f(lb, ix[4]), f(lb, ix[5]), f(lb, ix[6]), f(lb, ix[7]),
                        f(ln, ix[0]), f(ln, ix[1]), f(ln, ix[2]), f(ln, ix[3]),
                        f(ln, ix[4]), f(ln, ix[5]), f(ln, ix[6]), f(ln, ix[7]),
                    );
                }
            }
            for k in 0..8 {
                cmp($name, k, &s[k], &want[ix[k]])?;
            }
        }};
    }
    eight!(b2::benchmarks::compress8_portable, "portable::compress8");
    #[cfg(target_arch = "x86_64")]
    {
        use std::arch::x86_64::*;
        if is_x86_feature_detected!("sse4.1") && is_x86_feature_detected!("ssse3") {
            tags |= SIMD;
            for i in 0..8 {
                let mut x = Placed::new(h[i]);
                unsafe { b2::benchmarks::compress_sse41(&mut x, blocks[i], t[i], f(lb, i), f(ln, i)) };
                cmp("sse41::compress", i, &x, &want[i])?;
            }
            for half in 0..2 {
                let l: Vec<usize> = ix[half * 4..half * 4 + 4].to_vec();
                let hv: [[u32; 4]; 8] = std::array::from_fn(|w| std::array::from_fn(|k| h[l[k]][w]));
                let out: [[u32; 4]; 8] = unsafe {
                    let mut v: [__m128i; 8] = std::mem::transmute(hv);
                    let q = |g: &dyn Fn(usize) -> u32| -> __m128i {
                        std::mem::transmute::<[u32; 4], __m128i>(std::array::from_fn(|k| g(l[k])))
                    };
                    b2::benchmarks::compress4_transposed_sse41(
                        &mut v,
                        blocks[l[0]],
                        blocks[l[1]],
                        blocks[l[2]],
                        blocks[l[3]],
                        q(&|i| t[i] as u32),
                        q(&|i| (t[i] >> 32) as u32),
                        q(&|i| f(lb, i)),
                        q(&|i| f(ln, i)),
                    );
                    std::mem::transmute(v)
                };
                for k in 0..4 {
                    let got: [u32; 8] = std::array::from_fn(|w| out[w][k]);
                    cmp("sse41::compress4_transposed", k, &got, &want[l[k]])?;
                }
            }
        }
        if is_x86_feature_detected!("avx2") {
            eight!(b2::benchmarks::compress8_avx2, "avx2::compress8");
            let col = |g: &dyn Fn(usize) -> u32| -> [u32; 8] { std::array::from_fn(|k| g(ix[k])) };
            let tl = col(&|i| t[i] as u32);
            let th = col(&|i| (t[i] >> 32) as u32);
            let fb = col(&|i| f(lb, i));
            let fnn = col(&|i| f(ln, i));
            let hv: [[u32; 8]; 8] = std::array::from_fn(|w| std::array::from_fn(|k| h[ix[k]][w]));
            let mut st: [b2::AlignedWords8; 8] = std::array::from_fn(|w| b2::AlignedWords8(hv[w]));
            unsafe {
                b2::benchmarks::compress8_vectorized_avx2(
                    &mut st,
                    blocks[ix[0]], blocks[ix[1]], blocks[ix[2]], blocks[ix[3]],
                    blocks[ix[4]], blocks[ix[5]], blocks[ix[6]], blocks[ix[7]],
                    &b2::AlignedWords8(tl),
                    &b2::AlignedWords8(th),
                    &b2::AlignedWords8(fb),
                    &b2::AlignedWords8(fnn),
                );
            }
            for k in 0..8 {
                let got: [u32; 8] = std::array::from_fn(|w| st[w].0[k]);
                cmp("avx2::compress8_vectorized", k, &got, &want[ix[k]])?;
            }
            let words: [[u32; 8]; 16] = std::array::from_fn(|w| {
                std::array::from_fn(|k| {
                    u32::from_le_bytes(<[u8; 4]>::try_from(&blocks[ix[k]][4 * w..4 * w + 4]).unwrap())
                })
            });
            let out: [[u32; 8]; 8] = unsafe {
                let mut v: [__m256i; 8] = std::mem::transmute(hv);
                let mv: [__m256i; 16] = std::mem::transmute(words);
                b2::benchmarks::compress8_transposed_all_avx2(
                    &mut v,
                    &mv,
                    std::mem::transmute(tl),
                    std::mem::transmute(th),
                    std::mem::transmute(fb),
                    std::mem::transmute(fnn),
                );
                std::mem::transmute(v)
            };
            for k in 0..8 {
                let got: [u32; 8] = std::array::from_fn(|w| out[w][k]);
                cmp("avx2::compress8_transposed_all", k, &got, &want[ix[k]])?;
            }
        }
    }
    Ok(tags)
}

// ---------------------------------------------------------------------------------------------
// Setters
// ---------------------------------------------------------------------------------------------

fn legal(c: &Call) -> bool {
    match c {
        Call::Hl(n) => (1..=32).contains(n),
        Call::Key(d) => d.n <= 32,
        Call::Salt(d) | Call::Pers(d) => d.n <= 8,
        Call::Md(v) => *v >= 1,
        Call::Off(v) => *v < 1 << 48,
        Call::Inner(n) => *n <= 32,
        _ => true,
    }
}

fn digest_of(p: &b2::Params, msg: &[u8]) -> b2::Hash {
    p.to_state().update(msg).finalize()
}

fn setters(calls: &[Call], d: &Data) -> Res<u64> {
    let mut tags = ltags(d.n);
    let b = d.place();
    let msg = b.get();
    let mut m = RParams::default();
    let mut p = Placed::new(b2::Params::new());
    let mut kept: Vec<(b2::State, RParams)> = Vec::new();
    let mut old: Vec<(Placed<b2::Params>, RParams)> = Vec::new();
    let mut set = 0u32;
    for (k, c) in calls.iter().enumerate() {
        let at = |e: String| format!("call {} ({:?}): {}", k, c, e);
        let kind = match c {
            Call::Hl(_) => 0,
            Call::Key(_) => 1,
            Call::Salt(_) => 2,
            Call::Pers(_) => 3,
            Call::Fo(_) => 4,
            Call::Md(_) => 5,
            Call::Leaf(_) => 6,
            Call::Off(_) => 7,
            Call::Nd(_) => 8,
            Call::Inner(_) => 9,
            Call::Last(_) => 10,
            Call::Clone | Call::ToState => 31,
        };
        match c {
            Call::Clone => {
                fn other(p: &mut b2::Params) {
                    p.hash_length(7).key(&[9; 32]).salt(&[1; 8]).personal(&[2; 8]).fanout(3).max_depth(4);
                    p.max_leaf_length(5).node_offset(6).node_depth(7).inner_hash_length(8).last_node(true);
                }
                let mut q = Placed::new((*p).clone());
                if k % 2 == 1 {
                    // clone_from over used parameters
                    other(&mut q);
                    (*q).clone_from(&p);
                }
                // Whatever happens to the original must not reach the clone.
                other(&mut p);
                std::mem::swap(&mut p, &mut q);
                let mut other = m.clone();
                other.digest_len = 7;
                other.key = vec![9; 32];
                other.salt = vec![1; 8];
                other.personal = vec![2; 8];
                other.fanout = 3;
                other.depth = 4;
                other.leaf_len = 5;
                other.node_offset = 6;
                other.node_depth = 7;
                other.inner_len = 8;
                other.last_node = true;
                old.push((q, other));
                continue;
            }
            Call::ToState => {
                kept.push((p.to_state(), m.clone()));
                continue;
            }
            _ => {}
        }
        let data = match c {
            Call::Key(d) | Call::Salt(d) | Call::Pers(d) => Some(d.place()),
            _ => None,
        };
        let bytes: &[u8] = data.as_ref().map(|b| b.get()).unwrap_or(&[]);
        let r = panics(|| {
            let q: &mut b2::Params = match c {
                Call::Hl(n) => p.hash_length(*n),
                Call::Key(_) => p.key(bytes),
                Call::Salt(_) => p.salt(bytes),
                Call::Pers(_) => p.personal(bytes),
                Call::Fo(v) => p.fanout(*v),
                Call::Md(v) => p.max_depth(*v),
                Call::Leaf(v) => p.max_leaf_length(*v),
                Call::Off(v) => p.node_offset(*v),
                Call::Nd(v) => p.node_depth(*v),
                Call::Inner(n) => p.inner_hash_length(*n),
                Call::Last(v) => p.last_node(*v),
                Call::Clone | Call::ToState => unreachable!(),
            };
            q as *const b2::Params
        });
        match (legal(c), r) {
            (true, Ok(q)) => {
                if q != &*p as *const b2::Params {
                    return Err(at("returned another object".into()));
                }
                match c {
                    Call::Hl(n) => m.digest_len = *n as u8,
                    Call::Key(_) => m.key = bytes.to_vec(),
                    Call::Salt(_) => m.salt = bytes.to_vec(),
                    Call::Pers(_) => m.personal = bytes.to_vec(),
                    Call::Fo(v) => m.fanout = *v,
                    Call::Md(v) => m.depth = *v,
                    Call::Leaf(v) => m.leaf_len = *v,
                    Call::Off(v) => m.node_offset = *v,
                    Call::Nd(v) => m.node_depth = *v,
                    Call::Inner(n) => m.inner_len = *n as u8,
                    Call::Last(v) => m.last_node = *v,
                    _ => {}
                }
                if set >> kind & 1 == 1 {
                    tags |= OVERWR;
                }
                set |= 1 << kind;
            }
            (true, Err(e)) => return Err(at(format!("legal value rejected: {}", e))),
            (false, Ok(_)) => return Err(at("illegal value accepted".into())),
            (false, Err(_)) => {
                tags |= SETREJ;
                let want = refimpl::hash_whole(&m, msg);
                expect_hash("after a rejected call", &digest_of(&p, msg), &want).map_err(at)?;
            }
        }
    }
    if m != RParams::default() {
        tags |= PARAMS;
    }
    if !m.key.is_empty() {
        tags |= KEYED;
    }
    let want = refimpl::hash_whole(&m, msg);
    expect_hash("final parameters", &digest_of(&p, msg), &want)?;
    expect_hash("same parameters again", &digest_of(&p, msg), &want)?;
    // The same record through the other consumers.
    if m.key.is_empty() {
        for h in call_hash8(&[&*p; 8], &[msg; 8]).iter() {
            expect_hash("final parameters in hash8", h, &want)?;
        }
    }
    if !msg.is_empty() && msg.len() % 64 == 0 {
        for h in call_exact8(&p, &[msg; 8]).iter() {
            expect_hash("final parameters in hash8_exact", h, &want)?;
        }
        for h in call_exact4(&p, &[msg; 4]).iter() {
            expect_hash("final parameters in hash4_exact", h, &want)?;
        }
    }
    for (i, (st, m)) in kept.iter_mut().enumerate() {
        let want = refimpl::hash_whole(m, msg);
        expect_hash(&format!("state {} built earlier", i), &st.update(msg).finalize(), &want)?;
    }
    for (i, (p, m)) in old.iter().enumerate() {
        let want = refimpl::hash_whole(m, msg);
        expect_hash(&format!("original {} of a clone", i), &digest_of(p, msg), &want)?;
    }
    Ok(tags)
}

fn setters_sp(calls: &[Call], d: &Data) -> Res<u64> {
    let mut tags = ltags(d.n);
    let b = d.place();
    let msg = b.get();
    let mut m: (u8, Vec<u8>) = (32, vec![]);
    let mut p = Placed::new(b2::blake2sp::Params::new());
    let mut kept: Vec<(b2::blake2sp::State, (u8, Vec<u8>))> = Vec::new();
    let mut set = 0u32;
    let go = |p: &b2::blake2sp::Params| p.to_state().update(msg).finalize();
    for (k, c) in calls.iter().enumerate() {
        let at = |e: String| format!("BLAKE2sp call {} ({:?}): {}", k, c, e);
        let data = match c {
            Call::Key(d) => Some(d.place()),
            _ => None,
        };
        let bytes: &[u8] = data.as_ref().map(|b| b.get()).unwrap_or(&[]);
        let r = match c {
            Call::Hl(n) => panics(|| p.hash_length(*n) as *const _),
            Call::Key(_) => panics(|| p.key(bytes) as *const _),
            Call::Clone => {
                let mut q = Placed::new((*p).clone());
                if k % 2 == 1 {
                    q.hash_length(7).key(&[9; 32]);
                    (*q).clone_from(&p);
                }
                p.hash_length(7).key(&[9; 32]);
                std::mem::swap(&mut p, &mut q);
                let want = refimpl::hash_whole_sp(7, &[9; 32], msg);
                expect_hash("original of a clone", &go(&q), &want).map_err(at)?;
                continue;
            }
            Call::ToState => {
                kept.push((p.to_state(), m.clone()));
                continue;
            }
            _ => continue,
        };
        match (legal(c), r) {
            (true, Ok(q)) => {
                if q != &*p as *const b2::blake2sp::Params {
                    return Err(at("returned another object".into()));
                }
                let kind = match c {
                    Call::Hl(n) => {
                        m.0 = *n as u8;
                        0
                    }
                    _ => {
                        m.1 = bytes.to_vec();
                        1
                    }
                };
                if set >> kind & 1 == 1 {
                    tags |= OVERWR;
                }
                set |= 1 << kind;
            }
            (true, Err(e)) => return Err(at(format!("legal value rejected: {}", e))),
            (false, Ok(_)) => return Err(at("illegal value accepted".into())),
            (false, Err(_)) => {
                tags |= SETREJ;
                expect_hash("after a rejected call", &go(&p), &refimpl::hash_whole_sp(m.0, &m.1, msg)).map_err(at)?;
            }
        }
    }
    if m.0 != 32 || !m.1.is_empty() {
        tags |= PARAMS;
    }
    let want = refimpl::hash_whole_sp(m.0, &m.1, msg);
    expect_hash("final BLAKE2sp parameters", &go(&p), &want)?;
    expect_hash("same BLAKE2sp parameters again", &go(&p), &want)?;
    for (i, (st, m)) in kept.iter_mut().enumerate() {
        let want = refimpl::hash_whole_sp(m.0, &m.1, msg);
        expect_hash(&format!("BLAKE2sp state {} built earlier", i), &st.update(msg).finalize(), &want)?;
    }
    Ok(tags)
}

// ---------------------------------------------------------------------------------------------
// Every difference shows
// ---------------------------------------------------------------------------------------------

#[derive(Clone, PartialEq, Debug)]
struct Desc {
    sp: bool,
    p: RParams,
    msg: Vec<u8>,
}
impl Desc {
    fn canon(&self) -> Desc {
        let mut d = self.clone();
        d.p.salt.resize(8, 0);
        d.p.personal.resize(8, 0);
        if d.sp {
            d.p = RParams { digest_len: d.p.digest_len, key: d.p.key, ..RParams::default() };
        }
        d
    }
}

fn build_raw(p: &RParams) -> b2::Params {
    let mut q = b2::Params::new();
    q.hash_length(p.digest_len as usize)
        .key(&p.key)
        .salt(&p.salt)
        .personal(&p.personal)
        .fanout(p.fanout)
        .max_depth(p.depth)
        .max_leaf_length(p.leaf_len)
        .node_offset(p.node_offset)
        .node_depth(p.node_depth)
        .inner_hash_length(p.inner_len as usize)
        .last_node(p.last_node);
    q
}

/// All lanes; for one-lane interfaces just one.
fn run_desc(iface: u8, d: &Desc, lane: usize, other: &[u8]) -> Vec<Vec<u8>> {
    if d.sp {
        let mut q = b2::blake2sp::Params::new();
        q.hash_length(d.p.digest_len as usize).key(&d.p.key);
        return vec![q.to_state().update(&d.msg).finalize().as_bytes().to_vec()];
    }
    let p = build_raw(&d.p);
    let v = |h: &[b2::Hash]| h.iter().map(|x| x.as_bytes().to_vec()).collect::<Vec<_>>();
    let lanes = |n: usize| -> Vec<&[u8]> {
        (0..n).map(|i| if i == lane % n { &d.msg[..] } else { other }).collect()
    };
    match iface {
        1 => {
            let def = b2::Params::new();
            let ps: Vec<&b2::Params> = (0..8).map(|i| if i == lane % 8 { &p } else { &def }).collect();
            v(&call_hash8(&ps, &lanes(8)))
        }
        2 => v(&call_exact8(&p, &lanes(8))),
        3 => v(&call_exact4(&p, &lanes(4))),
        4 => {
            let mut st: Vec<Option<Box<Slot>>> =
                (0..8).map(|_| Some(Box::new(Slot::new(&P::default())))).collect();
            st[lane % 8].as_mut().unwrap().st = Placed::new(p.to_state());
            update8_arr(&mut st, &lanes(8));
            v(&finalize8_arr(&mut st))
        }
        5 => {
            let mut s = p.to_state();
            crate::portable::force(&mut s);
            v(&[s.update(&d.msg).finalize()])
        }
        6 => {
            let mut s = p.to_state();
            for c in d.msg.chunks(1 + lane) {
                s.update(c);
            }
            v(&[s.finalize()])
        }
        _ => v(&[p.to_state().update(&d.msg).finalize()]),
    }
}

fn mutate(d: &mut Desc, m: &Mutation, blocks: bool) {
    let nbits = d.msg.len() as u64 * 8;
    match m {
        Mutation::FlipBit(b) => {
            if nbits > 0 {
                let b = b % nbits;
                d.msg[(b / 8) as usize] ^= 1 << (b % 8);
            }
        }
        Mutation::Append(x) => {
            let n = if blocks { 64 } else { 1 };
            for _ in 0..n {
                d.msg.push(*x);
            }
        }
        Mutation::Truncate => {
            let n = if blocks { 64 } else { 1 };
            if d.msg.len() > n {
                d.msg.truncate(d.msg.len() - n);
            }
        }
        Mutation::MoveKeyToMessage => {
            // The key block as message: same bytes compressed, other parameters.
            let mut m = d.p.key.clone();
            if !m.is_empty() {
                m.resize(64, 0);
                m.extend_from_slice(&d.msg);
                d.msg = m;
                d.p.key.clear();
            }
        }
        Mutation::KeyLen(n) => d.p.key.resize(*n as usize % 33, 0),
        Mutation::KeyBit(b) => {
            let n = d.p.key.len() * 8;
            if n > 0 {
                let b = *b as usize % n;
                d.p.key[b / 8] ^= 1 << (b % 8);
            }
        }
        Mutation::SaltBit(b) => {
            d.p.salt.resize(8, 0);
            d.p.salt[*b as usize / 8 % 8] ^= 1 << (b % 8);
        }
        Mutation::PersBit(b) => {
            d.p.personal.resize(8, 0);
            d.p.personal[*b as usize / 8 % 8] ^= 1 << (b % 8);
        }
        Mutation::SwapSaltPers => std::mem::swap(&mut d.p.salt, &mut d.p.personal),
        Mutation::Hl(n) => d.p.digest_len = 8 + n % 25,
        Mutation::Fo(v) => d.p.fanout = *v,
        Mutation::Md(v) => d.p.depth = (*v).max(1),
        Mutation::LeafBit(b) => d.p.leaf_len ^= 1 << (b % 32),
        Mutation::OffBit(b) => d.p.node_offset ^= 1 << (b % 48),
        Mutation::Nd(v) => d.p.node_depth = *v,
        Mutation::Inner(n) => d.p.inner_len = n % 33,
        Mutation::Last => d.p.last_node ^= true,
        Mutation::OtherAlg => d.sp ^= true,
        Mutation::SwapBlocks(a, b) => {
            let n = d.msg.len() / 64;
            if n > 1 {
                let (a, b) = (*a as usize % n, *b as usize % n);
                for i in 0..64 {
                    d.msg.swap(a * 64 + i, b * 64 + i);
                }
            }
        }
    }
}

fn mutant(iface: u8, p: &P, d: &Data, ms: &[Mutation], lane: u8) -> Res<u64> {
    let iface = iface % 9;
    let mut a = Desc { sp: iface == 8, p: p.model(), msg: d.vec() };
    if a.p.digest_len < 8 {
        a.p.digest_len += 8;
    }
    let exact = iface == 2 || iface == 3;
    if exact {
        let n = (a.msg.len() / 64).max(1) * 64;
        a.msg.resize(n, 0x5a);
    }
    let mut b = a.clone();
    for m in ms {
        mutate(&mut b, m, exact);
    }
    if exact || iface == 1 || iface == 4 {
        b.sp = false;
    }
    if exact && b.msg.len() % 64 != 0 {
        b.msg.resize((b.msg.len() / 64 + 1) * 64, 0);
    }
    if iface == 1 {
        a.p.key.clear();
        b.p.key.clear();
    }
    let differ = a.canon() != b.canon();
    let lane = lane as usize;
    // Companion lanes: for the exact functions they must have the same length.
    let other = |n: usize| {
        let n = if exact { n } else { d.n / 2 + 3 };
        let mut o = vec![0; n];
        fill(4, d.s ^ 77, &mut o);
        o
    };
    let ra = run_desc(iface, &a, lane, &other(a.msg.len()));
    let rb = run_desc(iface, &b, lane, &other(b.msg.len()));
    let k = |d: &Desc, r: &Vec<Vec<u8>>| if d.sp { 0 } else { lane % r.len() };
    let (da, db) = (&ra[k(&a, &ra)], &rb[k(&b, &rb)]);
    if da.len() != a.p.digest_len as usize || db.len() != b.p.digest_len as usize {
        return Err("wrong digest length".into());
    }
    if !differ {
        if da != db {
            return Err(format!("same input, digests {} and {}", hx(da), hx(db)));
        }
        return Ok(0);
    }
    let n = da.len().min(db.len());
    let bits: u32 = da.iter().zip(db).map(|(x, y)| (x ^ y).count_ones()).sum();
    if da[..n] == db[..n] {
        return Err(format!("different inputs, digests agree: {}", hx(&da[..n])));
    }
    if n == 32 && bits < 60 {
        return Err(format!("different inputs, digests only {} bits apart: {} and {}", bits, hx(da), hx(db)));
    }
    // A difference in one lane must not reach the others.
    if (iface == 1 || iface == 4) || (exact && a.p == b.p && a.msg.len() == b.msg.len()) {
        for i in 0..ra.len() {
            if i != lane % ra.len() && ra[i] != rb[i] {
                return Err(format!("a change in lane {} altered lane {}", lane % ra.len(), i));
            }
        }
    }
    let mut t = DISTINCT | ptags(p) | ltags(d.n);
    if iface >= 1 && iface <= 4 {
        t |= TOGETHER;
    }
    Ok(t)
}

pub const FAMILIES: u8 = 17;

/// Wide values: powers of two, their neighbours, complements, all-ones, small and random ones.
fn wide_values(bits: u32, s: u64) -> Vec<u64> {
    let mask = if bits == 64 { !0 } else { (1u64 << bits) - 1 };
    let mut v: Vec<u64> = (0..260).collect();
    for k in 0..bits {
        for d in [-2i64, -1, 0, 1, 2] {
            v.push((1u64 << k).wrapping_add(d as u64));
            v.push(!(1u64 << k).wrapping_add(d as u64));
        }
        v.push(3 << k);
        v.push(mix64(s ^ k as u64) >> (64 - bits));
        // The same pattern in each half, bytes swapped, halves swapped.
        let r = mix64(s ^ k as u64) & mask;
        v.push(r.swap_bytes() >> (64 - bits));
        v.push((r >> (bits / 2)) | (r << (bits / 2)));
        v.push(r);
    }
    v.push(!0);
    v.iter_mut().for_each(|x| *x &= mask);
    v
}
fn byte_values() -> [u8; 17] {
    [0, 1, 2, 3, 4, 7, 8, 15, 16, 31, 32, 33, 64, 127, 128, 254, 255]
}

/// Descriptions related to one another; all that differ must have different digests.
fn members(fam: u8, base: &Desc, s: u64) -> Vec<Desc> {
    let mut out = Vec::new();
    let mut add = |f: &mut dyn FnMut(&mut Desc)| {
        let mut d = base.clone();
        f(&mut d);
        out.push(d);
    };
    let b17 = byte_values();
    match fam {
        0 => wide_values(32, s).iter().for_each(|&x| add(&mut |d| d.p.leaf_len = x as u32)),
        1 => wide_values(48, s).iter().for_each(|&x| add(&mut |d| d.p.node_offset = x)),
        2 => (0..=255u8).for_each(|a| {
            b17.iter().for_each(|&b| {
                add(&mut |d| {
                    d.p.fanout = a;
                    d.p.depth = b.max(1);
                });
                add(&mut |d| {
                    d.p.fanout = b;
                    d.p.depth = a.max(1);
                })
            })
        }),
        3 => (0..=255u8).for_each(|a| {
            (0..=32u8).for_each(|b| {
                add(&mut |d| {
                    d.p.node_depth = a;
                    d.p.inner_len = b;
                })
            })
        }),
        4 => (8..=32u8).for_each(|a| {
            (0..=32usize).for_each(|b| {
                add(&mut |d| {
                    d.p.digest_len = a;
                    d.p.key = vec![0; b];
                })
            })
        }),
        5 => {
            for n in 0..=32usize {
                for x in [0u8, 1, 0x7f, 0x80, 0xff] {
                    add(&mut |d| d.p.key = vec![x; n]);
                }
                add(&mut |d| d.p.key = (0..n as u8).collect());
                add(&mut |d| d.p.key = (0..n as u8).rev().collect());
            }
            for n in [1usize, 8, 31, 32] {
                for b in 0..n * 8 {
                    add(&mut |d| {
                        d.p.key = vec![0; n];
                        d.p.key[b / 8] ^= 1 << (b % 8);
                    });
                    add(&mut |d| {
                        d.p.key = vec![0xff; n];
                        d.p.key[b / 8] ^= 1 << (b % 8);
                    });
                }
            }
        }
        6 => {
            for which in 0..2 {
                let mut set = |v: Vec<u8>| {
                    add(&mut |d| {
                        if which == 0 {
                            d.p.salt = v.clone()
                        } else {
                            d.p.personal = v.clone()
                        }
                    })
                };
                for i in 0..8usize {
                    for x in 0..=255u8 {
                        let mut v = vec![0u8; 8];
                        v[i] = x;
                        set(v);
                    }
                    for j in 0..8 {
                        let mut v = vec![0u8; 8];
                        v[i] = 0x80;
                        v[j] |= 1;
                        set(v);
                    }
                }
                for n in 0..=8usize {
                    set(vec![0xff; n]);
                    set((1..=n as u8).collect());
                    set((1..=n as u8).rev().collect());
                }
            }
        }
        7 => {
            for n in 0..1100usize {
                add(&mut |d| d.msg = vec![0; n]);
            }
            for n in (0..700usize).chain([1023, 1024, 1025, 1088, 2047, 2048, 2049, 4096, 8192, 65535, 65536, 65537]) {
                for x in [1u8, 0x80, 0xff] {
                    add(&mut |d| d.msg = vec![x; n]);
                }
            }
        }
        8 => {
            for n in [1usize, 63, 64, 65, 128, 192] {
                for b in 0..n * 8 {
                    add(&mut |d| {
                        d.msg = vec![0; n];
                        d.msg[b / 8] ^= 1 << (b % 8);
                    })
                }
            }
        }
        9 => (28..48u32).for_each(|k| {
            for a in 0..9u32 {
                for b in 0..7u32 {
                    add(&mut |d| {
                        d.p.node_offset = 1 << k;
                        d.p.node_depth = (1u32 << a >> 1) as u8;
                        d.p.inner_len = (1u32 << b >> 1) as u8;
                    })
                }
            }
        }),
        10 => (8..=32u8).step_by(3).for_each(|h| {
            for k in 0..7u32 {
                for a in 0..9u32 {
                    for b in 0..8u32 {
                        add(&mut |d| {
                            d.p.digest_len = h;
                            d.p.key = vec![1; 1 << k >> 1];
                            d.p.fanout = (1u32 << a >> 1) as u8;
                            d.p.depth = (1u32 << b) as u8;
                        })
                    }
                }
            }
        }),
        11 | 12 => (0..1u32 << 12).for_each(|m| {
            let r = |i: u32| if fam == 11 { 1 } else { mix64(s ^ i as u64) | 1 };
            add(&mut |d| {
                let on = |i: u32| m >> i & 1 == 1;
                let flip = |i: u32, x: u8| if on(i) { x ^ r(i) as u8 } else { x };
                if on(0) {
                    d.p.digest_len = if d.p.digest_len == 32 { 31 } else { d.p.digest_len + 1 };
                }
                if on(1) {
                    d.p.key = if d.p.key.len() == 32 { vec![0; 31] } else { vec![0; d.p.key.len() + 1] };
                }
                d.p.salt.resize(8, 0);
                d.p.personal.resize(8, 0);
                d.p.salt[0] = flip(2, d.p.salt[0]);
                d.p.personal[0] = flip(3, d.p.personal[0]);
                d.p.fanout = flip(4, d.p.fanout);
                if on(5) {
                    d.p.depth = if d.p.depth == 1 { 2 } else { d.p.depth - 1 };
                }
                if on(6) {
                    d.p.leaf_len ^= r(6) as u32;
                }
                if on(7) {
                    d.p.node_offset ^= r(7) >> 16 | 1;
                }
                d.p.node_depth = flip(8, d.p.node_depth);
                if on(9) {
                    d.p.inner_len = (d.p.inner_len + 1 + r(9) as u8 % 31) % 33;
                }
                d.p.last_node ^= on(10);
                if on(11) {
                    d.msg.push(0);
                }
            })
        }),
        13 => {
            // Short messages of few byte values: everything up to four bytes over three letters, and to two over all.
            for n in 0..=4u32 {
                for x in 0..3u32.pow(n) {
                    add(&mut |d| d.msg = (0..n).map(|i| [0u8, 1, 0x80][(x / 3u32.pow(i) % 3) as usize]).collect());
                }
            }
            for x in 0..=65535u32 {
                if x % 8 == (s % 8) as u32 {
                    add(&mut |d| d.msg = vec![x as u8, (x >> 8) as u8]);
                }
            }
        }
        14 => {
            // Where the key ends and the message begins: the same bytes split between them at every point, padded or not.
            let all: Vec<u8> = (0..32u64).map(|i| if i % 5 == 4 { 0 } else { mix64(s ^ i) as u8 }).collect();
            for n in 0..=32usize {
                for pad in [n, 32, 64] {
                    add(&mut |d| {
                        d.p.key = all[..n].to_vec();
                        d.msg = all[n..].to_vec();
                    });
                    add(&mut |d| {
                        d.p.key.clear();
                        d.msg = all[..n].to_vec();
                        d.msg.resize(pad.max(n), 0);
                        d.msg.extend_from_slice(&base.msg);
                    });
                }
                add(&mut |d| d.p.key = all[..n].to_vec());
            }
        }
        15 => {
            // Whole blocks in other orders, repeated, left out.
            let blk = |i: u64| -> Vec<u8> { (0..64).map(|j| mix64(s ^ (i * 64 + j)) as u8).collect() };
            for n in 1..=4u64 {
                for x in 0..3u64.pow(n as u32) {
                    add(&mut |d| d.msg = (0..n).flat_map(|i| blk(x / 3u64.pow(i as u32) % 3)).collect());
                }
            }
            for n in [9usize, 16, 17, 24] {
                for a in 0..n {
                    for b in 0..=a {
                        add(&mut |d| {
                            let mut o: Vec<u64> = (0..n as u64).collect();
                            o.swap(a, b);
                            d.msg = o.iter().flat_map(|&i| blk(i)).collect();
                        })
                    }
                }
            }
        }
        _ => {
            for i in 0..600u64 {
                let r = |j: u64| mix64(s ^ mix64(i * 64 + j));
                add(&mut |d| {
                    d.p.leaf_len = r(0) as u32;
                    d.p.node_offset = r(1) >> 16;
                    d.p.node_depth = r(2) as u8;
                    d.p.fanout = r(3) as u8;
                    d.p.depth = (r(4) as u8).max(1);
                    d.p.inner_len = (r(5) % 33) as u8;
                    d.p.digest_len = 8 + (r(6) % 25) as u8;
                    d.p.key = vec![r(7) as u8; (r(8) % 33) as usize];
                    d.msg = vec![r(9) as u8; (r(10) % 130) as usize];
                })
            }
        }
    }
    out
}

fn family(iface: u8, p: &P, d: &Data, fam: u8, lane: u8) -> Res<u64> {
    let iface = iface % 9;
    let mut base = Desc { sp: iface == 8, p: p.model(), msg: d.vec() };
    base.p.digest_len = base.p.digest_len.max(8);
    let exact = iface == 2 || iface == 3;
    let mut seen: std::collections::HashMap<[u8; 8], (Desc, Vec<u8>)> = std::collections::HashMap::new();
    let mut done = std::collections::HashSet::new();
    let lane = lane as usize;
    for mut m in members(fam % FAMILIES, &base, d.s ^ fam as u64) {
        if exact {
            let n = m.msg.len();
            m.msg.resize((n.max(1) + 63) / 64 * 64, 0);
        }
        if iface == 1 {
            m.p.key.clear();
        }
        let m = m.canon();
        if !done.insert(format!("{:?}", m)) {
            continue;
        }
        let n = if exact { m.msg.len() } else { d.n / 2 + 3 };
        let mut other = vec![0; n];
        fill(4, d.s ^ 77, &mut other);
        let r = run_desc(iface, &m, lane, &other);
        let got = &r[lane % r.len()];
        if got.len() != m.p.digest_len as usize {
            return Err("wrong digest length".into());
        }
        let mut k = [0u8; 8];
        k.copy_from_slice(&got[..8]);
        if let Some((o, od)) = seen.insert(k, (m.clone(), got.clone())) {
            let short = |d: &Desc| {
                let t = format!("{:?}", d.p);
                format!("{} of {} bytes {}, {}", if d.sp { "BLAKE2sp" } else { "BLAKE2s" }, d.msg.len(), hx(&d.msg[..d.msg.len().min(40)]), t)
            };
            return Err(format!("different inputs, digests start alike: {} for {} and {} for {}", hx(&od), short(&o), hx(got), short(&m)));
        }
    }
    Ok(DISTINCT | RELATED)
}

// ---------------------------------------------------------------------------------------------
// Hash values
// ---------------------------------------------------------------------------------------------

fn make_hash(via: u8, hl: u8, msg: &[u8]) -> (b2::Hash, Vec<u8>) {
    let p = P { hl, ..P::default() };
    let params = p.build();
    // The full 32 bytes the compression gives, of which only hl are to be visible.
    let full = || {
        let mut s = RStream::new(&p.model());
        s.feed(msg);
        s.full_digest().to_vec()
    };
    match via % 7 {
        0 => (params.to_state().update(msg).finalize(), full()),
        1 => {
            let mut q = b2::blake2sp::Params::new();
            q.hash_length(hl as usize);
            let h = q.to_state().update(msg).finalize();
            // Root's whole output.
            let mut m = RSp::new(hl, &[]);
            m.feed(msg);
            m.digest_len = 32;
            (h, m.full_digest())
        }
        2 => {
            (call_hash8(&[&params; 8], &[msg; 8])[(hl % 8) as usize], full())
        }
        3 | 4 if !msg.is_empty() && msg.len() % 64 == 0 => {
            if via % 7 == 3 {
                (call_exact8(&params, &[msg; 8])[(hl % 8) as usize], full())
            } else {
                (call_exact4(&params, &[msg; 4])[(hl % 4) as usize], full())
            }
        }
        5 => {
            let mut st: Vec<Option<Box<Slot>>> = (0..8).map(|_| Some(Box::new(Slot::new(&p)))).collect();
            update8_arr(&mut st, &[msg; 8]);
            (finalize8_arr(&mut st)[(hl % 8) as usize], full())
        }
        _ => {
            let mut s = params.to_state();
            crate::portable::force(&mut s);
            s.update(msg);
            (s.finalize(), full())
        }
    }
}

/// The same hash with other digest bytes, if the bytes are found inside the object.
pub fn craft(h: &b2::Hash, f: impl FnOnce(&mut [u8])) -> Option<b2::Hash> {
    let mut c: Box<b2::Hash> = Box::new(*h);
    let (len, off) = {
        let s = c.as_bytes();
        (s.len(), (s.as_ptr() as usize).wrapping_sub(&*c as *const b2::Hash as usize))
    };
    let size = std::mem::size_of::<b2::Hash>();
    if off > size || len > size - off {
        return None;
    }
    let p: *mut b2::Hash = &mut *c;
    unsafe { f(std::slice::from_raw_parts_mut((p as *mut u8).add(off), len)) };
    Some(*c)
}

fn check_hash(h: &b2::Hash, want: &[u8]) -> Res<()> {
    if h.as_bytes() != want {
        return Err(format!("as_bytes {} should be {}", hx(h.as_bytes()), hx(want)));
    }
    let r: &[u8] = h.as_ref();
    if r != want {
        return Err(format!("as_ref {} should be {}", hx(r), hx(want)));
    }
    let x = h.to_hex();
    if &x[..] != hx(want) {
        return Err(format!("to_hex {} should be {}", &x[..], hx(want)));
    }
    let all = want.last().map_or(true, |b| b % 16 == 0);
    for s in if all { formats(h) } else { vec![format!("{:?}", h), format!("{:#?}", h)] } {
        // The digits shown are exactly the digest's.
        let shown = s.split(|c: char| !c.is_ascii_hexdigit()).any(|run| run == hx(want));
        if !shown {
            return Err(format!("debug form {} should show {}", s, hx(want)));
        }
    }
    let c = *h;
    #[allow(clippy::clone_on_copy)]
    let c2 = h.clone();
    let mut c3 = b2::Params::new().hash_length(17).to_state().update(&[h.as_bytes().len() as u8]).finalize();
    #[allow(clippy::clone_on_copy)]
    c3.clone_from(h);
    for x in [&c, &c2, &c3] {
        if x.as_bytes() != want {
            return Err("a copy of the hash has other bytes".into());
        }
        if !(x == h) || x != h {
            return Err("a copy of the hash is not equal to it".into());
        }
    }
    Ok(())
}

fn eq_is(what: &str, a: &b2::Hash, b: &b2::Hash, want: bool) -> Res<()> {
    let b = &*Placed::new(*b);
    if (a == b) != want || (b == a) != want || (a != b) == want || (b != a) == want {
        return Err(format!("{}: {:?} == {:?} should be {}", what, a, b, want));
    }
    Ok(())
}
fn eq_slice(what: &str, a: &b2::Hash, b: &[u8], want: bool) -> Res<()> {
    let room = Buf::room(b.len(), (b.len() * 7) as u8);
    let b = unsafe {
        std::ptr::copy_nonoverlapping(b.as_ptr(), room.start(), b.len());
        room.get()
    };
    if (*a == *b) != want || (*a != *b) == want {
        return Err(format!("{}: {:?} == slice {} should be {}", what, a, hx(b), want));
    }
    Ok(())
}

#[allow(clippy::too_many_arguments)]
fn hashv(via: u8, hl1: u8, hl2: u8, d1: &Data, d2: &Data, flip: u16, cut: u8, ext: u8, collide: bool) -> Res<u64> {
    let mut t = 0;
    let m1 = d1.vec();
    let mut m2 = d2.vec();
    let (hl1, hl2) = if collide { (1 + hl1 % 2, 1 + hl2 % 2) } else { (hl1, hl2) };
    let (h1, full1) = make_hash(via, hl1, &m1);
    if collide {
        // Find an input whose digest starts with the same byte.
        let n = hl1.min(hl2).min(1) as usize;
        if m2.len() < 8 {
            m2.resize(8, 0);
        }
        for i in 0..4000u64 {
            m2[..8].copy_from_slice(&mix64(d2.s ^ i).to_le_bytes());
            let r = refimpl::hash_whole(&P { hl: hl2, ..P::default() }.model(), &m2);
            if r[..n] == full1[..n] && m2 != m1 {
                t |= COLL;
                break;
            }
        }
    }
    let (h2, full2) = make_hash(if collide { 0 } else { via / 7 }, hl2, &m2);
    let (h1, h2) = (Placed::new(h1), Placed::new(h2));
    let (w1, w2) = (&full1[..hl1 as usize], &full2[..hl2 as usize]);
    check_hash(&h1, w1)?;
    check_hash(&h2, w2)?;
    let same = w1 == w2;
    t |= if same { EQ } else { NE };
    eq_is("two hashes", &h1, &h2, same)?;
    eq_slice("hash and the other's bytes", &h1, w2, same)?;
    eq_slice("hash and the other's bytes", &h2, w1, same)?;
    eq_slice("hash and its bytes", &h1, w1, true)?;
    // One bit off, at any position.
    let bit = flip as usize % (w1.len() * 8);
    let mut f = w1.to_vec();
    f[bit / 8] ^= 1 << (bit % 8);
    eq_slice("slice with one bit flipped", &h1, &f, false)?;
    if let Some(c) = craft(&h1, |b| b[bit / 8] ^= 1 << (bit % 8)) {
        t |= CRAFT;
        check_hash(&c, &f)?;
        eq_is("hash with one bit flipped", &h1, &c, false)?;
        // Two differences that cancel when bytes are summed or xored.
        let (a, b) = (flip as usize % w1.len(), (flip as usize / 32) % w1.len());
        if a != b {
            if let Some(c) = craft(&h1, |x| {
                x[a] ^= 0x55;
                x[b] ^= 0x55;
            }) {
                eq_is("hash with two bytes changed alike", &h1, &c, false)?;
                let mut g = w1.to_vec();
                g[a] ^= 0x55;
                g[b] ^= 0x55;
                eq_slice("slice with two bytes changed alike", &h1, &g, false)?;
            }
            if w1[a] != w1[b] {
                let mut g = w1.to_vec();
                g.swap(a, b);
                eq_slice("slice with two bytes swapped", &h1, &g, false)?;
                let c = craft(&h1, |x| x.swap(a, b)).unwrap();
                eq_is("hash with two bytes swapped", &h1, &c, false)?;
            }
        }
        // All eight-bit-wide accumulators wrap here: 256 differing... every byte changed alike.
        let c = craft(&h1, |x| x.iter_mut().for_each(|y| *y = !*y)).unwrap();
        eq_is("complemented hash", &h1, &c, false)?;
    }
    // Any bytes, as a slice and as a hash.
    let mut any = d2.vec();
    eq_slice("slice of any bytes", &h1, &any, any == w1)?;
    any.resize(w1.len(), 0);
    eq_slice("slice of any bytes, as long", &h1, &any, any == w1)?;
    if let Some(c) = craft(&h1, |x| x.copy_from_slice(&any)) {
        check_hash(&c, &any)?;
        eq_is("hash of any bytes", &h1, &c, any == w1)?;
    }
    // Shorter and longer slices.
    let n = cut as usize % w1.len();
    eq_slice("proper prefix", &h1, &w1[..n], false)?;
    eq_slice("proper suffix", &h1, &w1[n.max(1)..], false)?;
    let mut longer = w1.to_vec();
    let hidden = &full1[w1.len()..];
    let k = 1 + ext as usize % 40;
    for i in 0..k {
        longer.push(*hidden.get(i).unwrap_or(&0));
    }
    eq_slice("slice continuing with the hidden bytes", &h1, &longer, false)?;
    let mut zeros = w1.to_vec();
    zeros.resize(w1.len() + k, 0);
    eq_slice("slice continuing with zeros", &h1, &zeros, false)?;
    if w1.len() < 32 {
        eq_slice("whole unshortened digest", &h1, &full1, false)?;
    }
    let mut wrap = w1.to_vec();
    wrap.resize(w1.len() + 256, ext);
    eq_slice("slice 256 bytes longer", &h1, &wrap, false)?;
    eq_slice("empty slice", &h1, &[], false)?;
    // Hashes of different lengths where one's bytes continue the other's.
    if hl1 != hl2 {
        let n = hl1.min(hl2) as usize;
        if let Some(c) = craft(&h2, |x| x[..n].copy_from_slice(&w1[..n])) {
            eq_is("hashes of different lengths with a common prefix", &h1, &c, false)?;
        }
    }
    Ok(t)
}

// ---------------------------------------------------------------------------------------------
// Instruction traces of comparisons
// ---------------------------------------------------------------------------------------------

#[cfg(all(feature = "pbt", target_arch = "x86_64", not(miri)))]
fn cteq(hl: u8, slice: bool, d: &Data, flips: &[Vec<u8>]) -> Res<u64> {
    #[cfg(feature = "cov")]
    use crate::cov as tracer;
    use crate::step;
    #[cfg(not(feature = "cov"))]
    use crate::step as tracer;
    let p = P { hl, ..P::default() };
    let b = d.place();
    let h = p.build().to_state().update(b.get()).finalize();
    let n = hl as usize;
    // Same addresses for every trace.
    let mut left: Box<b2::Hash> = Box::new(h);
    let mut right: Box<b2::Hash> = Box::new(h);
    let mut bytes: Box<[u8; 32]> = Box::new([0; 32]);
    let mut seen: [Option<(Vec<u8>, tracer::Trace)>; 2] = [None, None];
    // The differences, each with the left side's bytes if those are not to be the digest's.
    let digest = h.as_bytes().to_vec();
    let mut all: Vec<(Vec<u8>, Vec<u8>)> = vec![(vec![0; n], digest.clone())];
    all.extend(flips.iter().map(|f| {
        let content = if f.len() >= 64 { f[32..32 + n].to_vec() } else { digest.clone() };
        (f.iter().take(n).cloned().chain(std::iter::repeat(0)).take(n).collect(), content)
    }));
    all.push((vec![0; n], digest));
    let mut traced = 0;
    for (f, content) in &all {
        let other: Vec<u8> = content.iter().zip(f).map(|(x, y)| x ^ y).collect();
        let same = f.iter().all(|x| *x == 0);
        match craft(&h, |x| x.copy_from_slice(content)) {
            Some(c) => *left = c,
            None => return Ok(0),
        }
        if !slice {
            match craft(&h, |x| x.copy_from_slice(&other)) {
                Some(c) => *right = c,
                None => return Ok(0),
            }
        } else {
            bytes[..n].copy_from_slice(&other);
        }
        let (r, tr) = if slice {
            tracer::trace(|| step::eq_slice(&left, &bytes[..n]))
        } else {
            tracer::trace(|| step::eq_hash(&left, &right))
        };
        if r != 3 * same as u8 {
            return Err(format!("comparison with difference {}: == says {}, != says {}", hx(f), r & 1 != 0, r & 2 == 0));
        }
        let class = same as usize;
        match &seen[class] {
            None => seen[class] = Some((f.clone(), tr)),
            Some((g, old)) => {
                traced += 1;
                if *old != tr {
                    return Err(format!(
                        "comparing {}-byte hashes {}: {} instructions for difference {}, {} for difference {} of {}, paths differ",
                        n, if slice { "with a slice" } else { "" }, old.n, hx(g), tr.n, hx(f), hx(content)
                    ));
                }
            }
        }
    }
    Ok(if traced > 1 { TRACED } else { 0 })
}
#[cfg(not(all(feature = "pbt", target_arch = "x86_64", not(miri))))]
fn cteq(_hl: u8, _slice: bool, _d: &Data, _flips: &[Vec<u8>]) -> Res<u64> {
    Ok(0)
}

// ---------------------------------------------------------------------------------------------
// Debug output
// ---------------------------------------------------------------------------------------------

fn formats<T: Debug>(x: &T) -> Vec<String> {
    vec![
        format!("{:?}", x),
        format!("{:#?}", x),
        format!("{:x?}", x),
        format!("{:#X?}", x),
        format!("{:>300?}", x),
        format!("{:010.3?}", x),
        format!("{:+?}", Some(x)),
    ]
}
/// Formats whatever happens to implement Debug.
struct MaybeDbg<'a, T>(&'a T);
impl<'a, T: Debug> MaybeDbg<'a, T> {
    fn dbg(&self) -> Vec<String> {
        formats(self.0)
    }
}
trait NoDbg {
    fn dbg(&self) -> Vec<String> {
        Vec::new()
    }
}
impl<'a, T> NoDbg for &MaybeDbg<'a, T> {}

fn dbg(ops: &[Op], v: u64) -> Res<u64> {
    let run = |vary: u64| -> Res<(Vec<(usize, String)>, u64)> {
        let mut m = Machine::new();
        m.vary = vary;
        m.log = Some(Vec::new());
        m.run(ops)?;
        Ok((m.log.unwrap(), m.tags))
    };
    let (a, t) = run(0)?;
    let (b, _) = run(v.max(1))?;
    if a.len() != b.len() {
        return Err("different number of debug outputs".into());
    }
    for (x, y) in a.iter().zip(&b) {
        if x.1 != y.1 {
            return Err(format!(
                "debug output depends on key or message bytes (after op {}): {} and {}",
                x.0 as isize, x.1, y.1
            ));
        }
    }
    Ok(t)
}

// ---------------------------------------------------------------------------------------------
// Threads
// ---------------------------------------------------------------------------------------------

struct AssertShare<T>(T);
unsafe impl<T> Send for AssertShare<T> {}
unsafe impl<T> Sync for AssertShare<T> {}
impl<T> AssertShare<T> {
    fn get(&self) -> &T {
        &self.0
    }
    fn take(self) -> T {
        self.0
    }
}

struct Probe<T>(std::marker::PhantomData<T>);
#[allow(dead_code)]
trait NotSend {
    const SEND: bool = false;
}
#[allow(dead_code)]
trait NotSync {
    const SYNC: bool = false;
}
impl<T> NotSend for Probe<T> {}
impl<T> NotSync for Probe<T> {}
#[allow(dead_code)]
impl<T: Send> Probe<T> {
    const SEND: bool = true;
}
#[allow(dead_code)]
impl<T: Sync> Probe<T> {
    const SYNC: bool = true;
}

fn threads(progs: &[Vec<Op>]) -> Res<u64> {
    macro_rules! need { ($($t:ty),*) => {$(
        if !<Probe<$t>>::SEND { return Err(format!("{} cannot be moved to another thread", stringify!($t))); }
        if !<Probe<$t>>::SYNC { return Err(format!("{} cannot be shared between threads", stringify!($t))); }
    )*} }
    need!(b2::State, b2::Params, b2::Hash, b2::blake2sp::State, b2::blake2sp::Params);

    // Machines are created here (part of their work is done here too) and moved over.
    let mut machines = Vec::new();
    for ops in progs {
        let mut m = Machine::new();
        let k = ops.len() / 3;
        for op in &ops[..k] {
            m.step(op).map_err(|e| format!("before moving: {}", e))?;
        }
        machines.push(AssertShare((m, ops[k..].to_vec())));
    }
    let n = progs.len();
    // Shared by reference from all threads.
    let shared_p = P { hl: 20, key: vec![3; 5], salt: vec![1], ..P::default() };
    let msg: Vec<u8> = (0..700u32).map(|x| (x * 7) as u8).collect();
    let params = AssertShare(shared_p.build());
    let mut st = shared_p.build().to_state();
    st.update(&msg[..100]);
    let mut sp = b2::blake2sp::State::new();
    sp.update(&msg);
    let mut spm = RSp::new(32, &[]);
    spm.feed(&msg);
    let whole = refimpl::hash_whole(&shared_p.model(), &msg);
    let state = AssertShare(st);
    let sps = AssertShare(sp);
    let hash = AssertShare(params.get().to_state().update(&msg).finalize());
    let barrier = std::sync::Barrier::new(n);
    let mut tags = CONC | MOVED;
    // Three rounds; in each a machine is on another thread.
    let slots: Vec<std::sync::Mutex<Option<AssertShare<(Machine, Vec<Op>)>>>> =
        machines.into_iter().map(|m| std::sync::Mutex::new(Some(m))).collect();
    let results: Vec<Res<()>> = std::thread::scope(|sc| {
        let handles: Vec<_> = (0..n)
            .map(|me| {
                let (barrier, params, state, sps, hash, slots) = (&barrier, &params, &state, &sps, &hash, &slots);
                let (whole, msg) = (&whole, &msg);
                sc.spawn(move || {
                    let mut done = Ok(());
                    for round in 0..3 {
                        barrier.wait();
                        let k = (me + round) % n;
                        let (mut m, ops) = slots[k].lock().unwrap().take().unwrap().take();
                        let part = (ops.len() + 2) / 3;
                        let (from, to) = ((round * part).min(ops.len()), ((round + 1) * part).min(ops.len()));
                        let r = panics(|| -> Res<()> {
                            if round == 2 {
                                m.run(&ops[from..to])?;
                            } else {
                                for op in &ops[from..to] {
                                    m.step(op).map_err(|e| format!("round {} ({}): {}", round, op_name(op), e))?;
                                }
                            }
                            if round != 1 {
                                return Ok(());
                            }
                            expect_hash("shared Params", &params.get().to_state().update(msg).finalize(), whole)?;
                            if state.get().count() != 100 || sps.get().count() != 700 {
                                return Err("count of a shared state".into());
                            }
                            let mut c = state.get().clone();
                            expect_hash("clone of a shared State", &c.update(&msg[100..]).finalize(), whole)?;
                            if *hash.get() != whole[..] || hash.get().as_bytes() != &whole[..] {
                                return Err("shared Hash".into());
                            }
                            if &hash.get().to_hex()[..] != hx(whole) || format!("{:?}", state.get()).is_empty() {
                                return Err("shared Hash in hex".into());
                            }
                            Ok(())
                        });
                        let r = match r {
                            Ok(r) => r,
                            Err(p) => Err(format!("unexpected panic: {}", p)),
                        };
                        if done.is_ok() {
                            done = r;
                        }
                        *slots[k].lock().unwrap() = Some(AssertShare((m, ops)));
                    }
                    done
                })
            })
            .collect();
        handles
            .into_iter()
            .map(|h| h.join().unwrap_or_else(|_| Err("thread died".into())))
            .collect()
    });
    for (i, r) in results.into_iter().enumerate() {
        r.map_err(|e| format!("thread {}: {}", i, e))?;
    }
    for m in slots {
        // Moved back: still usable.
        let (mut m, _) = m.into_inner().unwrap().unwrap().take();
        tags |= m.tags;
        m.step(&Op::Up { i: 0, d: Data { k: 2, s: 1, n: 100, a: 1, r: vec![] } })?;
        m.fin(0, 1).map_err(|e| format!("after moving back: {}", e))?;
    }
    let mut sp = sps.take();
    expect_hash("BLAKE2sp state after sharing", &sp.finalize(), &spm.digest())?;
    Ok(tags)
}

/// No use of the crate before the threads run.
fn fresh(progs: &[Vec<Op>]) -> Res<u64> {
    let barrier = std::sync::Barrier::new(progs.len());
    let results: Vec<Res<u64>> = std::thread::scope(|sc| {
        let handles: Vec<_> = progs
            .iter()
            .map(|ops| {
                let barrier = &barrier;
                sc.spawn(move || {
                    barrier.wait();
                    match panics(|| {
                        let mut m = Machine::new();
                        m.run(ops).map(|_| m.tags)
                    }) {
                        Ok(r) => r,
                        Err(p) => Err(format!("unexpected panic: {}", p)),
                    }
                })
            })
            .collect();
        handles.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("thread died".into()))).collect()
    });
    let mut tags = CONC;
    for (i, r) in results.into_iter().enumerate() {
        tags |= r.map_err(|e| format!("thread {}, first use in its process: {}", i, e))?;
    }
    Ok(tags)
}
