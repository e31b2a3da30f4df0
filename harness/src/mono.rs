//! Drives the real two-copy map under controlled schedules and records the history the clients saw.
use crate::sched::{self, here, Strategy};
use crate::util::*;
use goko::monomap::{self, MonoReadHandle, MonoWriteHandle};
use rand::rngs::SmallRng;
use rand::Rng;
use serde_json::{json, Value};
use std::collections::HashSet;
use std::sync::atomic::{AtomicI64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};

struct Canary {
    data: Mutex<Vec<i64>>,
    dropped: AtomicUsize,
}
/// A value that notices being changed or dropped. Clones are independent.
struct Val(Arc<Canary>);
static LIVE: AtomicI64 = AtomicI64::new(0);
static DOUBLE: AtomicI64 = AtomicI64::new(0);
impl Val {
    fn new(d: Vec<i64>) -> Val {
        LIVE.fetch_add(1, Ordering::SeqCst);
        Val(Arc::new(Canary { data: Mutex::new(d), dropped: AtomicUsize::new(0) }))
    }
    fn obs(&self) -> Vec<i64> {
        self.0.data.lock().unwrap().clone()
    }
    fn push(&self, x: i64) {
        self.0.data.lock().unwrap().push(x);
    }
}
impl Clone for Val {
    fn clone(&self) -> Val {
        Val::new(self.obs())
    }
}
impl Drop for Val {
    fn drop(&mut self) {
        LIVE.fetch_sub(1, Ordering::SeqCst);
        if self.0.dropped.fetch_add(1, Ordering::SeqCst) > 0 {
            DOUBLE.fetch_add(1, Ordering::SeqCst);
        }
    }
}

/// Metadata that is read in two halves: a copy taken while it changes is not a value anyone ever set.
struct Meta(i64, i64);
const TORN: i64 = -999;
thread_local! { static READING: std::cell::Cell<bool> = std::cell::Cell::new(false); }
impl Clone for Meta {
    fn clone(&self) -> Meta {
        let a = unsafe { std::ptr::read_volatile(&self.0) };
        if READING.with(|r| r.get()) {
            here();
        }
        let b = unsafe { std::ptr::read_volatile(&self.1) };
        Meta(a, b)
    }
}
impl Meta {
    fn obs(&self) -> i64 {
        if self.0 == self.1 {
            self.0
        } else {
            TORN
        }
    }
}
/// Reads whose copy of the metadata may be interrupted
fn reading<T>(f: impl FnOnce() -> T) -> T {
    READING.with(|r| r.set(true));
    let x = f();
    READING.with(|r| r.set(false));
    x
}

type RH = MonoReadHandle<usize, Val, Meta>;
type WH = MonoWriteHandle<usize, Val, Meta>;

#[derive(Clone, Debug)]
pub enum R {
    Get(usize),
    MetaGet(usize),
    Len,
    Empty,
    Contains(usize),
    Snap,
    Each,
    Meta,
    Gone,
    Nested(usize, usize),
    NestedSnap(usize),
    Deep(usize, usize),
    Panic(usize),
    CloneHandle,
    Factory,
    DropHandle,
}
#[derive(Clone, Debug)]
pub enum W {
    Ins(usize, i64),
    Upd(usize, i64),
    Rem(usize),
    Pur,
    Meta(i64),
    Extend(Vec<(usize, i64)>),
    Refresh,
    Flush,
    Read(R),
    Drop,
}
#[derive(Clone, Debug)]
pub struct Prog {
    pub writer: Vec<W>,
    pub readers: Vec<Vec<R>>,
}

struct Hist {
    ev: Mutex<Vec<Value>>,
    reads: AtomicUsize,
    handles: AtomicUsize,
}
impl Hist {
    fn log(&self, v: Value) {
        self.ev.lock().unwrap().push(v);
    }
}

/// Looks at a value from inside a read: at once, and again after others had a chance to run.
fn look(h: &Hist, r: usize, k: usize, v: &Val, times: usize, between: &mut dyn FnMut()) -> Vec<i64> {
    let keep = v.0.clone();
    let first = keep.data.lock().unwrap().clone();
    // the flag must still be unset when the value is handed out
    let d0 = keep.dropped.load(Ordering::SeqCst) > 0;
    h.log(json!({"e": "in", "r": r, "k": k, "o": first, "d": d0}));
    for i in 0..times {
        here();
        if i == 0 {
            between();
        }
        here();
        let now = keep.data.lock().unwrap().clone();
        let d = keep.dropped.load(Ordering::SeqCst) > 0;
        h.log(json!({"e": "chk", "r": r, "o": now, "d": d}));
    }
    first
}

fn opt(v: Option<Vec<i64>>) -> Value {
    match v {
        Some(x) => json!([x]),
        None => json!([]),
    }
}

fn read(h: &Hist, hid: usize, rh: &RH, op: &R) {
    let r = h.reads.fetch_add(1, Ordering::SeqCst);
    let b = |kind: &str, k: usize| h.log(json!({"e": "rb", "r": r, "h": hid, "t": kind, "k": k}));
    let e = |res: Value| h.log(json!({"e": "re", "r": r, "res": res}));
    match op {
        R::Get(k) => {
            b("get", *k);
            let x = rh.get_and(k, |v| look(h, r, *k, v, 2, &mut || {}));
            e(opt(x));
        }
        R::MetaGet(k) => {
            b("metaget", *k);
            let x = reading(|| rh.meta_get_and(k, |v| look(h, r, *k, v, 1, &mut || {})));
            e(match x {
                None => json!([]),
                Some((v, m)) => json!([opt(v), m.obs()]),
            });
        }
        R::Len => {
            b("len", 0);
            let n = rh.len();
            e(json!(n));
        }
        R::Empty => {
            b("empty", 0);
            let n = rh.is_empty();
            e(json!(n));
        }
        R::Contains(k) => {
            b("contains", *k);
            let n = rh.contains_key(k);
            e(json!(n));
        }
        R::Snap | R::Each => {
            b("snap", 0);
            let mut seen: Vec<(usize, Arc<Canary>, Vec<i64>)> = vec![];
            let mut see = |k: &usize, v: &Val| {
                seen.push((*k, v.0.clone(), v.obs()));
                let d0 = v.0.dropped.load(Ordering::SeqCst) > 0;
                if d0 {
                    h.log(json!({"e": "chk", "r": r, "o": [], "d": true}));
                }
                here();
                for (_, c, o) in &seen {
                    let d = c.dropped.load(Ordering::SeqCst) > 0;
                    if d || *c.data.lock().unwrap() != *o {
                        h.log(json!({"e": "chk", "r": r, "o": [], "d": true}));
                    }
                }
            };
            if let R::Snap = op {
                let _: Vec<()> = rh.map_into(|k, v| see(k, v));
            } else {
                rh.for_each(|k, v| see(k, v));
            }
            let mut res: Vec<(usize, Vec<i64>)> = seen.iter().map(|(k, _, o)| (*k, o.clone())).collect();
            res.sort();
            e(json!(res));
        }
        R::Meta => {
            b("meta", 0);
            let m = reading(|| rh.meta());
            e(match m {
                None => json!([]),
                Some(m) => json!([m.obs()]),
            });
        }
        R::Gone => {
            b("gone", 0);
            let m = rh.is_destroyed();
            e(json!(m));
        }
        R::Nested(k, k2) => {
            b("get", *k);
            let x = rh.get_and(k, |v| look(h, r, *k, v, 3, &mut || read(h, hid, rh, &R::Get(*k2))));
            e(opt(x));
        }
        R::NestedSnap(k) => {
            b("get", *k);
            let x = rh.get_and(k, |v| look(h, r, *k, v, 3, &mut || read(h, hid, rh, &R::Snap)));
            e(opt(x));
        }
        R::Deep(k, depth) => {
            b("get", *k);
            let inner = if *depth > 1 { R::Deep((k + 1) % 3, depth - 1) } else { R::Panic((k + 1) % 3) };
            let x = rh.get_and(k, |v| look(h, r, *k, v, 2, &mut || read(h, hid, rh, &inner)));
            e(opt(x));
        }
        R::Panic(k) => {
            b("get", *k);
            let x = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                rh.get_and(k, |v| {
                    look(h, r, *k, v, 1, &mut || {});
                    std::panic::resume_unwind(Box::new("planned"));
                })
            }));
            match x {
                Ok(v) => e(opt(v)),
                Err(_) => h.log(json!({"e": "rp", "r": r})),
            }
        }
        _ => {}
    }
}

fn reader_body(h: &Hist, hid: usize, rh: RH, prog: &[R]) {
    let mut hs = vec![(hid, rh)];
    let mut which = 0;
    for op in prog {
        here();
        match op {
            R::CloneHandle => {
                if let Some((_, rh)) = hs.get(which) {
                    let n = rh.clone();
                    hs.push((h.handles.fetch_add(1, Ordering::SeqCst), n));
                    which = hs.len() - 1;
                }
            }
            R::Factory => {
                if let Some((_, rh)) = hs.get(which) {
                    let n = rh.factory().clone().handle();
                    hs.push((h.handles.fetch_add(1, Ordering::SeqCst), n));
                    which = hs.len() - 1;
                }
            }
            R::DropHandle => {
                if hs.len() > 1 {
                    hs.remove(which);
                    which = 0;
                }
            }
            op => {
                let (hid, rh) = &hs[which];
                read(h, *hid, rh, op);
                which = (which + 1) % hs.len();
            }
        }
    }
}

fn writer_body(h: &Hist, w: WH, prog: &[W]) {
    let mut w = Some(w);
    for op in prog {
        here();
        let wr = match w.as_mut() {
            Some(w) => w,
            None => break,
        };
        match op {
            W::Ins(k, v) => {
                h.log(json!({"e": "op", "t": "ins", "k": k, "v": v}));
                wr.insert(*k, Val::new(vec![*v]));
            }
            W::Upd(k, v) => {
                let v = *v;
                h.log(json!({"e": "op", "t": "upd", "k": k, "v": v}));
                wr.update(*k, move |x: &mut Val| x.push(v));
            }
            W::Rem(k) => {
                h.log(json!({"e": "op", "t": "rem", "k": k, "v": 0}));
                wr.remove(*k);
            }
            W::Pur => {
                h.log(json!({"e": "op", "t": "pur", "k": 0, "v": 0}));
                wr.purge();
            }
            W::Meta(m) => {
                h.log(json!({"e": "op", "t": "meta", "k": 0, "v": m}));
                wr.set_meta(Meta(*m, *m));
            }
            W::Extend(kv) => {
                for (k, v) in kv {
                    h.log(json!({"e": "op", "t": "ins", "k": k, "v": v}));
                }
                wr.extend(kv.iter().map(|(k, v)| (*k, Val::new(vec![*v]))));
            }
            W::Refresh => {
                h.log(json!({"e": "rfb", "f": false}));
                wr.refresh();
                h.log(json!({"e": "rfe"}));
            }
            W::Flush => {
                h.log(json!({"e": "rfb", "f": true}));
                wr.flush();
                h.log(json!({"e": "rfe"}));
            }
            // the writer's own read handle
            W::Read(r) => read(h, 0, &**wr, r),
            W::Drop => {
                h.log(json!({"e": "drb"}));
                w = None;
                h.log(json!({"e": "dre"}));
            }
        }
    }
    if let Some(w) = w.take() {
        h.log(json!({"e": "drb"}));
        drop(w);
        h.log(json!({"e": "dre"}));
    }
}

pub struct Outcome {
    pub rec: Value,
    pub log: Option<Vec<(usize, usize, usize)>>,
}

pub fn execute(id: &str, p: &Prog, strategy: Strategy, seed: u64, buffering: bool) -> Outcome {
    LIVE.store(0, Ordering::SeqCst);
    DOUBLE.store(0, Ordering::SeqCst);
    let h = Arc::new(Hist {
        ev: Mutex::new(vec![]),
        reads: AtomicUsize::new(1),
        handles: AtomicUsize::new(1 + p.readers.len()),
    });
    // every way to make a map makes the same empty map
    let way = p.readers.len() + p.writer.len();
    let (rh, w): (RH, WH) = match way % 4 {
        0 | 1 => monomap::with_meta(Meta(-1, -1)),
        2 => monomap::MonoOptions::default().with_capacity(way % 3 * 7).with_meta(Meta(-1, -1)).construct(),
        _ => monomap::with_hasher(Meta(-1, -1), Default::default()),
    };
    let mut bodies: Vec<Box<dyn FnOnce() + Send>> = vec![];
    for (i, rp) in p.readers.iter().enumerate() {
        let hh = h.clone();
        let handle = rh.clone();
        let rp = rp.clone();
        bodies.push(Box::new(move || reader_body(&hh, i + 1, handle, &rp)));
    }
    drop(rh);
    let hh = h.clone();
    let wp = p.writer.clone();
    bodies.push(Box::new(move || writer_body(&hh, w, &wp)));
    let log = sched::run(strategy, seed, buffering, 60_000, bodies);
    let ev = h.ev.lock().unwrap().clone();
    let rec = json!({
        "id": id, "prog": format!("{:?}", p), "seed": seed, "ev": ev,
        "stuck": log.is_none() || sched::panicked(), "live": LIVE.load(Ordering::SeqCst), "double": DOUBLE.load(Ordering::SeqCst),
    });
    let log = if sched::panicked() { None } else { log };
    Outcome { rec, log }
}

fn rand_read(rng: &mut SmallRng, kind: &str) -> R {
    let k = rng.gen_range(0..3);
    let heavy = kind == "hold";
    match rng.gen_range(0..if heavy { 22 } else { 15 }) {
        0..=2 => R::Get(k),
        3 | 4 => R::Snap,
        5 => R::Each,
        6 => R::MetaGet(k),
        7 => R::Len,
        8 => R::Contains(k),
        9 => R::Meta,
        10 => R::Gone,
        11 => R::Empty,
        12 => R::CloneHandle,
        13 => R::Factory,
        14 => R::DropHandle,
        15 | 16 => R::Nested(k, rng.gen_range(0..3)),
        17 => R::NestedSnap(k),
        18 | 19 => R::Deep(k, rng.gen_range(2..6)),
        _ => R::Panic(k),
    }
}

pub fn rand_prog(rng: &mut SmallRng, kind: &str, next: &mut i64) -> Prog {
    let nr = match kind {
        "ops" => rng.gen_range(0..2),
        _ => rng.gen_range(1..4),
    };
    let len = match kind {
        "ops" => rng.gen_range(5..30),
        _ => rng.gen_range(4..14),
    };
    let mut writer = vec![];
    let mut val = || {
        *next += 1;
        *next
    };
    for _ in 0..len {
        let k = rng.gen_range(0..3);
        writer.push(match rng.gen_range(0..22) {
            0..=4 => W::Ins(k, val()),
            5..=8 => W::Upd(k, val()),
            9 | 10 => W::Rem(k),
            11 => W::Pur,
            12 | 13 => W::Meta(val()),
            14..=18 => W::Refresh,
            19 => W::Flush,
            20 => W::Read(match rng.gen_range(0..3) {
                0 => R::Snap,
                1 => R::MetaGet(k),
                _ => R::Get(k),
            }),
            _ => W::Extend(vec![(k, val()), ((k + 1) % 3, val())]),
        });
        if kind == "ops" {
            if let Some(W::Refresh) = writer.last() {
                writer.push(W::Read(R::Snap));
                writer.push(W::Read(R::MetaGet(k)));
            }
        }
    }
    if rng.gen_bool(0.3) {
        writer.push(W::Drop);
    }
    let readers = (0..nr)
        .map(|_| (0..rng.gen_range(1..7)).map(|_| rand_read(rng, kind)).collect())
        .collect();
    Prog { writer, readers }
}

/// Programs with a crowd of readers.
fn crowd_prog(rng: &mut SmallRng, kind: &str, next: &mut i64) -> Prog {
    let mut p = rand_prog(rng, kind, next);
    let nr = rng.gen_range(6..24);
    p.readers = (0..nr)
        .map(|_| (0..rng.gen_range(1..4)).map(|_| rand_read(rng, kind)).collect())
        .collect();
    p
}

/// Programs with hundreds of refreshes, and readers that keep reading the same map.
fn refresh_prog(rng: &mut SmallRng, kind: &str, next: &mut i64) -> Prog {
    let mut writer = vec![];
    let n = if kind == "ops" { rng.gen_range(250..600) } else { rng.gen_range(30..90) };
    for i in 0..n {
        *next += 1;
        let k = rng.gen_range(0..3);
        match rng.gen_range(0..6) {
            0 => writer.push(W::Ins(k, *next)),
            1 => writer.push(W::Upd(k, *next)),
            2 => writer.push(W::Rem(k)),
            3 => writer.push(W::Meta(*next)),
            _ => (),
        }
        writer.push(W::Refresh);
        if i % 5 == 0 || i > n - 4 {
            writer.push(W::Read(R::Snap));
        }
    }
    let readers = (0..if kind == "ops" { 0 } else { rng.gen_range(1..3) })
        .map(|_| (0..rng.gen_range(20..60)).map(|_| rand_read(rng, kind)).collect())
        .collect();
    Prog { writer, readers }
}

/// Programs with many operations, over many keys, between one refresh and the next.
fn long_prog(rng: &mut SmallRng, next: &mut i64) -> Prog {
    let keys = rng.gen_range(2..60);
    let mut writer = vec![];
    let mut val = || {
        *next += 1;
        *next
    };
    for _ in 0..rng.gen_range(2..5) {
        let batch = if rng.gen_bool(0.1) { rng.gen_range(520..1400) } else { rng.gen_range(0..180) };
        for _ in 0..batch {
            let k = rng.gen_range(0..keys);
            writer.push(match rng.gen_range(0..60) {
                0..=24 => W::Ins(k, val()),
                25..=44 => W::Upd(k, val()),
                45..=52 => W::Rem(k),
                53 => W::Pur,
                54..=56 => W::Meta(val()),
                _ => W::Extend((0..rng.gen_range(0..9)).map(|i| ((k + i * 5) % keys, val())).collect()),
            });
        }
        writer.push(if rng.gen_bool(0.2) { W::Flush } else { W::Refresh });
        writer.push(W::Read(R::Snap));
        writer.push(W::Read(R::Len));
        writer.push(W::Read(R::MetaGet(rng.gen_range(0..keys))));
        if rng.gen_bool(0.4) {
            writer.push(W::Refresh);
            writer.push(W::Read(R::Snap));
        }
    }
    Prog { writer, readers: vec![] }
}

/// Small programs whose schedules are enumerated up to a number of preemptions.
fn small_programs(kind: &str) -> Vec<(&'static str, Prog)> {
    let p = |writer: Vec<W>, readers: Vec<Vec<R>>| Prog { writer, readers };
    let mut v = vec![
        ("two-refreshes", p(
            vec![W::Ins(0, 1), W::Refresh, W::Upd(0, 2), W::Refresh, W::Upd(0, 3), W::Refresh],
            vec![vec![R::Get(0), R::Get(0)]],
        )),
        ("drop", p(vec![W::Ins(0, 1), W::Refresh], vec![vec![R::Get(0)]])),
        ("drop-pending", p(vec![W::Ins(0, 1), W::Refresh, W::Upd(0, 2)], vec![vec![R::Get(0), R::Gone]])),
        ("late-handle", p(
            vec![W::Ins(0, 1), W::Refresh, W::Ins(0, 2), W::Refresh],
            vec![vec![R::CloneHandle, R::Get(0)]],
        )),
    ];
    if kind == "hold" {
        v.push(("nested", p(
            vec![W::Ins(0, 1), W::Refresh, W::Refresh, W::Upd(0, 2), W::Refresh, W::Upd(0, 3), W::Refresh],
            vec![vec![R::Nested(0, 0)]],
        )));
        v.push(("panic", p(
            vec![W::Ins(0, 1), W::Refresh, W::Upd(0, 2), W::Refresh],
            vec![vec![R::Panic(0), R::Get(0)]],
        )));
        v.push(("nested-drop", p(vec![W::Ins(0, 1), W::Refresh], vec![vec![R::Nested(0, 0)]])));
    }
    v
}

/// Depth first over the choices of the scheduler, at most `bound` preemptions, at most `max` runs.
fn enumerate(out: &mut Out, name: &str, p: &Prog, bound: usize, max: usize, buffering: bool) -> bool {
    // schedules that show the clients the same history need to be judged only once
    let mut seen: HashSet<String> = HashSet::new();
    let mut stack: Vec<Vec<usize>> = vec![vec![]];
    let mut runs = 0;
    while let Some(prefix) = stack.pop() {
        if runs >= max {
            eprintln!("{}: stopped at {} schedules", name, runs);
            return true;
        }
        runs += 1;
        let id = format!("dfs-{}-{}", name, runs);
        if runs % 50 == 1 {
            out.begin(&json!({"id": id, "prog": format!("{:?}", p), "choices": prefix}));
        }
        let o = execute(&id, p, Strategy::Replay { choices: prefix.clone() }, 1, buffering);
        if seen.insert(o.rec["ev"].to_string()) || o.rec["stuck"] == json!(true) || o.rec["live"] != json!(0) {
            out.emit(&o.rec);
        }
        let log = match o.log {
            Some(l) => l,
            None => return false,
        };
        // alternatives after the prefix
        let pre = |upto: usize| {
            log[..upto]
                .iter()
                .filter(|(_, c, cur)| *cur != usize::MAX && c != cur)
                .count()
        };
        for i in (prefix.len()..log.len()).rev() {
            let (n, c, cur) = log[i];
            if n < 2 {
                continue;
            }
            for alt in 0..n {
                if alt == c {
                    continue;
                }
                let cost = if cur != usize::MAX && alt != cur { 1 } else { 0 };
                if pre(i) + cost <= bound {
                    let mut ch: Vec<usize> = log[..i].iter().map(|x| x.1).collect();
                    ch.push(alt);
                    stack.push(ch);
                }
            }
        }
    }
    eprintln!("{}: all {} schedules with at most {} preemptions, {} histories", name, runs, bound, seen.len());
    true
}

/// kind: "snap" (readers overlapping refreshes), "hold" (long, nested and panicking reads), "ops" (op sequences)
pub fn run(a: &Args, kind: &str) {
    let mut out = Out::new(a, "trace");
    let mut rng = a.rng(match kind { "snap" => 301, "hold" => 302, _ => 303 });
    let mut next = 0i64;
    if kind != "ops" {
        for (name, p) in small_programs(kind) {
            if !enumerate(&mut out, name, &p, a.pick(2, 3), a.pick(6000, 60000), false) {
                return;
            }
        }
    }
    let n = match kind {
        "ops" => a.pick(4000, 40000),
        _ => a.pick(5000, 80000),
    };
    for i in 0..n {
        let p = if kind == "ops" && i % 40 == 39 {
            long_prog(&mut rng, &mut next)
        } else if i % 100 == 57 {
            refresh_prog(&mut rng, kind, &mut next)
        } else if kind != "ops" && i % 25 == 13 {
            crowd_prog(&mut rng, kind, &mut next)
        } else {
            rand_prog(&mut rng, kind, &mut next)
        };
        let id = format!("{}-{}", kind, i);
        let seed = rng.gen_range(0..1 << 40);
        let strategy = match rng.gen_range(0..4) {
            0 => Strategy::Random { switch: 50 },
            1 => Strategy::Random { switch: 10 },
            2 => Strategy::Priority { every: 40 },
            _ => Strategy::Priority { every: 12 },
        };
        out.begin(&json!({"id": id, "prog": format!("{:?}", p), "seed": seed}));
        let o = execute(&id, &p, strategy, seed, rng.gen_bool(0.5));
        out.emit(&o.rec);
        if o.log.is_none() {
            return;
        }
    }
}

/// Replays the behaviours of the specification, looking at the map after every step.
pub fn replay(a: &Args) {
    let mut out = Out::new(a, "trace");
    for (i, prog) in a.programs().iter().enumerate() {
        let mut writer = vec![];
        for s in prog[0].as_array().unwrap() {
            let (k, v) = (s[1].as_u64().unwrap() as usize, s[2].as_i64().unwrap());
            writer.push(match s[0].as_str().unwrap() {
                "ins" => W::Ins(k, v),
                "upd" => W::Upd(k, v),
                "rem" => W::Rem(k),
                "pur" => W::Pur,
                "meta" => W::Meta(v),
                "flush" => W::Flush,
                _ => W::Refresh,
            });
            writer.push(W::Read(R::Snap));
        }
        writer.extend(vec![W::Read(R::MetaGet(1)), W::Refresh, W::Read(R::Each), W::Read(R::MetaGet(1)), W::Read(R::Get(2)), W::Read(R::Len)]);
        // the refresh after makes both copies the same
        writer.extend(vec![W::Refresh, W::Read(R::Snap), W::Read(R::Meta)]);
        let p = Prog { writer, readers: vec![] };
        let id = format!("gen-{}", i);
        out.begin(&json!({"id": id, "prog": format!("{:?}", p)}));
        let o = execute(&id, &p, Strategy::Random { switch: 10 }, i as u64, false);
        out.emit(&o.rec);
        if o.log.is_none() {
            return;
        }
    }
}
