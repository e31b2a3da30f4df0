//! Plugins on real trees: what each node carries after any sequence of attachments, and what readers see meanwhile.
use crate::cases::*;
use crate::sched::{self, here, Strategy};
use crate::tree::{medium_problems, problems};
use crate::util::*;
use goko::node::CoverNode;
use goko::plugins::discrete::prelude::*;
use goko::plugins::gaussians::*;
use goko::plugins::utils::*;
use goko::plugins::*;
use goko::utils::{load_tree, save_tree};
use goko::*;
use pointcloud::pc_errors::*;
use pointcloud::data_sources::*;
use pointcloud::label_sources::*;
use pointcloud::summaries::*;
use pointcloud::*;
use rand::rngs::SmallRng;
use rand::Rng;
use serde_json::{json, Value};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};

// ---------------------------------------------------------------- a cloud with labels and meta data

pub struct Rich<L> {
    data: DataRam<L2>,
    labels: L,
    meta: Vec<Option<i64>>,
    broken: Vec<bool>,
}
impl<L: LabelSet + Send + Sync + 'static> PointCloud for Rich<L> {
    type Point = [f32];
    type PointRef<'a> = &'a [f32];
    type Metric = L2;
    type Label = L::Label;
    type LabelSummary = L::LabelSummary;
    type Metadata = i64;
    type MetaSummary = IntSummary;
    fn metadata(&self, pn: usize) -> PointCloudResult<Option<&i64>> {
        let pn = near(pn);
        if self.broken[pn] {
            Err(PointCloudError::UnknownName)
        } else {
            Ok(self.meta[pn].as_ref())
        }
    }
    fn metasummary(&self, pns: &[usize]) -> PointCloudResult<SummaryCounter<IntSummary>> {
        let mut s = SummaryCounter::<IntSummary>::default();
        for i in pns {
            s.add(self.metadata(*i));
        }
        Ok(s)
    }
    fn label(&self, pn: usize) -> PointCloudResult<Option<&L::Label>> {
        self.labels.label(near(pn))
    }
    fn label_summary(&self, pns: &[usize]) -> PointCloudResult<SummaryCounter<L::LabelSummary>> {
        self.labels.label_summary(&pns.iter().map(|i| near(*i)).collect::<Vec<_>>())
    }
    fn name(&self, pi: usize) -> PointCloudResult<String> {
        self.data.name(near(pi))
    }
    fn index(&self, pn: &str) -> PointCloudResult<usize> {
        self.data.index(pn).map(far)
    }
    fn names(&self) -> Vec<String> {
        self.data.names()
    }
    fn len(&self) -> usize {
        self.data.len()
    }
    fn is_empty(&self) -> bool {
        self.data.is_empty()
    }
    fn dim(&self) -> usize {
        self.data.dim()
    }
    fn reference_indexes(&self) -> Vec<usize> {
        self.data.reference_indexes().into_iter().map(far).collect()
    }
    fn point<'a, 'b: 'a>(&'b self, i: usize) -> PointCloudResult<&'a [f32]> {
        self.data.point(near(i))
    }
}

fn whole(x: f32) -> i64 {
    if x.is_finite() && x.fract() == 0.0 && x.abs() < 1e9 {
        x as i64
    } else {
        -999_999_999
    }
}
fn wholes(v: &[f32], scale: f32) -> Vec<i64> {
    v.iter().map(|x| whole(x * scale)).collect()
}
trait ShowLab: LabelSet {
    fn show(s: &SummaryCounter<Self::LabelSummary>) -> Value;
}
impl ShowLab for SmallIntLabels {
    fn show(s: &SummaryCounter<CategorySummary>) -> Value {
        let mut items: Vec<(i64, usize)> = s.summary.items.iter().cloned().collect();
        items.sort_unstable();
        json!({"items": items, "nones": s.nones, "errors": s.errors, "count": s.count()})
    }
}
impl ShowLab for VecLabels {
    fn show(s: &SummaryCounter<VecSummary>) -> Value {
        json!({"m1": wholes(&s.summary.moment1, 1.0), "m2": wholes(&s.summary.moment2, 1.0), "n": s.summary.count, "nones": s.nones, "errors": s.errors, "count": s.count()})
    }
}
fn opt<T: serde::Serialize>(v: Option<T>) -> Value {
    match v {
        Some(x) => json!([x]),
        None => json!([]),
    }
}

/// The counts behind a probability vector and its total.
fn counts(pv: Option<(Vec<(NodeAddress, f64)>, f64)>, total: f64) -> Value {
    let n = |x: f64| (x * total).round() as i64;
    match pv {
        None => json!({"kids": [], "sing": 0, "total": total.round() as i64}),
        Some((v, s)) => json!({
            "kids": v.iter().map(|((a, b), x)| json!([a, near(*b), n(*x)])).collect::<Vec<_>>(),
            "sing": n(s), "total": total.round() as i64,
        }),
    }
}

fn view<L: ShowLab + Send + Sync + 'static>(r: &CoverTreeReader<Rich<L>>, q: f32) -> Value
where
    L::LabelSummary: Clone,
{
    let mut nodes = vec![];
    for (si, layer) in r.layers() {
        let mut keys: Vec<usize> = layer.map_nodes(|k, _| *k);
        keys.sort_unstable();
        for k in keys {
            let a = (si, k);
            // by way of the tree or of its layer
            let (cat, dir) = if k % 2 == 0 {
                (
                    r.get_node_plugin_and::<Categorical, _, _>(a, |p| counts(p.prob_vector(), p.total())),
                    r.get_node_plugin_and::<Dirichlet, _, _>(a, |p| counts(p.prob_vector(), p.total())),
                )
            } else {
                (
                    layer.get_node_plugin_and::<Categorical, _, _>(k, |p| counts(p.prob_vector(), p.total())),
                    layer.get_node_plugin_and::<Dirichlet, _, _>(k, |p| counts(p.prob_vector(), p.total())),
                )
            };
            nodes.push(json!({
                "s": si, "i": near(k),
                "cat": opt(cat),
                "dir": opt(dir),
                "idx": opt(r.get_node_plugin_and::<CoverageIndexes, _, _>(a, |p| p.point_indexes().iter().map(|i| near(*i)).collect::<Vec<_>>())),
                "gauss": opt(r.get_node_plugin_and::<DiagGaussian, _, _>(a, |p| json!({"n": p.count, "m1": wholes(&p.moment1, q), "m2": wholes(&p.moment2, q * q)}))),
                "lab": opt(r.get_node_label_summary(a).map(|s| L::show(&s))),
                "meta": opt(r.get_node_metasummary(a).map(|s| json!({"m1": [s.summary.moment1], "m2": [s.summary.moment2], "n": s.summary.count, "nones": s.nones, "errors": s.errors, "count": s.count()}))),
            }));
        }
    }
    json!(nodes)
}

fn slim(d: &Value) -> Value {
    json!(d["nodes"].as_array().unwrap().iter().map(|n| json!({"s": n["s"], "i": n["i"], "nest": n["nest"], "kids": n["kids"], "sing": n["sing"]})).collect::<Vec<_>>())
}

fn attach_all<L: ShowLab + Send + Sync + 'static>(a: &Args, p: &Problem, cloud: Rich<L>, rng: &mut SmallRng, exact: bool) -> GokoResult<Value>
where
    L::LabelSummary: Clone,
{
    let cloud = Arc::new(cloud);
    let mut tree = p.builder(a).build(cloud.clone())?;
    let d = dump(&tree.reader(), p);
    let many = d["nodes"].as_array().unwrap().len() > 14;
    let mut old = tree.reader();
    let mut ops: Vec<Value> = vec![];
    let n = p.pts.len();
    let len = rng.gen_range(1..6);
    for k in 0..len {
        let mut rec = match rng.gen_range(0..8) {
            0 => {
                tree.add_plugin(GokoCategorical {});
                json!({"op": "cat"})
            }
            1 => {
                tree.add_plugin(GokoDirichlet::default());
                json!({"op": "dir"})
            }
            2 | 3 => {
                let max = if rng.gen_bool(0.3) { 1_000_000 } else { rng.gen_range(0..n + 3) };
                tree.add_plugin(if max == 1_000_000 { GokoCoverageIndexes::new() } else { GokoCoverageIndexes::restricted(max) });
                json!({"op": "idx", "max": max})
            }
            4 if exact => {
                let rec = rng.gen_bool(0.7);
                tree.add_plugin(if rec { GokoDiagGaussian::recursive() } else { GokoDiagGaussian::singletons() });
                json!({"op": "gauss", "rec": rec})
            }
            5 => {
                tree.generate_summaries();
                json!({"op": "lab"})
            }
            6 => {
                tree.generate_meta_summaries();
                json!({"op": "meta"})
            }
            7 if rng.gen_bool(0.3) => {
                let f = a.scratch("plug.tre");
                let _ = std::fs::remove_file(&f);
                save_tree(&f, &tree)?;
                tree = load_tree(&f, cloud.clone())?;
                old = tree.reader();
                json!({"op": "reload"})
            }
            _ => {
                tree.add_plugin(GokoDirichlet::default());
                json!({"op": "dir"})
            }
        };
        if rng.gen_bool(0.2) {
            tree.refresh();
        }
        rec["now"] = if !many || k + 1 == len {
            let r = if rng.gen_bool(0.5) { old.clone() } else { tree.reader() };
            view(if rng.gen_bool(0.5) { &old } else { &r }, p.q as f32)
        } else {
            json!([])
        };
        ops.push(rec);
    }
    let r = tree.reader();
    Ok(json!({"nodes": slim(&d), "after": slim(&dump(&r, p)), "root": d["root"], "ops": ops}))
}

fn gauss_program(rng: &mut SmallRng) -> Value {
    let dim = rng.gen_range(1..4usize);
    let mut g: Vec<DiagGaussian> = (0..3).map(|_| DiagGaussian::new(dim)).collect();
    let mut bags: Vec<Vec<Vec<i64>>> = vec![vec![]; 3];
    let mut ops = vec![];
    for _ in 0..rng.gen_range(1..12) {
        let d = rng.gen_range(0..3usize);
        let (op, x, s) = match rng.gen_range(0..6) {
            0 | 1 | 2 => {
                let x: Vec<i64> = (0..dim).map(|_| rng.gen_range(-9..10)).collect();
                let f: Vec<f32> = x.iter().map(|v| *v as f32).collect();
                let r: &[f32] = &f;
                g[d].add_point(&r);
                bags[d].push(x.clone());
                ("add", x, 0)
            }
            _ if bags.iter().map(|b| b.len()).sum::<usize>() > 60 => {
                g[d] = DiagGaussian::new(dim);
                bags[d].clear();
                ("new", vec![], 0)
            }
            3 | 4 if !bags[d].is_empty() => {
                let j = rng.gen_range(0..bags[d].len());
                let x = bags[d].remove(j);
                let f: Vec<f32> = x.iter().map(|v| *v as f32).collect();
                let r: &[f32] = &f;
                g[d].remove_point(&r);
                ("rem", x, 0)
            }
            _ => {
                let s = rng.gen_range(0..3usize);
                let o = g[s].clone();
                g[d].merge(&o);
                let b = bags[s].clone();
                bags[d].extend(b);
                ("merge", vec![], s)
            }
        };
        let now: Vec<Value> = g
            .iter()
            .map(|g| {
                let c = g.count() as f32;
                json!({"n": g.count(), "m1": wholes(&g.moment1, 1.0), "m2": wholes(&g.moment2, 1.0), "dim": g.dim(),
                    "mean": g.mean().iter().map(|x| (x * c).round() as i64).collect::<Vec<_>>(),
                    "var": g.var().iter().map(|x| (x * c * c).round() as i64).collect::<Vec<_>>()})
            })
            .collect();
        ops.push(json!({"op": op, "d": d, "x": x, "s": s, "now": now}));
    }
    json!({"dim": dim, "ops": ops})
}

fn finish(rec: &mut Value, r: Result<GokoResult<Value>, String>) {
    match r {
        Ok(Ok(v)) => {
            for (k, x) in v.as_object().unwrap() {
                rec[k] = x.clone();
            }
            rec["ok"] = json!(true);
        }
        Ok(Err(e)) => {
            rec["ok"] = json!(false);
            rec["why"] = json!(format!("{:?}", e));
        }
        Err(m) => {
            rec["ok"] = json!(false);
            rec["why"] = json!(m);
        }
    }
}

pub fn run(a: &Args) {
    let mut out = Out::new(a, "trace");
    let mut rng = a.rng(120);
    let mut ps = problems(a, 121, a.pick((3, 2, 1), (4, 3, 1)), a.pick(250, 2500), a.pick(30, 60));
    ps.extend(medium_problems(a, 122, a.pick(16, 150)));
    for (k, p) in ps.iter().enumerate() {
        let n = p.pts.len();
        // every fourth cloud has indexes that are not its row numbers
        let (start, step) = if k % 4 == 2 { spreads(k / 4) } else { (0, 1) };
        spread(start, step);
        let meta: Vec<Option<i64>> = (0..n).map(|_| if rng.gen_bool(0.8) { Some(rng.gen_range(-5..9)) } else { None }).collect();
        let broken: Vec<bool> = (0..n).map(|_| rng.gen_bool(0.05)).collect();
        let mask: Option<Vec<bool>> = if rng.gen_bool(0.5) { Some((0..n).map(|_| rng.gen_bool(0.7)).collect()) } else { None };
        let vis = |i: usize| mask.as_ref().map(|m| m[i]).unwrap_or(true);
        let m2: i64 = (0..p.dim).map(|d| p.pts.iter().map(|x| x[d] * x[d]).sum::<i64>()).max().unwrap();
        let vec = k % 3 == 0;
        let ldim = rng.gen_range(1..3usize);
        let vl: Vec<Vec<i64>> = (0..n).map(|i| if vec { (0..ldim).map(|_| rng.gen_range(-4..5)).collect() } else { vec![p.labels[i]] }).collect();
        let labs: Vec<Vec<Vec<i64>>> = (0..n).map(|i| if vis(i) { vec![vl[i].clone()] } else { vec![] }).collect();
        let mut rec = json!({"id": p.id, "kind": "plug", "pts": p.pts, "dim": p.dim, "vec": vec, "labs": labs,
            "meta": meta.iter().enumerate().map(|(i, m)| if broken[i] { json!("broken") } else { opt(m.map(|x| vec![x])) }).map(|v| if v == json!("broken") { json!([[0, 0, 0, 0, 0, 0]]) } else { v }).collect::<Vec<_>>(),
            "params": format!("{:?}", p)});
        out.begin(&rec);
        let exact = m2 < 1 << 23;
        let data = DataRam::new(p.data(), p.dim).unwrap();
        let rng = &mut rng;
        let r = guard(|| {
            if vec {
                let labels = VecLabels::new(vl.iter().flatten().map(|x| *x as f32).collect(), ldim, mask.clone());
                attach_all(a, p, Rich { data, labels, meta: meta.clone(), broken: broken.clone() }, rng, exact)
            } else {
                let labels = SmallIntLabels::new(p.labels.clone(), mask.clone());
                attach_all(a, p, Rich { data, labels, meta: meta.clone(), broken: broken.clone() }, rng, exact)
            }
        });
        finish(&mut rec, r);
        out.emit(&rec);
    }
    spread(0, 1);
    for k in 0..a.pick(150, 2000) {
        let mut rec = json!({"id": format!("gauss-{}", k), "kind": "gauss"});
        out.begin(&rec);
        let rng = &mut rng;
        let r = guard(|| Ok(gauss_program(rng)));
        finish(&mut rec, r);
        out.emit(&rec);
    }
}

// ---------------------------------------------------------------- attaching while others read

/// What a probe leaves on a node: which attachment it came from, the points it counted through its children, and
/// the attachment its children carried when it was computed.
#[derive(Debug, Clone)]
struct Mark<const P: usize> {
    ver: usize,
    count: usize,
    below: Vec<usize>,
}
impl<D: PointCloud, const P: usize> NodePlugin<D> for Mark<P> {}
#[derive(Debug, Clone)]
struct Probe<const P: usize> {
    ver: usize,
    /// nodes whose centre is not a multiple carry nothing (1: all do)
    every: usize,
}
impl<D: PointCloud, const P: usize> GokoPlugin<D> for Probe<P> {
    type NodeComponent = Mark<P>;
    fn node_component(par: &Self, n: &CoverNode<D>, t: &CoverTreeReader<D>) -> Option<Mark<P>> {
        if n.center_index() % par.every != 0 {
            return None;
        }
        let mut below = vec![];
        let mut count = n.singletons_len();
        match n.children() {
            None => count += 1,
            Some((ns, kids)) => {
                let mut all = vec![(ns, *n.center_index())];
                all.extend(kids.iter());
                for c in all {
                    if c.1 % par.every == 0 {
                        let m = t.get_node_plugin_and::<Mark<P>, _, _>(c, |m| (m.ver, m.count));
                        below.push(m.map(|m| m.0).unwrap_or(0));
                        count += m.map(|m| m.1).unwrap_or(0);
                    } else {
                        count += t.get_node_and(c, |n| n.coverage_count()).unwrap();
                    }
                }
            }
        }
        Some(Mark { ver: par.ver, count, below })
    }
}
fn marks<D: PointCloud>(n: &CoverNode<D>) -> Value {
    let m0 = n.get_plugin_and::<Mark<0>, _, _>(|m| json!([m.ver, m.count, m.below])).unwrap_or(json!([]));
    let m1 = n.get_plugin_and::<Mark<1>, _, _>(|m| json!([m.ver, m.count, m.below])).unwrap_or(json!([]));
    let m2 = n.get_plugin_and::<Mark<2>, _, _>(|m| json!([m.ver, m.count, m.below])).unwrap_or(json!([]));
    json!([m0, m1, m2])
}

#[derive(Clone, Debug)]
enum Op {
    Node(usize),
    Held(usize),
    Layer(usize),
    Knn(usize, usize),
    Path(usize),
    Tree,
    NewReader,
}

struct Log {
    ev: Mutex<Vec<Value>>,
    ids: AtomicUsize,
}
impl Log {
    fn put(&self, v: Value) {
        self.ev.lock().unwrap().push(v);
    }
}

fn answer(r: &CoverTreeReader<Cloud>, p: &Problem, q: usize, k: Option<usize>) -> Value {
    let x = p.coords(&p.pts[q]);
    let px: &[f32] = &x;
    match k {
        Some(k) => json!(r.knn(&px, k).map(|v| v.iter().map(|(d, _)| as_sq(*d, p.q)).collect::<Vec<_>>()).unwrap_or_default()),
        None => json!(r.path(&px).map(|v| v.iter().map(|x| x.1).collect::<Vec<_>>()).unwrap_or_default()),
    }
}
fn tree_plugins(r: &CoverTreeReader<Cloud>) -> Value {
    json!([
        r.get_plugin_and::<Probe<0>, _, _>(|p| p.ver).unwrap_or(0),
        r.get_plugin_and::<Probe<1>, _, _>(|p| p.ver).unwrap_or(0),
        r.get_plugin_and::<Probe<2>, _, _>(|p| p.ver).unwrap_or(0)
    ])
}

fn reader_body(log: &Log, p: &Problem, addrs: &[NodeAddress], mut r: CoverTreeReader<Cloud>, ops: &[Op]) {
    for op in ops {
        let id = log.ids.fetch_add(1, Ordering::SeqCst);
        log.put(json!({"e": "b", "r": id}));
        let seen = match op {
            Op::Node(k) => {
                let a = addrs[k % addrs.len()];
                let m = r.get_node_and(a, |n| marks(n));
                json!({"t": "nodes", "v": m.map(|m| vec![json!([[a.0, a.1], m])]).unwrap_or_default(), "n": 1})
            }
            Op::Held(k) => {
                let a = addrs[k % addrs.len()];
                let m = r.get_node_and(a, |n| {
                    let m = marks(n);
                    for _ in 0..3 {
                        here();
                    }
                    (m, marks(n))
                });
                json!({"t": "nodes", "v": m.map(|(m, m2)| vec![json!([[a.0, a.1], m]), json!([[a.0, a.1], m2])]).unwrap_or_default(), "n": 2})
            }
            Op::Layer(k) => {
                let a = addrs[k % addrs.len()];
                let mut v: Vec<Value> = vec![];
                let l = r.layer(a.0);
                l.for_each_node(|i, n| {
                    v.push(json!([[a.0, *i], marks(n)]));
                    here();
                });
                let n = addrs.iter().filter(|x| x.0 == a.0).count();
                json!({"t": "nodes", "v": v, "n": n})
            }
            Op::Knn(q, k) => json!({"t": "ans", "v": answer(&r, p, *q, Some(*k)), "q": q, "k": k}),
            Op::Path(q) => json!({"t": "ans", "v": answer(&r, p, *q, None), "q": q, "k": -1}),
            Op::Tree => json!({"t": "tree", "v": tree_plugins(&r)}),
            Op::NewReader => {
                r = r.clone();
                json!({"t": "none"})
            }
        };
        log.put(json!({"e": "e", "r": id, "seen": seen}));
        here();
    }
}

pub fn publish(a: &Args) {
    let mut out = Out::new(a, "trace");
    let mut rng = a.rng(130);
    let total = a.pick(2500, 30000);
    let mut k = 0;
    while k < total {
        // now and then many layers and nodes, or many readers
        let tall = k % 50 == 20;
        let crowd = k % 50 == 40;
        let mut p = random_problem(&mut rng, format!("pub-{}", k), if tall { 25 } else { 7 });
        p.minres = if tall { rng.gen_range(-90..0) } else { rng.gen_range(-1..2) };
        p.base = if tall { [1.1, 1.3, 2.0][k / 50 % 3] } else { 2.0 };
        for x in p.pts.iter_mut() {
            for c in x.iter_mut() {
                *c %= 12;
            }
        }
        p.q = 1;
        let mut w = match guard(|| p.builder(a).build(p.cloud())) {
            Ok(Ok(w)) => w,
            _ => continue,
        };
        let d = dump(&w.reader(), &p);
        let addrs: Vec<NodeAddress> = d["nodes"].as_array().unwrap().iter().map(|n| (n["s"].as_i64().unwrap() as i32, n["i"].as_u64().unwrap() as usize)).collect();
        if addrs.len() > if tall { 150 } else { 10 } || (addrs.len() < if tall { 15 } else { 2 } && rng.gen_bool(0.8)) {
            continue;
        }
        k += 1;
        let n = p.pts.len();
        let attach: Vec<(usize, usize)> = (0..if tall { rng.gen_range(1..3) } else if crowd { rng.gen_range(3..9) } else { rng.gen_range(1..4) }).map(|_| (rng.gen_range(0..3), *[1usize, 1, 1, 2].get(rng.gen_range(0..4)).unwrap())).collect();
        let programs: Vec<Vec<Op>> = (0..if crowd { rng.gen_range(4..9) } else { rng.gen_range(1..3) })
            .map(|_| {
                (0..if tall || crowd { rng.gen_range(2..5) } else { rng.gen_range(2..9) })
                    .map(|_| match rng.gen_range(0..12) {
                        0..=3 => Op::Node(rng.gen_range(0..100)),
                        4 | 5 => Op::Held(rng.gen_range(0..100)),
                        6..=8 => Op::Layer(rng.gen_range(0..100)),
                        9 => Op::Knn(rng.gen_range(0..n), rng.gen_range(0..=n)),
                        10 => if rng.gen_bool(0.5) { Op::Path(rng.gen_range(0..n)) } else { Op::NewReader },
                        _ => Op::Tree,
                    })
                    .collect()
            })
            .collect();
        let refs: Vec<Value> = (0..n).map(|q| json!({"path": answer(&w.reader(), &p, q, None), "knn": (0..=n).map(|k| answer(&w.reader(), &p, q, Some(k))).collect::<Vec<_>>()})).collect();
        let mut rec = json!({"id": p.id, "nodes": slim(&d), "root": d["root"], "refs": refs, "attach": attach, "programs": format!("{:?}", programs)});
        out.begin(&rec);
        let log = Arc::new(Log { ev: Mutex::new(vec![]), ids: AtomicUsize::new(0) });
        let p = Arc::new(p);
        let addrs = Arc::new(addrs);
        let mut bodies: Vec<Box<dyn FnOnce() + Send>> = vec![];
        // a reader that stays around to the end, and is asked after everything
        let last = Arc::new(Mutex::new(Some(w.reader())));
        for ops in programs {
            let (log, p, addrs, r) = (log.clone(), p.clone(), addrs.clone(), w.reader());
            bodies.push(Box::new(move || reader_body(&log, &p, &addrs, r, &ops)));
        }
        let after = Arc::new(Mutex::new(json!([])));
        // the tree outlives its readers: when it goes, they read nothing any more
        let keep = Arc::new(Mutex::new(None));
        {
            let keep = keep.clone();
            let (log, p, addrs, last, attach, after) = (log.clone(), p.clone(), addrs.clone(), last.clone(), attach.clone(), after.clone());
            bodies.push(Box::new(move || {
                for (j, (which, every)) in attach.iter().enumerate() {
                    let ver = j + 1;
                    log.put(json!({"e": "ab", "p": which, "ver": ver, "every": every}));
                    match which {
                        0 => w.add_plugin(Probe::<0> { ver, every: *every }),
                        1 => w.add_plugin(Probe::<1> { ver, every: *every }),
                        _ => w.add_plugin(Probe::<2> { ver, every: *every }),
                    }
                    log.put(json!({"e": "ae", "p": which, "ver": ver, "every": every}));
                }
                let r = last.lock().unwrap().take().unwrap();
                *after.lock().unwrap() = slim(&dump(&r, &p));
                let ops: Vec<Op> = (0..addrs.len()).map(Op::Node).chain(std::iter::once(Op::Tree)).collect();
                reader_body(&log, &p, &addrs, r, &ops);
                *keep.lock().unwrap() = Some(w);
            }));
        }
        let seed = rng.gen_range(0..1 << 40);
        let strategy = match rng.gen_range(0..4) {
            0 => Strategy::Random { switch: 50 },
            1 => Strategy::Random { switch: 10 },
            2 => Strategy::Priority { every: 60 },
            _ => Strategy::Priority { every: 15 },
        };
        let done = sched::run(strategy, seed, rng.gen_bool(0.5), if tall || crowd { 4_000_000 } else { 400_000 }, bodies);
        rec["ev"] = json!(*log.ev.lock().unwrap());
        rec["after"] = after.lock().unwrap().clone();
        let done = if sched::panicked() { None } else { done };
        rec["stuck"] = json!(done.is_none());
        out.emit(&rec);
        if done.is_none() {
            return;
        }
    }
}
