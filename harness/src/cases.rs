//! Problem instances (point sets on an integer grid, build parameters) and projections of real trees.
use crate::util::*;
use goko::*;
use pointcloud::*;
use rand::rngs::SmallRng;
use rand::Rng;
use serde_json::{json, Value};
use std::sync::Arc;

pub type Cloud = DefaultLabeledCloud<L2>;

#[derive(Clone, Debug)]
pub struct Problem {
    pub id: String,
    pub dim: usize,
    /// grid units per 1.0
    pub q: i64,
    pub pts: Vec<Vec<i64>>,
    pub labels: Vec<i64>,
    pub base: f32,
    pub leaf: usize,
    pub minres: i32,
    pub single: bool,
    pub first: bool,
    pub seed: u64,
}

impl Problem {
    pub fn coords(&self, p: &[i64]) -> Vec<f32> {
        p.iter().map(|x| *x as f32 / self.q as f32).collect()
    }
    pub fn data(&self) -> Vec<f32> {
        self.pts.iter().flat_map(|p| self.coords(p)).collect()
    }
    pub fn cloud(&self) -> Arc<Cloud> {
        Arc::new(Cloud::new_simple(self.data(), self.dim, self.labels.clone()))
    }
    pub fn builder(&self, a: &Args) -> CoverTreeBuilder {
        self.builder_via(a, self.seed % 3 == 0)
    }
    /// A builder whose parameters come from a YAML file, or from the setters. In the file a parameter that has
    /// its default value is sometimes left out, and whole numbers are sometimes written as integers.
    pub fn builder_via(&self, a: &Args, yaml: bool) -> CoverTreeBuilder {
        static N: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
        let k = N.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        let p = a.scratch(&format!("builder-{}-{}.yml", std::process::id(), k));
        let mut text = String::from("---\n");
        let mut r = (self.seed / 3 + self.pts.len() as u64) as u32;
        let mut omit = |default: bool| {
            r = r.wrapping_mul(1664525).wrapping_add(1013904223);
            default && (r >> 16) & 1 == 0
        };
        text += "verbosity: 0\n";
        if !omit(!self.first) {
            text += &format!("partition_type: {}\n", if self.first { "first" } else { "nearest" });
        }
        if yaml {
            if !omit(self.base == 2.0) {
                if self.base.fract() == 0.0 && omit(true) {
                    text += &format!("scale_base: {}\n", self.base as i64);
                } else {
                    text += &format!("scale_base: {:?}\n", self.base);
                }
            }
            if !omit(self.leaf == 1) {
                text += &format!("leaf_cutoff: {}\n", self.leaf);
            }
            if !omit(self.minres == -10) {
                text += &format!("min_res_index: {}\n", self.minres);
            }
            if !omit(self.single) {
                text += &format!("use_singletons: {}\n", self.single);
            }
            text += &format!("rng_seed: {}\n", self.seed);
        }
        std::fs::write(&p, text).unwrap();
        let mut b = CoverTreeBuilder::from_yaml(&p);
        let _ = std::fs::remove_file(&p);
        // every so often a talkative build
        let loud = if self.seed % 23 == 7 && self.pts.len() < 40 { (self.seed / 23 % 3) as u32 + 1 } else { 0 };
        if !yaml && !self.first && self.seed % 5 < 2 {
            // from the defaults (2.0, 1, -10, singletons, nearest), setting only what differs
            b = if self.seed % 5 == 0 { CoverTreeBuilder::new() } else { CoverTreeBuilder::default() };
            if self.base != 2.0 {
                b.set_scale_base(self.base);
            }
            if self.leaf != 1 {
                b.set_leaf_cutoff(self.leaf);
            }
            if self.minres != -10 {
                b.set_min_res_index(self.minres);
            }
            if !self.single {
                b.set_use_singletons(self.single);
            }
            b.set_rng_seed(self.seed);
            if loud > 0 {
                b.set_verbosity(loud);
            }
        } else if !yaml {
            b.set_scale_base(self.base)
                .set_leaf_cutoff(self.leaf)
                .set_min_res_index(self.minres)
                .set_use_singletons(self.single)
                .set_verbosity(loud)
                .set_rng_seed(self.seed);
        }
        b
    }
    pub fn build(&self, a: &Args) -> GokoResult<CoverTreeWriter<Cloud>> {
        self.builder(a).build(self.cloud())
    }
    /// lt[s]: least m with sqrt(m)/q >= base^s; le[s]: least m with sqrt(m)/q > base^s
    pub fn thresholds(&self, smin: i32, smax: i32) -> (Vec<i64>, Vec<i64>) {
        let q = self.q as f64;
        let mut lt = vec![];
        let mut le = vec![];
        for s in smin..=smax {
            let b = self.base.powi(s) as f64 * q;
            let sq = b * b;
            let mut m = (sq.floor() as i64 - 2).max(0);
            while ((m as f64).sqrt() as f32) < b as f32 {
                m += 1;
            }
            lt.push(m);
            let mut e = m;
            while ((e as f64).sqrt() as f32) <= b as f32 {
                e += 1;
            }
            le.push(e);
        }
        (lt, le)
    }
    /// Is every scale comparison at these thresholds decided the same way in f32 and in exact arithmetic?
    pub fn json(&self) -> Value {
        json!({
            "id": self.id, "dim": self.dim, "q": self.q, "n": self.pts.len(), "pts": self.pts,
            "labels": self.labels,
            "base": format!("{}", self.base), "leaf": self.leaf, "minres": self.minres,
            "single": self.single, "part": if self.first {"first"} else {"nearest"},
            "seed": self.seed.to_string(),
        })
    }
}

pub fn random_problem(rng: &mut SmallRng, id: String, nmax: usize) -> Problem {
    let dim = *[1usize, 1, 2, 2, 3, 5, 9].iter().nth(rng.gen_range(0..7)).unwrap();
    let n = if rng.gen_bool(0.15) {
        rng.gen_range(1..4)
    } else {
        rng.gen_range(1..=nmax)
    };
    let q = *[1i64, 1, 2, 8].iter().nth(rng.gen_range(0..4)).unwrap();
    let span = *[2i64, 5, 12, 40, 150].iter().nth(rng.gen_range(0..5)).unwrap();
    let clustered = rng.gen_bool(0.4);
    let centers: Vec<Vec<i64>> = (0..rng.gen_range(1..5))
        .map(|_| (0..dim).map(|_| rng.gen_range(-span..=span)).collect())
        .collect();
    let mut pts: Vec<Vec<i64>> = vec![];
    for _ in 0..n {
        if !pts.is_empty() && rng.gen_bool(0.1) {
            let k = rng.gen_range(0..pts.len());
            let d = pts[k].clone();
            pts.push(d);
        } else if clustered {
            let c = centers[rng.gen_range(0..centers.len())].clone();
            pts.push(c.iter().map(|x| x + rng.gen_range(-2..=2)).collect());
        } else {
            pts.push((0..dim).map(|_| rng.gen_range(-span..=span)).collect());
        }
    }
    let labels = (0..n).map(|_| rng.gen_range(0..4)).collect();
    let base = *[2.0f32, 2.0, 2.0, 1.3, 1.5, 3.0]
        .iter()
        .nth(rng.gen_range(0..6))
        .unwrap();
    Problem {
        id,
        dim,
        q,
        pts,
        labels,
        base,
        leaf: *[0usize, 1, 1, 2, 3, 6].iter().nth(rng.gen_range(0..6)).unwrap(),
        minres: *[-10i32, -4, -2, -1, 0, 1, 2]
            .iter()
            .nth(rng.gen_range(0..7))
            .unwrap(),
        single: rng.gen_bool(0.6),
        first: rng.gen_bool(0.4),
        // a seed is any number a description can hold
        seed: match rng.gen_range(0..10) {
            0 | 1 => rng.gen::<u64>() >> rng.gen_range(1..40),
            2 => 0,
            _ => rng.gen_range(0..1000),
        },
    }
}

/// All point sequences of length 1..=nmax over 0..=span on a line, each with parameters drawn at random.
pub fn small_problems(rng: &mut SmallRng, nmax: usize, span: i64, per: usize) -> Vec<Problem> {
    let mut res = vec![];
    for n in 1..=nmax {
        let total = (span as usize + 1).pow(n as u32);
        for code in 0..total {
            let mut c = code;
            let mut pts = vec![];
            for _ in 0..n {
                pts.push(vec![(c % (span as usize + 1)) as i64]);
                c /= span as usize + 1;
            }
            for rep in 0..per {
                res.push(Problem {
                    id: format!("line-{}-{}-{}", n, code, rep),
                    dim: 1,
                    q: 1,
                    labels: (0..n).map(|_| rng.gen_range(0..3)).collect(),
                    pts: pts.clone(),
                    base: 2.0,
                    leaf: rng.gen_range(0..3),
                    minres: rng.gen_range(-2..2),
                    single: rng.gen_bool(0.5),
                    first: rng.gen_bool(0.5),
                    seed: rng.gen_range(0..100),
                });
            }
        }
    }
    res
}

/// Shapes that random sampling rarely reaches.
pub fn shaped_problems(rng: &mut SmallRng) -> Vec<Problem> {
    let mut res = vec![];
    let mk = |id: String, pts: Vec<Vec<i64>>, rng: &mut SmallRng, k: usize| Problem {
        id,
        dim: pts[0].len(),
        q: 1,
        labels: (0..pts.len()).map(|i| (i % 3) as i64).collect(),
        pts,
        base: [2.0, 1.5, 2.0, 1.3][k % 4],
        leaf: [1, 0, 2, 5][k % 4],
        minres: [-3, -10, 0, 1][(k / 2) % 4],
        single: k % 2 == 0,
        first: k % 3 == 0,
        seed: rng.gen_range(0..1000),
    };
    for k in 0..12 {
        // all points identical, with and without one outlier
        for n in &[1usize, 2, 3, 7, 12] {
            res.push(mk(format!("ident-{}-{}", n, k), vec![vec![5]; *n], rng, k));
            let mut p = vec![vec![0, 0]; *n];
            p.push(vec![100, 0]);
            res.push(mk(format!("outlier-{}-{}", n, k), p.clone(), rng, k));
            p.reverse();
            res.push(mk(format!("outlier-rev-{}-{}", n, k), p, rng, k));
        }
        // exact powers of two, where covering is decided by a strict comparison
        let p: Vec<Vec<i64>> = (0..9).map(|i| vec![1i64 << i]).collect();
        res.push(mk(format!("pow-{}", k), p.clone(), rng, k));
        let mut p2 = p.clone();
        p2.push(vec![0]);
        res.push(mk(format!("pow0-{}", k), p2, rng, k));
        // regular grids: many ties
        let g: Vec<Vec<i64>> = (0..5)
            .flat_map(|x| (0..5).map(move |y| vec![x, y]))
            .collect();
        res.push(mk(format!("grid-{}", k), g, rng, k));
        let l: Vec<Vec<i64>> = (0..24).map(|x| vec![x]).collect();
        res.push(mk(format!("line24-{}", k), l, rng, k));
        // duplicated grid
        let g: Vec<Vec<i64>> = (0..3)
            .flat_map(|x| (0..3).flat_map(move |y| vec![vec![x * 4, y * 4]; 3]))
            .collect();
        res.push(mk(format!("dupgrid-{}", k), g, rng, k));
        // two far clusters
        let mut c: Vec<Vec<i64>> = (0..8).map(|i| vec![i % 3, i / 3]).collect();
        c.extend((0..8).map(|i| vec![1000 + i % 3, i / 3]));
        res.push(mk(format!("far-{}", k), c, rng, k));
        // points nearer and nearer, of which one layer after another peels off one: as deep as trees get
        let mut d: Vec<Vec<i64>> = vec![vec![0]];
        let mut x = 1.0f64;
        while x < 3000.0 {
            if x as i64 != d[d.len() - 1][0] {
                d.push(vec![x as i64]);
            }
            x *= [1.1, 1.15, 1.25][k % 3];
        }
        let mut deep = mk(format!("deep-{}", k), d, rng, k);
        deep.base = [1.1, 1.15, 1.25][k % 3];
        deep.minres = 0;
        deep.leaf = k % 2;
        res.push(deep);
        // nearer than one: scales far below zero
        let mut fine = vec![vec![0i64]];
        fine.extend((0..12).map(|i| vec![1i64 << i]));
        fine.extend((0..6).map(|i| vec![(1i64 << (2 * i)) + 1]));
        fine.push(vec![0]);
        let mut low = mk(format!("low-{}", k), fine, rng, k);
        low.q = 1024;
        low.minres = [-12, -40, -9, -140][k % 4];
        low.base = [2.0, 1.3, 2.0, 1.1][k % 4];
        low.leaf = [0, 1, 3][k % 3];
        res.push(low);
        // star: many singletons around a centre (more than the inline capacities of a node)
        let mut s: Vec<Vec<i64>> = (0..16)
            .map(|i| {
                let mut v = vec![0i64; 9];
                v[i % 8] = if i < 8 { 60 } else { -60 };
                v
            })
            .collect();
        s.push(vec![0; 9]);
        res.push(mk(format!("star-{}", k), s.clone(), rng, k));
        let mut pairs = vec![];
        for p in &s {
            pairs.push(p.clone());
            let mut p2 = p.clone();
            p2[8] += 1;
            pairs.push(p2);
        }
        res.push(mk(format!("starpair-{}", k), pairs, rng, k));
    }
    res
}

use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
static FAR: (AtomicUsize, AtomicUsize) = (AtomicUsize::new(0), AtomicUsize::new(1));
/// From now on the points of a problem are known to the tree by indexes that start at `start`, `step` apart.
pub fn spread(start: usize, step: usize) {
    FAR.0.store(start, SeqCst);
    FAR.1.store(step, SeqCst);
}
pub fn spreads(k: usize) -> (usize, usize) {
    [(300, 1), (65_530, 3), (1 << 16, 1 << 16), ((1 << 32) - 7, 5), (5, (1 << 33) + 1), (1 << 40, 1 << 32)][k % 6]
}
/// The index by which the tree knows a point of the problem, and back (a number no point has, if there is none).
pub fn far(i: usize) -> usize {
    FAR.0.load(SeqCst) + i * FAR.1.load(SeqCst)
}
pub fn near(x: usize) -> usize {
    let (start, step) = (FAR.0.load(SeqCst), FAR.1.load(SeqCst));
    if x >= start && (x - start) % step == 0 && (x - start) / step < 900_000_000 {
        (x - start) / step
    } else {
        900_000_001
    }
}
fn nears(a: &(i32, usize)) -> (i32, usize) {
    (a.0, near(a.1))
}

/// Projects everything the reader shows of a tree.
pub fn dump<D: PointCloud>(reader: &CoverTreeReader<D>, p: &Problem) -> Value {
    let (rs, ri) = reader.root_address();
    let mut nodes: Vec<Value> = vec![];
    let mut layers: Vec<Value> = vec![];
    let mut smin = p.minres - 1;
    let mut smax = rs;
    for (si, layer) in reader.layers() {
        let mut keys: Vec<usize> = layer.map_nodes(|k, _| *k);
        keys.sort_unstable();
        layers.push(json!({"s": si, "ls": layer.scale_index(), "len": layer.len(), "keys": keys.iter().map(|k| near(*k)).collect::<Vec<_>>()}));
        for k in &keys {
            layer.get_node_and(*k, |n| {
                let (s, i) = n.address();
                smin = smin.min(s);
                smax = smax.max(s);
                let (nested, kids): (Vec<i32>, Vec<(i32, usize)>) = match n.children() {
                    Some((ns, ch)) => (vec![ns], ch.iter().map(nears).collect()),
                    None => (vec![], vec![]),
                };
                for (cs, _) in &kids {
                    smin = smin.min(*cs);
                }
                for cs in &nested {
                    smin = smin.min(*cs);
                }
                nodes.push(json!({
                    "layer": si, "key": near(*k),
                    "s": s, "i": near(i), "c": near(*n.center_index()), "sc": n.scale_index(),
                    "leaf": n.is_leaf(),
                    "par": n.parent_address().map(|(s, i)| vec![json!(s), json!(near(i))]).unwrap_or_default(),
                    "nest": nested, "kids": kids, "nk": n.children_len(),
                    "sing": n.singletons().iter().map(|i| near(*i)).collect::<Vec<_>>(), "ns": n.singletons_len(),
                    "cov": n.coverage_count(),
                    "rad": if n.radius().is_finite() { as_sq(n.radius(), p.q) } else { -2 },
                }));
            });
        }
    }
    let (lt, le) = p.thresholds(smin, smax);
    let finals: Vec<Value> = (0..p.pts.len())
        .map(|i| match reader.known_path(far(i)) {
            Ok(t) => json!(t
                .iter()
                .map(|(d, (s, i))| json!([s, near(*i), as_sq(*d, p.q)]))
                .collect::<Vec<_>>()),
            Err(_) => json!([]),
        })
        .collect();
    json!({
        "root": [rs, near(ri)], "nodes": nodes, "layers": layers, "kp": finals,
        "lt": lt, "le": le, "smin": smin, "smax": smax,
        "count": reader.node_count(), "len": reader.len(),
        "range": [reader.scale_range().start, reader.scale_range().end],
    })
}

/// Query points for a problem: dataset points, near misses, mid points, far away.
pub fn queries(rng: &mut SmallRng, p: &Problem, n: usize) -> Vec<Vec<i64>> {
    let mut res = vec![];
    for _ in 0..n {
        let a = &p.pts[rng.gen_range(0..p.pts.len())];
        let b = &p.pts[rng.gen_range(0..p.pts.len())];
        let v: Vec<i64> = match rng.gen_range(0..5) {
            0 => a.clone(),
            1 => a.iter().map(|x| x + rng.gen_range(-1..=1)).collect(),
            2 => a.iter().zip(b).map(|(x, y)| (x + y) / 2).collect(),
            3 => a.iter().map(|x| x + rng.gen_range(-300..=300)).collect(),
            _ => a.iter().zip(b).map(|(x, y)| 2 * x - y).collect(),
        };
        res.push(v);
    }
    res
}
