//! Bulk queries against the single queries they stand for.
use crate::cases::*;
use crate::faulty::Faulty;
use crate::tree::problems;
use crate::util::*;
use goko::query_interface::BulkInterface;
use goko::*;
use ndarray::prelude::*;
use rand::rngs::SmallRng;
use rand::seq::SliceRandom;
use rand::Rng;
use serde_json::{json};
use std::collections::{HashMap, HashSet};
use std::sync::Arc;

/// Gives equal results equal numbers.
#[derive(Default)]
struct Names(HashMap<String, usize>);
impl Names {
    fn of<T: std::fmt::Debug>(&mut self, x: &T) -> usize {
        let k = format!("{:?}", x);
        let n = self.0.len() + 1;
        *self.0.entry(k).or_insert(n)
    }
    fn all<T: std::fmt::Debug>(&mut self, x: &[T]) -> Vec<usize> {
        x.iter().map(|x| self.of(x)).collect()
    }
}

pub fn run(a: &Args) {
    let mut out = Out::new(a, "trace");
    let mut rng = a.rng(60);
    let ps: Vec<Problem> = problems(a, 61, (1, 1, 1), a.pick(200, 2000), 50)
        .into_iter()
        .enumerate()
        .filter(|(i, p)| p.id.starts_with("rnd") || i % 8 == 0)
        .map(|x| x.1)
        .collect();
    let pools: Vec<(usize, rayon::ThreadPool)> = [1usize, 2, 3, 8]
        .iter()
        .map(|n| (*n, rayon::ThreadPoolBuilder::new().num_threads(*n).build().unwrap()))
        .collect();
    for (ix, p) in ps.iter().enumerate() {
        let n = p.pts.len();
        let lost: HashSet<usize> = if ix % 3 == 0 { vec![rng.gen_range(0..n)].into_iter().collect() } else { HashSet::new() };
        let cloud = Arc::new(Faulty::new(
            Cloud::new_simple(p.data(), p.dim, p.labels.clone()),
            HashSet::new(),
            0,
        ));
        let tree = match guard(|| p.builder(a).build(cloud.clone())) {
            Ok(Ok(t)) => t,
            _ => continue,
        };
        cloud.arm(lost, 0);
        let reader = tree.reader();
        for _ in 0..a.pick(3, 6) {
            let len = *[0usize, 1, 2, 50, 99, 100, 101, 150, 199, 200, 201, 250, 300, 301, 999, 1000, 1001, 2049, 5003]
                .choose(&mut rng)
                .unwrap();
            let (pn, pool) = pools.choose(&mut rng).unwrap();
            let kind = *["known", "known_and", "path", "knn", "rknn", "array", "array_f", "array_s", "imap", "pmap"]
                .choose(&mut rng)
                .unwrap();
            let id = format!("{}/{}/{}/{}", p.id, kind, len, pn);
            out.begin(&json!({"id": id, "problem": p.json()}));
            let r = guard(|| one(p, &reader, &tree, kind, len, pool, &mut rng));
            let (single, bulk, why) = match r {
                Ok((s, b)) => (s, b, String::new()),
                Err(m) => (vec![], vec![0], m),
            };
            out.emit(&json!({"id": id, "kind": kind, "len": len, "pool": pn, "single": single, "bulk": bulk, "why": why}));
        }
    }
}

fn one(
    p: &Problem,
    reader: &CoverTreeReader<Faulty>,
    tree: &CoverTreeWriter<Faulty>,
    kind: &str,
    len: usize,
    pool: &rayon::ThreadPool,
    rng: &mut SmallRng,
) -> (Vec<usize>, Vec<usize>) {
    let n = p.pts.len();
    let mut names = Names::default();
    let bulk = BulkInterface::new(tree.reader());
    let idx: Vec<usize> = (0..len)
        .map(|_| if rng.gen_bool(0.03) { n + rng.gen_range(0..1000) } else { rng.gen_range(0..n) })
        .collect();
    let k = rng.gen_range(0..n + 2);
    let qs: Vec<Vec<f32>> = queries(rng, p, len).iter().map(|q| p.coords(q)).collect();
    let pts: Vec<&[f32]> = qs.iter().map(|q| &q[..]).collect();
    let (idx_r, pts_r) = (&idx[..], &pts[..]);
    match kind {
        "known" => {
            let s: Vec<_> = idx.iter().map(|i| reader.known_path(*i)).collect();
            let b = pool.install(move || bulk.known_path(idx_r));
            (names.all(&s), names.all(&b))
        }
        "known_and" => {
            let s: Vec<_> = idx.iter().map(|i| reader.known_path(*i).map(|t| (t.len(), 7))).collect();
            let b = pool.install(move || bulk.known_path_and(idx_r, |_, t| t.map(|t| (t.len(), 7))));
            (names.all(&s), names.all(&b))
        }
        "imap" => {
            let s: Vec<_> = idx.iter().enumerate().map(|(_, i)| (*i, reader.known_path(*i))).collect();
            let b = pool.install(move || bulk.index_map_with_reader(idx_r, |r, i| (i, r.known_path(i))));
            (names.all(&s), names.all(&b))
        }
        "path" => {
            let s: Vec<_> = pts.iter().map(|x| reader.path(x)).collect();
            let b = pool.install(move || bulk.path(pts_r));
            (names.all(&s), names.all(&b))
        }
        "pmap" => {
            let s: Vec<_> = pts.iter().map(|x| (x.to_vec(), reader.path(x))).collect();
            let b = pool.install(move || bulk.point_map_with_reader(pts_r, |r, x| (x.to_vec(), r.path(x))));
            (names.all(&s), names.all(&b))
        }
        "knn" => {
            let s: Vec<_> = pts.iter().map(|x| reader.knn(x, k)).collect();
            let b = pool.install(move || bulk.knn(pts_r, k));
            (names.all(&s), names.all(&b))
        }
        "rknn" => {
            let s: Vec<_> = pts.iter().map(|x| reader.routing_knn(x, k)).collect();
            let b = pool.install(move || bulk.routing_knn(pts_r, k));
            (names.all(&s), names.all(&b))
        }
        _ => {
            // the rows of an array in one of three memory layouts
            let s: Vec<_> = pts.iter().map(|x| (x.to_vec(), reader.path(x))).collect();
            let b = match kind {
                "array" => {
                    let m = Array2::from_shape_vec((len, p.dim), qs.concat()).unwrap();
                    let m2 = m.view();
                    pool.install(move || bulk.array_map_with_reader(m2, |r, x| (x.to_vec(), r.path(x))))
                }
                "array_f" => {
                    let mut m: Array2<f32> = Array2::zeros((len, p.dim).f());
                    for (mut row, q) in m.outer_iter_mut().zip(&qs) {
                        row.assign(&ArrayView1::from(&q[..]));
                    }
                    let m2 = m.view();
                    pool.install(move || bulk.array_map_with_reader(m2, |r, x| (x.to_vec(), r.path(x))))
                }
                _ => {
                    // every second row and column of a larger array
                    let mut m: Array2<f32> = Array2::from_elem((2 * len + 1, 2 * p.dim + 1), 77.0);
                    for (i, q) in qs.iter().enumerate() {
                        for (j, x) in q.iter().enumerate() {
                            m[[2 * i, 2 * j]] = *x;
                        }
                    }
                    let v = m.slice(s![..2 * len;2, ..2 * p.dim;2]);
                    assert_eq!(v.dim(), (len, p.dim));
                    pool.install(move || bulk.array_map_with_reader(v, |r, x| (x.to_vec(), r.path(x))))
                }
            };
            (names.all(&s), names.all(&b))
        }
    }
}
