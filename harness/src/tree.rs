//! Builds real trees, projects them and the answers of their queries.
use crate::cases::*;
use crate::faulty::Faulty;
use crate::util::*;
use goko::*;
use pointcloud::*;
use rand::rngs::SmallRng;
use rand::Rng;
use serde_json::{json, Value};
use std::collections::HashSet;
use std::sync::Arc;

fn trace(t: &[(f32, (i32, usize))], q: i64) -> Value {
    json!(t
        .iter()
        .map(|(d, (s, i))| json!([s, near(*i), as_sq(*d, q)]))
        .collect::<Vec<_>>())
}
fn nn(t: &[(f32, usize)], q: i64) -> Value {
    json!(t
        .iter()
        .map(|(d, i)| json!([near(*i), as_sq(*d, q)]))
        .collect::<Vec<_>>())
}

pub fn problems(a: &Args, salt: u64, small: (usize, i64, usize), rand: usize, nmax: usize) -> Vec<Problem> {
    let mut rng = a.rng(salt);
    let mut ps = small_problems(&mut rng, small.0, small.1, small.2);
    ps.extend(shaped_problems(&mut rng));
    for i in 0..rand {
        ps.push(random_problem(&mut rng, format!("rnd-{}", i), nmax));
    }
    ps
}

/// Clouds of more than 300 points, on which distances are computed in parallel inside the pool.
pub fn big_problems(a: &Args, salt: u64, count: usize) -> Vec<Problem> {
    let mut rng = a.rng(salt);
    (0..count)
        .map(|i| {
            let n = rng.gen_range(302i64..420);
            let mut p = random_problem(&mut rng, format!("big-{}", i), 5);
            p.pts = (0..n)
                .map(|_| (0..p.dim).map(|_| rng.gen_range(-60..=60)).collect())
                .collect();
            match i % 4 {
                // one step of the scale is so wide that a node has hundreds of outliers or children
                1 => {
                    p.dim = 3;
                    p.q = 1;
                    p.base = 8.0;
                    p.leaf = [1, 0, 5][rng.gen_range(0..3)];
                    p.pts = (0..216).map(|j| vec![j % 6 * 8, j / 6 % 6 * 8, j / 36 * 8]).collect();
                    for j in 0..100 {
                        let mut x = p.pts[j * 2].clone();
                        x[j % 3] += 1;
                        p.pts.push(x);
                    }
                    p.minres = p.minres.min(0);
                }
                2 => {
                    p.dim = 1;
                    p.q = 1;
                    p.base = 150.0;
                    p.leaf = [1, 0, 20][rng.gen_range(0..3)];
                    p.pts = (0..n).map(|j| vec![j * 7 % n]).collect();
                    p.minres = [-1, 0, -2][rng.gen_range(0..3)];
                    p.single = i % 8 == 2;
                }
                // leaves with hundreds of points
                3 => p.leaf = rng.gen_range(220..500),
                _ => (),
            }
            p.labels = (0..p.pts.len()).map(|j| (j % 5) as i64).collect();
            p
        })
        .collect()
}

/// Clouds of 60 to 150 points of shapes that give nodes with many singletons, many children or long nested chains.
pub fn medium_problems(a: &Args, salt: u64, count: usize) -> Vec<Problem> {
    let mut rng = a.rng(salt);
    (0..count)
        .map(|i| {
            let mut p = random_problem(&mut rng, format!("medium-{}", i), 5);
            let n = rng.gen_range(60..150);
            let dim = p.dim;
            let mut at = |span: i64| -> Vec<i64> { (0..dim).map(|_| rng.gen_range(-span..=span)).collect() };
            p.pts = match i % 4 {
                // one large leaf after another
                0 => (0..n).map(|_| at(40)).collect(),
                // copies of a few points among others
                1 => {
                    let few: Vec<_> = (0..3).map(|_| at(9)).collect();
                    (0..n).map(|j| if j % 5 == 4 { at(40) } else { few[j % 3].clone() }).collect()
                }
                // far from each other, as far from the middle: one node with many children
                2 => {
                    p.dim = 20 + i % 11;
                    let r = 4 + (i as i64) % 9;
                    let mut v: Vec<Vec<i64>> = vec![vec![0; p.dim]];
                    for d in 0..p.dim {
                        for s in [-r, r] {
                            let mut x = vec![0; p.dim];
                            x[d] = s;
                            v.push(x);
                        }
                    }
                    // with a few more near the middle and at the end of one arm the node is not a leaf
                    if i % 8 == 2 {
                        for d in 0..3 {
                            let mut x = vec![0; p.dim];
                            x[d] = 1;
                            v.push(x.clone());
                            x[0] += r;
                            v.push(x);
                        }
                    }
                    v
                }
                // a dense middle and outliers farther and farther away
                _ => (0..n).map(|j| if j % 3 == 0 { at(300) } else { at(2 + (j as i64) % 30) }).collect(),
            };
            p.leaf = [30, 1, 80, 0, 12, 200, 3][rng.gen_range(0..7)];
            if i % 8 == 2 {
                p.leaf = i / 8 % 3;
                p.single = true;
            }
            if i % 8 == 6 {
                // every arm is a child
                p.leaf = i / 8 % 2;
                p.single = false;
                p.minres = p.minres.min(0);
            }
            p.labels = (0..p.pts.len()).map(|j| (j % 5) as i64).collect();
            if i % 4 == 3 {
                p.q = 1;
            }
            p
        })
        .collect()
}

/// Failures the cloud may be told to have, and whether it had them.
pub trait Arm {
    fn arm(&self, rng: &mut SmallRng, n: usize);
    fn reported(&self) -> bool;
    /// no failures
    fn calm(&self) {}
}
impl Arm for Cloud {
    fn arm(&self, _: &mut SmallRng, _: usize) {}
    fn reported(&self) -> bool {
        false
    }
}
impl Arm for Faulty {
    fn arm(&self, rng: &mut SmallRng, n: usize) {
        match rng.gen_range(0..4) {
            0 => Faulty::arm(self, HashSet::new(), 0),
            1 => Faulty::arm(self, HashSet::new(), rng.gen_range(1..=n + 3)),
            _ => {
                let lost = (0..rng.gen_range(1..3)).map(|_| rng.gen_range(0..n)).collect();
                Faulty::arm(self, lost, 0)
            }
        }
    }
    fn reported(&self) -> bool {
        self.failures() > 0
    }
    fn calm(&self) {
        Faulty::arm(self, HashSet::new(), 0)
    }
}

/// The outcome of one query: its answer, or that it is an error or a panic.
fn ask<T>(c: &impl Arm, f: impl FnOnce() -> GokoResult<T>, show: impl Fn(&T) -> Value) -> Value {
    let r = guard(f);
    let rep = c.reported();
    match r {
        Ok(Ok(t)) => json!({"res": "ok", "rep": rep, "ans": show(&t)}),
        Ok(Err(e)) => json!({"res": "err", "rep": rep, "ans": [], "why": format!("{:?}", e)}),
        Err(m) => json!({"res": "panic", "rep": rep, "ans": [], "why": m}),
    }
}

fn with_queries<D: PointCloud<Point = [f32]> + Arm>(
    a: &Args,
    p: &Problem,
    kind: &str,
    mut w: CoverTreeWriter<D>,
    rng: &mut SmallRng,
) -> Value {
    // doing over what the build has done changes nothing
    if p.seed % 7 == 3 {
        w.refresh();
    }
    if p.seed % 7 == 5 {
        w.refresh_final_indexes();
    }
    let reader = w.reader();
    let cloud = reader.point_cloud().clone();
    let mut v = dump(&reader, p);
    let mut qs = vec![];
    let n = p.pts.len();
    if kind == "struct" {
        return v;
    }
    for q in queries(rng, p, a.pick(5, 10)) {
        let x = p.coords(&q);
        let px: &[f32] = &x;
        if kind == "knn" {
            let k = match rng.gen_range(0..6) {
                0 => 1,
                1 => n,
                2 => n + rng.gen_range(0..3),
                3 => 0,
                _ => rng.gen_range(1..=n),
            };
            cloud.arm(rng, n);
            let knn = ask(&*cloud, || reader.knn(&px, k), |t| nn(t, p.q));
            cloud.arm(rng, n);
            let rknn = ask(&*cloud, || reader.routing_knn(&px, k), |t| nn(t, p.q));
            // what one node contributes: everything it refers to, its outliers, its children
            let nodes = v["nodes"].as_array().unwrap();
            let nd = &nodes[rng.gen_range(0..nodes.len())];
            let at = (nd["s"].as_i64().unwrap() as i32, nd["i"].as_u64().unwrap() as usize);
            let kn = [0, 1, 2, 3, n][rng.gen_range(0..5usize)];
            let mut near = vec![];
            for which in 0..3 {
                let centre = p.coords(&p.pts[at.1]);
                let known = if rng.gen_bool(0.5) { Some(L2::dist(&centre[..], px)) } else { None };
                cloud.arm(rng, n);
                near.push(ask(&*cloud, || {
                    let mut heap = query_tools::KnnQueryHeap::new(kn, p.base);
                    reader
                        .get_node_and((at.0, far(at.1)), |x| match which {
                            0 => x.knn(known, &px, &cloud, &mut heap),
                            1 => x.singleton_knn(&px, &cloud, &mut heap),
                            _ => x.child_knn(known, &px, &cloud, &mut heap),
                        })
                        .unwrap_or(Ok(()))?;
                    let (len, empty) = (heap.len(), heap.is_empty());
                    let all = heap.unpack();
                    Ok(if len == all.len() && empty == all.is_empty() { all } else { vec![] })
                }, |t| nn(t, p.q)));
            }
            qs.push(json!({"x": q, "k": k, "knn": knn, "rknn": rknn, "at": [at.0, at.1], "kn": kn, "near": near}));
        } else {
            cloud.arm(rng, n);
            let t = ask(&*cloud, || reader.path(&px), |t| trace(t, p.q));
            qs.push(json!({"x": q, "pi": -1, "path": t, "kp": t}));
        }
    }
    {
        // so far away that every distance is infinite
        let mut far = vec![];
        for k in [1, n / 2, n, n + 1].iter() {
            let mut x = p.coords(&p.pts[rng.gen_range(0..n)]);
            let j = rng.gen_range(0..x.len());
            x[j] = [1e25, -1e30, f32::MAX, f32::INFINITY][rng.gen_range(0..4)];
            let px: &[f32] = &x;
            cloud.calm();
            let show = |t: &Vec<(f32, usize)>| json!(t.iter().map(|(d, i)| json!([near(*i), *d == f32::INFINITY])).collect::<Vec<_>>());
            if kind == "path" {
                let t = ask(&*cloud, || reader.path(&px), |t| json!(t.iter().map(|(d, a)| json!([a.0, near(a.1), *d == f32::INFINITY])).collect::<Vec<_>>()));
                far.push(json!({"path": t}));
                break;
            }
            far.push(json!({"k": k, "knn": ask(&*cloud, || reader.knn(&px, *k), show), "rknn": ask(&*cloud, || reader.routing_knn(&px, *k), show)}));
        }
        v["far"] = json!(far);
    }
    if kind == "path" {
        for i in 0..n {
            let x = p.coords(&p.pts[i]);
            let px: &[f32] = &x;
            cloud.arm(rng, n);
            let t = ask(&*cloud, || reader.path(&px), |t| trace(t, p.q));
            cloud.arm(rng, n);
            let kp = ask(&*cloud, || reader.known_path(far(i)), |t| trace(t, p.q));
            qs.push(json!({"x": p.pts[i], "pi": i, "path": t, "kp": kp}));
        }
        // an index that is not in the tree
        v["unknown"] = json!([far(n), far(n + 12345), far(n - 1) + 1, far(0).wrapping_sub(1), far(0) as u32 as usize, far(0) as u16 as usize]
            .iter()
            .filter(|i| near(**i) >= n)
            .all(|i| reader.known_path(*i).is_err()));
    }
    v["qs"] = json!(qs);
    v
}

/// kind: "struct" (projection only), "knn", "path"
pub fn run(a: &Args, kind: &str) {
    let mut out = Out::new(a, "trace");
    let mut ps = match kind {
        "struct" => problems(a, 1, a.pick((4, 3, 1), (5, 3, 2)), a.pick(250, 3000), a.pick(40, 60)),
        _ => problems(a, 2, a.pick((3, 4, 1), (4, 4, 2)), a.pick(200, 2500), a.pick(40, 60)),
    };
    let mut rng = a.rng(77);
    ps.extend(medium_problems(a, 79, a.pick(24, 200)));
    ps.extend(big_problems(a, 78, a.pick(if kind == "struct" { 8 } else { 6 }, 60)));
    for (k, mut p) in ps.into_iter().enumerate() {
        // every fourth tree is asked over a cloud that sometimes fails
        let faulty = kind != "struct" && k % 4 == 1;
        if faulty {
            p.id = format!("faulty-{}", p.id);
        }
        // every fifth has indexes that are not its row numbers
        let apart = k % 5 == 2 && p.pts.len() <= 60;
        if apart {
            p.id = format!("apart-{}", p.id);
        }
        let (start, step) = if apart { spreads(k / 5) } else { (0, 1) };
        spread(start, step);
        let mut rec = p.json();
        out.begin(&rec);
        let r = guard(|| -> Value {
            if faulty || apart {
                let c = Faulty::new(Cloud::new_simple(p.data(), p.dim, p.labels.clone()), HashSet::new(), 0).apart(start, step);
                match p.builder(a).build(Arc::new(c)) {
                    Ok(w) => with_queries(a, &p, kind, w, &mut rng),
                    Err(e) => json!({ "err": format!("{:?}", e) }),
                }
            } else {
                match p.build(a) {
                    Ok(w) => with_queries(a, &p, kind, w, &mut rng),
                    Err(e) => json!({ "err": format!("{:?}", e) }),
                }
            }
        });
        match r {
            Ok(v) => {
                for (k, x) in v.as_object().unwrap() {
                    rec[k] = x.clone();
                }
                rec["ok"] = json!(v.get("err").is_none());
            }
            Err(m) => {
                rec["ok"] = json!(false);
                rec["panic"] = json!(m);
            }
        }
        out.emit(&rec);
    }
    spread(0, 1);
}
