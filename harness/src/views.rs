//! What a tree shows of itself: its layers, counts and dimensions; and trees made from a description in YAML.
use crate::cases::*;
use crate::track::settle;
use crate::tree::{big_problems, medium_problems, problems};
use crate::util::*;
use goko::utils::*;
use goko::*;
use pointcloud::*;
use rand::seq::SliceRandom;
use rand::Rng;
use serde_json::{json, Value};

/// Thousandths of base^dim: the number the dimension is the logarithm of.
fn milli(base: f32, dim: f32) -> i64 {
    let x = (base as f64).powf(dim as f64) * 1000.0;
    if x.is_finite() && x < 1e9 {
        x.round() as i64
    } else {
        -1
    }
}

fn sorted(mut v: Vec<usize>) -> Vec<usize> {
    v.sort_unstable();
    v
}

fn layer_view<D: PointCloud>(s: i32, l: &layer::CoverLayerReader<D>) -> Value {
    let mut each = vec![];
    l.for_each_node(|k, n| each.push((*k, n.coverage_count())));
    each.sort_unstable();
    let mut map: Vec<(usize, usize)> = l.map_nodes(|k, n| (*k, n.coverage_count()));
    map.sort_unstable();
    json!({"s": s, "ls": l.scale_index(), "len": l.len(), "empty": l.is_empty(), "centers": sorted(l.node_center_indexes()), "each": each, "map": map})
}

fn tree_view<D: PointCloud>(r: &CoverTreeReader<D>) -> Value {
    let layers: Vec<Value> = r.layers().map(|(s, l)| layer_view(s, l)).collect();
    let again: Vec<Value> = r.layers().map(|(s, _)| layer_view(s, &r.layer(s).reader())).collect();
    let root = r.root_address();
    json!({"root": [root.0, root.1], "count": r.node_count(), "len": r.len(), "empty": r.is_empty(),
           "range": [r.scale_range().start, r.scale_range().end], "layers": layers, "again": again})
}

/// The nodes reached from the root, in no particular order.
fn walk<D: PointCloud>(r: &CoverTreeReader<D>) -> Vec<Value> {
    let mut res = vec![];
    let mut todo = vec![r.root_address()];
    while let Some(a) = todo.pop() {
        let v = r.get_node_and(a, |n| {
            let (nest, kids): (Vec<i32>, Vec<NodeAddress>) = match n.children() {
                Some((s, k)) => (vec![s], k.to_vec()),
                None => (vec![], vec![]),
            };
            todo.extend(kids.iter());
            todo.extend(nest.iter().map(|s| (*s, a.1)));
            json!({"s": a.0, "i": a.1, "nest": nest, "kids": kids, "sing": n.singletons(), "cov": n.coverage_count(), "nk": n.children_len(), "ns": n.singletons_len(), "leaf": n.is_leaf()})
        });
        res.push(v.unwrap_or(json!({"s": a.0, "i": a.1, "nest": [], "kids": [], "sing": [], "cov": -1, "nk": -1, "ns": -1, "leaf": true})));
        if res.len() > 5000 {
            break;
        }
    }
    res
}

fn children<D: PointCloud>(r: &CoverTreeReader<D>, a: NodeAddress) -> Value {
    let show = |n: NodeAddress, k: &[NodeAddress]| json!([{"nest": [n.0, n.1], "kids": k}]);
    json!({
        "s": a.0, "i": a.1,
        "tree": r.get_node_children_and(a, show).unwrap_or(json!([])),
        "layer": r.layer(a.0).get_node_children_and(a.1, show).unwrap_or(json!([])),
        "dim": milli(r.parameters().scale_base, r.node_fractal_dim(a)),
        "wdim": milli(r.parameters().scale_base, r.node_weighted_fractal_dim(a)),
    })
}

pub fn run(a: &Args) {
    let mut out = Out::new(a, "trace");
    let mut ps = problems(a, 230, a.pick((3, 3, 0), (4, 3, 1)), a.pick(300, 3000), a.pick(30, 60));
    ps.extend(medium_problems(a, 231, a.pick(24, 200)));
    ps.extend(big_problems(a, 232, a.pick(4, 40)));
    // chains that go deep: copies of points, and points very close to each other
    let mut rng = a.rng(233);
    for k in 0..a.pick(60, 600) {
        let mut p = random_problem(&mut rng, format!("deep-{}", k), 20);
        p.minres = -rng.gen_range(11..40);
        p.q = [1, 8, 1024, 1 << 16][rng.gen_range(0..4)];
        p.leaf = rng.gen_range(0..2);
        let c = p.pts[0].clone();
        for _ in 0..rng.gen_range(1..4) {
            p.pts.push(c.clone());
        }
        p.labels = vec![0; p.pts.len()];
        ps.push(p);
    }
    for p in ps {
        let mut rec = json!({"id": p.id, "n": p.pts.len(), "minres": p.minres, "params": format!("{:?}", p)});
        out.begin(&rec);
        let r = guard(|| -> GokoResult<Value> {
            let tree = p.build(a)?;
            let r = tree.reader();
            let nodes = walk(&r);
            let addrs: Vec<NodeAddress> = nodes.iter().map(|n| (n["s"].as_i64().unwrap() as i32, n["i"].as_u64().unwrap() as usize)).collect();
            let q = tree.reader();
            let absent: Vec<Value> = r
                .layers()
                .flat_map(|(s, _)| [p.pts.len(), p.pts.len() + 7].iter().map(move |i| (s, *i)).collect::<Vec<_>>())
                .map(|x| json!([r.get_node_and(x, |_| 0).is_none(), r.get_node_children_and(x, |_, _| 0).is_none()]))
                .collect();
            let base = r.parameters().scale_base;
            let scales: Vec<i64> = (0..4).map(|s| (r.scale(s) as f64 * 1000.0).round() as i64).collect();
            let dims: Vec<Value> = r
                .layers()
                .filter(|(_, l)| !l.is_empty())
                .map(|(s, _)| json!([s, milli(base, r.layer_fractal_dim(s)), milli(base, r.layer_weighted_fractal_dim(s))]))
                .collect();
            Ok(json!({
                "nodes": nodes, "views": [tree_view(&r), tree_view(&r.clone()), tree_view(&q)], "kids": addrs.iter().map(|x| children(&r, *x)).collect::<Vec<_>>(),
                "dims": dims, "absent": absent, "scales": scales, "base": (p.base as f64 * 1000.0).round() as i64,
            }))
        });
        settle(&mut rec, r);
        out.emit(&rec);
    }
}

/// The parts of a tree that its seed determines.
fn shape<D: PointCloud>(r: &CoverTreeReader<D>) -> Value {
    let mut w = walk(r);
    w.sort_by_key(|n| (n["s"].as_i64(), n["i"].as_i64()));
    let p = r.parameters();
    json!({"root": [r.root_address().0, r.root_address().1], "nodes": w,
           "params": {"base": (p.scale_base as f64 * 1000.0).round() as i64, "leaf": p.leaf_cutoff, "minres": p.min_res_index, "single": p.use_singletons,
                      "part": if matches!(p.partition_type, PartitionType::First) { "first" } else { "nearest" }}})
}

fn grid<D: PointCloud<Point = [f32]>>(c: &D, p: &Problem) -> Value {
    let rows: Vec<Vec<i64>> = (0..c.len()).map(|i| {
        let x = c.point(i).unwrap();
        x.dense_iter().map(|y| (y * p.q as f32).round() as i64).collect()
    }).collect();
    json!(rows)
}

pub fn described(a: &Args) {
    let mut out = Out::new(a, "trace");
    let mut rng = a.rng(240);
    for k in 0..a.pick(300, 4000) {
        let mut p = random_problem(&mut rng, format!("yaml-{}", k), if k % 10 == 3 { 60 } else { 14 });
        let dir = a.scratch(&format!("described-{}", k));
        std::fs::create_dir_all(&dir).unwrap();
        // the rows of the files, in the order of their names
        let nf = if k % 10 == 3 { rng.gen_range(4..13usize) } else { rng.gen_range(1..4) }.min(p.pts.len());
        // names of all lengths, which sort otherwise than their numbers
        let mut names = |end: &str| {
            let mut n: Vec<String> = ["", "0", "1", "10", "11", "2", "2-long", "9", "a", "a-much-longer-one", "b", "b.b", "z"].iter().map(|x| format!("{}.{}", x, end)).collect();
            n.shuffle(&mut rng);
            n.truncate(nf);
            n.sort_unstable();
            n
        };
        let (data_names, csv_names, dat_names) = (names("dat"), names("csv"), names("dat"));
        if k % 9 == 4 {
            p.leaf = [257, 300, 65_537, 70_001][k / 9 % 4];
        }
        let mut cuts: Vec<usize> = (1..p.pts.len()).collect();
        cuts.shuffle(&mut rng);
        cuts.truncate(nf - 1);
        cuts.sort_unstable();
        cuts.insert(0, 0);
        cuts.push(p.pts.len());
        let labeled = k % 2 == 0;
        let csv = rng.gen_bool(0.5);
        let kinds = if csv && k % 3 == 0 { 1_000_000 } else { 4 };
        p.labels = (0..p.pts.len()).map(|_| rng.gen_range(0..kinds)).collect();
        let mut files = vec![];
        let mut labs = vec![];
        for (j, w) in cuts.windows(2).enumerate() {
            let bytes: Vec<u8> = p.pts[w[0]..w[1]].iter().flat_map(|x| p.coords(x)).flat_map(|x| x.to_le_bytes().to_vec()).collect();
            std::fs::write(dir.join(format!("part{}", data_names[j])), bytes).unwrap();
            let l = &p.labels[w[0]..w[1]];
            if csv {
                let mut t = String::from("a,b\n");
                l.iter().for_each(|x| t += &format!("7,{}\n", x));
                std::fs::write(dir.join(format!("labels{}", csv_names[j])), t).unwrap();
            } else {
                let bytes: Vec<u8> = l.iter().flat_map(|x| (0..4).map(move |y| if y == *x { 1.0f32 } else { 0.0 })).flat_map(|x| x.to_le_bytes().to_vec()).collect();
                std::fs::write(dir.join(format!("labels{}", dat_names[j])), bytes).unwrap();
            }
            files.push(p.pts[w[0]..w[1]].to_vec());
            labs.push(l.to_vec());
        }
        let counted: Vec<usize> = match rng.gen_range(0..6) {
            0 => vec![],
            1 => vec![p.pts.len() + rng.gen_range(1..3)],
            2 => vec![p.pts.len() - 1],
            _ => vec![p.pts.len()],
        };
        let whole = if rng.gen_bool(0.3) { format!("{}/", std::fs::canonicalize(&dir).unwrap().to_str().unwrap()) } else { String::new() };
        let mut lines = vec![
            format!("data_path: \"{}part*.dat\"", whole),
            format!("data_dim: {}", p.dim),
            format!("scale_base: {:?}", p.base),
            format!("leaf_cutoff: {}", p.leaf),
            format!("min_res_index: {}", p.minres),
            format!("use_singletons: {}", p.single),
            format!("partition_type: {}", if p.first { "first" } else { "nearest" }),
            format!("rng_seed: {}", p.seed),
            "verbosity: 0".to_string(),
        ];
        counted.iter().for_each(|c| lines.push(format!("count: {}", c)));
        if labeled {
            lines.push(format!("labels_path: \"{}labels*.{}\"", whole, if csv { "csv" } else { "dat" }));
            lines.push(if csv { "labels_index: 1".to_string() } else { "labels_dim: 4".to_string() });
        }
        lines.shuffle(&mut rng);
        let y = dir.join("tree.yml");
        std::fs::write(&y, format!("---\n{}\n", lines.join("\n"))).unwrap();
        let mut rec = json!({"id": p.id, "files": files, "labels": labs, "labeled": labeled, "counted": counted, "params": format!("{:?}", p),
            "want": {"base": (p.base as f64 * 1000.0).round() as i64, "leaf": p.leaf, "minres": p.minres, "single": p.single, "part": if p.first { "first" } else { "nearest" }}});
        out.begin(&rec);
        let got = guard(|| -> GokoResult<Value> {
            if labeled {
                let t = cover_tree_from_labeled_yaml(&y)?;
                let r = t.reader();
                let c = r.point_cloud();
                let l: Vec<i64> = (0..c.len()).map(|i| match c.label(i) { Ok(Some(x)) => *x as i64, _ => -1 }).collect();
                Ok(json!({"tree": shape(&r), "rows": grid(c.as_ref(), &p), "labels": l}))
            } else {
                let t = cover_tree_from_yaml(&y)?;
                let r = t.reader();
                Ok(json!({"tree": shape(&r), "rows": grid(r.point_cloud().as_ref(), &p), "labels": []}))
            }
        });
        rec["got"] = match got {
            Ok(Ok(v)) => json!([v]),
            _ => json!([]),
        };
        let twin = guard(|| -> GokoResult<Value> { Ok(json!({"twin": shape(&p.builder_via(a, false).build(p.cloud())?.reader())})) });
        settle(&mut rec, twin);
        out.emit(&rec);
        let _ = std::fs::remove_dir_all(&dir);
    }
}
