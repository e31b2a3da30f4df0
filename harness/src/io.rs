//! Saves and loads real trees.
use crate::cases::*;
use crate::faulty::Faulty;
use crate::tree::{big_problems, problems};
use crate::util::*;
use goko::utils::{load_tree, save_tree};
use goko::*;
use pointcloud::*;
use std::collections::HashSet;
use std::sync::Arc;
use rand::Rng;
use serde_json::{json, Value};

fn params<D: PointCloud>(r: &CoverTreeReader<D>) -> Value {
    let p = r.parameters();
    json!({
        "base": format!("{}", p.scale_base), "leaf": p.leaf_cutoff, "minres": p.min_res_index,
        "single": p.use_singletons,
        "part": match p.partition_type { PartitionType::First => "first", PartitionType::Nearest => "nearest" },
    })
}

fn image<D: PointCloud<Point = [f32]>>(r: &CoverTreeReader<D>, p: &Problem, qs: &[(Vec<i64>, usize)]) -> Value {
    let mut d = dump(r, p);
    let answers: Vec<Value> = qs
        .iter()
        .map(|(q, k)| {
            let x = p.coords(q);
            let px: &[f32] = &x;
            let ds = |v: GokoResult<Vec<(f32, usize)>>| match v {
                Ok(v) => v.iter().map(|(d, _)| as_sq(*d, p.q)).collect::<Vec<i64>>(),
                Err(_) => vec![-9],
            };
            let path: Vec<(i32, usize)> = r.path(&px).map(|t| t.iter().map(|x| ((x.1).0, near((x.1).1))).collect()).unwrap_or_default();
            json!({"knn": ds(r.knn(&px, *k)), "rknn": ds(r.routing_knn(&px, *k)), "path": path})
        })
        .collect();
    d["answers"] = json!(answers);
    d["params"] = params(r);
    for k in &["lt", "le", "smin", "smax"] {
        d.as_object_mut().unwrap().remove(*k);
    }
    d
}

/// Saves a tree and loads it twice; `how`: something is in the way, load from the message, refresh, save over the first file.
fn around<D: PointCloud<Point = [f32]>>(a: &Args, p: &Problem, cloud: Arc<D>, qs: &[(Vec<i64>, usize)], how: (bool, bool, bool, bool)) -> GokoResult<Value> {
    let (stale, direct, again, same) = how;
    let file = a.scratch("tree.tre");
    let other = a.scratch("other.tre");
    let tree = p.builder(a).build(cloud.clone())?;
    let before = image(&tree.reader(), p, qs);
    if stale {
        // something longer is in the way
        std::fs::write(&file, vec![0x5au8; 300_000]).unwrap();
    }
    save_tree(&file, &tree)?;
    let kept = image(&tree.reader(), p, qs);
    // from the file, or straight from the message it holds
    let mut l1 = if direct { CoverTreeWriter::load(&tree.save(), cloud.clone())? } else { load_tree(&file, cloud.clone())? };
    if again {
        l1.refresh_final_indexes();
        l1.refresh();
    }
    let once = image(&l1.reader(), p, qs);
    drop(tree);
    // save what was loaded, elsewhere or over the file it came from
    let target = if same { &file } else { &other };
    save_tree(target, &l1)?;
    let mut l2 = load_tree(target, cloud.clone())?;
    if again {
        l2.refresh();
        l2.refresh_final_indexes();
    }
    let twice = image(&l2.reader(), p, qs);
    Ok(json!([before, kept, once, twice]))
}

pub fn run(a: &Args) {
    let mut out = Out::new(a, "trace");
    let mut rng = a.rng(50);
    let mut ps = problems(a, 51, a.pick((3, 2, 1), (4, 3, 1)), a.pick(120, 1500), a.pick(40, 60));
    ps.extend(big_problems(a, 52, a.pick(3, 30)));
    for (k, mut p) in ps.into_iter().enumerate() {
        // every third tree has indexes that are not its row numbers
        let apart = k % 3 == 1 && p.pts.len() <= 60;
        let (start, step) = if apart { spreads(k / 3) } else { (0, 1) };
        spread(start, step);
        if apart {
            p.id = format!("apart-{}", p.id);
        }
        if k % 12 == 5 {
            p.leaf = [257, 70_001, 2_000_000_011][k / 12 % 3];
        }
        if k % 7 == 3 {
            p.base = [1.234_567_9, 1.500_000_1, 2.000_000_2, 9.876_543][k / 7 % 4];
        }
        let mut rec = p.json();
        out.begin(&rec);
        let qs: Vec<(Vec<i64>, usize)> = queries(&mut rng, &p, 3)
            .into_iter()
            .map(|q| (q, rng.gen_range(0..p.pts.len() + 2)))
            .collect();
        let file = a.scratch("tree.tre");
        let other = a.scratch("other.tre");
        let _ = std::fs::remove_file(&file);
        let _ = std::fs::remove_file(&other);
        let how = (rng.gen_bool(0.4), rng.gen_bool(0.3), rng.gen_bool(0.4), rng.gen_bool(0.5));
        let r = guard(|| {
            if apart {
                around(a, &p, Arc::new(Faulty::new(Cloud::new_simple(p.data(), p.dim, p.labels.clone()), HashSet::new(), 0).apart(start, step)), &qs, how)
            } else {
                around(a, &p, p.cloud(), &qs, how)
            }
        });
        match r {
            Ok(Ok(v)) => {
                rec["ok"] = json!(true);
                rec["img"] = v;
            }
            Ok(Err(e)) => {
                rec["ok"] = json!(false);
                rec["why"] = json!(format!("{:?}", e));
            }
            Err(m) => {
                rec["ok"] = json!(false);
                rec["why"] = json!(m);
            }
        }
        out.emit(&rec);
    }
    spread(0, 1);
}
