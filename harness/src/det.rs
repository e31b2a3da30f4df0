//! Builds the same problem under many pool sizes and schedules, and over clouds that fail.
use crate::cases::*;
use crate::faulty::Faulty;
use crate::tree::{big_problems, problems};
use crate::util::*;
use rand::Rng;
use serde_json::{json, Value};
use std::collections::HashSet;
use std::io::BufRead;
use std::sync::Arc;

fn cases(a: &Args) -> Vec<Problem> {
    let mut ps: Vec<Problem> = problems(a, 41, (2, 2, 1), a.pick(250, 2500), a.pick(50, 80))
        .into_iter()
        .enumerate()
        .filter(|(i, p)| !p.id.starts_with("ident") || i % 3 == 0)
        .map(|(_, p)| p)
        .collect();
    ps.extend(big_problems(a, 43, a.pick(6, 40)));
    ps
}

/// what two builds are compared by: all a reader sees, except the order of outliers in a node
fn canon(d: &Value) -> Value {
    json!({"root": d["root"], "nodes": d["nodes"], "kp": d["kp"], "range": d["range"]})
}

fn one(a: &Args, p: &Problem, yaml: bool) -> Value {
    match guard(|| p.builder_via(a, yaml).build(p.cloud()).map(|w| canon(&dump(&w.reader(), p)))) {
        Ok(Ok(v)) => json!({"res": "tree", "tree": v}),
        Ok(Err(e)) => json!({"res": "err", "tree": {"root": [], "nodes": [], "kp": [], "range": []}, "why": format!("{:?}", e)}),
        Err(m) => json!({"res": "panic", "tree": {"root": [], "nodes": [], "kp": [], "range": []}, "why": m}),
    }
}

fn fault_cases(p: &Problem, rng: &mut rand::rngs::SmallRng, k: usize) -> Vec<(HashSet<usize>, usize)> {
    let n = p.pts.len();
    let mut res = vec![];
    for _ in 0..k {
        if rng.gen_bool(0.5) {
            res.push((vec![rng.gen_range(0..n)].into_iter().collect(), 0));
        } else {
            res.push((HashSet::new(), rng.gen_range(1..=4 * n + 2)));
        }
    }
    res
}

pub fn child(a: &Args) {
    let threads = std::env::var("RAYON_NUM_THREADS").unwrap_or_default();
    let mut out = Out::new(a, "trace");
    let mut rng = a.rng(42);
    for (idx, p) in cases(a).into_iter().enumerate() {
        out.begin(&json!({"id": p.id, "threads": threads}));
        let mut runs = vec![one(a, &p, threads == "3" || threads == "16")];
        if threads != "1" && idx % 4 == 0 {
            // two builds at a time share the pool
            let (a2, p2) = (a.clone(), p.clone());
            let h = std::thread::spawn(move || one(&a2, &p2, true));
            runs.push(one(a, &p, false));
            runs.push(h.join().unwrap());
        }
        for r in runs.iter_mut() {
            r["threads"] = json!(threads);
        }
        let mut faults = vec![];
        for (lost, at) in fault_cases(&p, &mut rng, a.pick(1, 3)) {
            out.begin(&json!({"id": p.id, "threads": threads, "lost": lost, "at": at}));
            let cloud = Arc::new(Faulty::new(
                Cloud::new_simple(p.data(), p.dim, p.labels.clone()), lost.clone(), at));
            let (res, why) = match guard(|| p.builder(a).build(Arc::clone(&cloud)).map(|w| w.reader().node_count())) {
                Ok(Ok(_)) => ("tree", String::new()),
                Ok(Err(e)) => ("err", format!("{:?}", e)),
                Err(m) => ("panic", m),
            };
            // after an error the pool may still be reading: the count is taken only from finished builds
            faults.push(json!({"res": res, "why": why,
                               "reported": cloud.failures() > 0, "lost": lost, "at": at}));
        }
        out.emit(&json!({"id": p.id, "runs": runs, "faults": faults, "n": p.pts.len()}));
    }
}

pub fn run(a: &Args) {
    let mut merged: Vec<Value> = cases(a)
        .iter()
        .map(|p| {
            let mut v = p.json();
            v["runs"] = json!([]);
            v["faults"] = json!([]);
            v["crash"] = json!([]);
            v
        })
        .collect();
    let exe = std::env::current_exe().unwrap();
    let reps: Vec<(&str, usize)> = vec![("1", 0), ("2", 0), ("3", 0), ("8", 0), ("8", 1), ("5", 0), ("4", 0), ("16", 0)];
    let dirs: Vec<_> = reps
        .iter()
        .map(|(t, r)| {
            let d = a.out.join(format!("child-{}-{}", t, r));
            std::fs::create_dir_all(&d).unwrap();
            d
        })
        .collect();
    let kids: Vec<_> = reps
        .iter()
        .zip(&dirs)
        .map(|((t, _), d)| {
            std::process::Command::new(&exe)
                .arg("build-det-child")
                .arg(d)
                .env("RAYON_NUM_THREADS", t)
                .spawn()
                .unwrap()
        })
        .collect();
    for ((mut k, d), (t, _)) in kids.into_iter().zip(&dirs).zip(&reps) {
        let st = loop {
            beat();
            if let Some(s) = k.try_wait().unwrap() {
                break s;
            }
            std::thread::sleep(std::time::Duration::from_millis(50));
        };
        let f = std::fs::File::open(d.join("trace.ndjson")).unwrap();
        for line in std::io::BufReader::new(f).lines() {
            let v: Value = match serde_json::from_str(&line.unwrap()) {
                Ok(v) => v,
                Err(_) => continue,
            };
            let m = merged.iter_mut().find(|m| m["id"] == v["id"]).unwrap();
            for key in &["runs", "faults"] {
                let more = v[*key].as_array().unwrap().clone();
                m[*key].as_array_mut().unwrap().extend(more);
            }
        }
        if !st.success() {
            let cur: Value = std::fs::read_to_string(d.join("current.json"))
                .ok()
                .and_then(|s| serde_json::from_str(&s).ok())
                .unwrap_or(json!({"id": merged[0]["id"]}));
            if let Some(m) = merged.iter_mut().find(|m| m["id"] == cur["id"]) {
                m["crash"].as_array_mut().unwrap().push(json!({"threads": t, "status": format!("{:?}", st), "at": cur}));
            }
        }
        let _ = std::fs::remove_dir_all(d);
    }
    let mut out = Out::new(a, "trace");
    // distinct trees only: the specification compares them, not how often they came up
    for mut m in merged {
        let runs = m["runs"].as_array().unwrap().clone();
        let mut kept: Vec<Value> = vec![];
        for r in &runs {
            match kept.iter_mut().find(|k| k["res"] == r["res"] && k["tree"] == r["tree"]) {
                Some(k) => {
                    let c = k["times"].as_u64().unwrap() + 1;
                    k["times"] = json!(c);
                }
                None => {
                    let mut k = r.clone();
                    k["times"] = json!(1);
                    kept.push(k);
                }
            }
        }
        m["builds"] = json!(runs.len());
        m["runs"] = json!(kept);
        out.emit(&m);
    }
}
