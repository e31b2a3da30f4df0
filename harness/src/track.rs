//! Trackers on real trees: short programs of adding paths and appending trackers, everything observable after each step.
use crate::cases::*;
use crate::tree::problems;
use crate::util::*;
use goko::plugins::discrete::prelude::*;
use goko::plugins::gaussians::*;
use goko::*;
use rand::rngs::SmallRng;
use rand::Rng;
use serde_json::{json, Value};

type Path = Vec<(f32, NodeAddress)>;
type Tracker = BayesCategoricalTracker<Cloud>;

/// millionths, or -1 for what is not a number of a sensible size
fn micro(x: f64) -> i64 {
    if x.is_finite() && x.abs() < 2000.0 {
        (x * 1e6).round() as i64
    } else {
        -1
    }
}
fn probs(pv: Option<(Vec<(NodeAddress, f64)>, f64)>) -> Value {
    match pv {
        None => json!([]),
        Some((v, s)) => json!([{"kids": v.iter().map(|((a, b), x)| json!([a, b, micro(*x)])).collect::<Vec<_>>(), "stop": micro(s)}]),
    }
}
fn kls(t: &Tracker) -> Vec<(i32, usize, i64)> {
    let mut v: Vec<(i32, usize, i64)> = t.all_node_kl().iter().map(|(k, a)| (a.0, a.1, micro(*k))).collect();
    v.sort_unstable();
    v
}

fn stats(t: &Tracker) -> Value {
    let st = t.kl_div_stats();
    json!({"nz": st.nz_count, "m1": micro(st.moment1_nz), "m2": micro(st.moment2_nz), "m2h": (st.moment2_nz * 1e4).round() as i64, "max": if st.nz_count > 0 { micro(st.max) } else { 0 }, "min": if st.nz_count > 0 { micro(st.min) } else { 0 }, "len": st.sequence_len})
}

fn view(t: &Tracker, addrs: &[NodeAddress], fresh: &Tracker) -> Value {
    let mut ev: Vec<(NodeAddress, Value)> = t
        .running_evidence()
        .iter()
        .filter(|(_, c)| c.total() > 0.0)
        .map(|(a, c)| {
            let n = c.total();
            let (v, s) = c.prob_vector().unwrap();
            let kids: Vec<Value> = v.iter().map(|((x, y), p)| (x, y, (p * n).round() as i64)).filter(|k| k.2 != 0).map(|k| json!(k)).collect();
            (*a, json!({"s": a.0, "i": a.1, "kids": kids, "stop": (s * n).round() as i64}))
        })
        .collect();
    ev.sort_by_key(|x| x.0);
    let mut scales: Vec<i32> = t.reader().layers().map(|(s, _)| s).collect();
    scales.sort_by_key(|s| t.reader().parameters().internal_index(*s));
    let f = t.fractal_dim_stats();
    json!({
        "len": t.sequence_len(),
        "ev": ev.into_iter().map(|x| x.1).collect::<Vec<_>>(),
        "kl": kls(t), "fkl": kls(fresh),
        "div": micro(t.kl_div()), "fdiv": micro(fresh.kl_div()),
        "layers": scales.iter().zip(f.layer_totals.iter()).filter(|x| *x.1 > 0).collect::<Vec<_>>(),
        "weights": scales.iter().zip(f.weighted_layer_totals.iter()).filter(|x| *x.1 > 0.0).map(|(s, w)| (s, (w * 1000.0).round() as i64)).collect::<Vec<_>>(),
        "nlayers": [f.layer_totals.len(), f.weighted_layer_totals.len(), scales.len()],
        "flen": f.sequence_len,
        "stats": stats(t),
        "prob": addrs.iter().map(|a| json!({"s": a.0, "i": a.1, "post": probs(t.prob_vector(*a)), "evid": probs(t.evidence_prob_vector(*a))})).collect::<Vec<_>>(),
    })
}

/// A program on two trackers: short with small windows, or long with large ones.
fn program(p: &Problem, r: &CoverTreeReader<Cloud>, rng: &mut SmallRng, long: bool) -> GokoResult<Value> {
    let d = dump(r, p);
    let addrs: Vec<NodeAddress> = d["nodes"].as_array().unwrap().iter().map(|n| (n["s"].as_i64().unwrap() as i32, n["i"].as_u64().unwrap() as usize)).collect();
    // the paths the program draws from: of the dataset, of points near it, and the one that stops at the root
    let n = p.pts.len();
    let mut paths: Vec<Path> = vec![];
    for _ in 0..rng.gen_range(1..6) {
        let i = rng.gen_range(0..n);
        match rng.gen_range(0..4) {
            0 | 1 => paths.push(r.known_path(i)?),
            2 => {
                let mut x = p.pts[i].clone();
                x[rng.gen_range(0..p.dim)] += rng.gen_range(-6..7);
                let c = p.coords(&x);
                let px: &[f32] = &c;
                paths.push(r.path(&px)?);
            }
            _ => {
                let f = r.known_path(i)?;
                let k = rng.gen_range(1..=f.len());
                paths.push(f[..k].to_vec());
            }
        }
    }
    let choice = if long { [0usize, 7, 30, 64, 120] } else { [0usize, 1, 2, 3, 5] };
    let wins: Vec<usize> = (0..2).map(|_| choice[rng.gen_range(0..5)]).collect();
    let mut sizes = [0usize; 2];
    let mut steps = vec![];
    let len = if long { rng.gen_range(60..180) } else { rng.gen_range(1..14) };
    let (add, show) = if long { (0.02, 0.015) } else { (0.15, 0.4) };
    for k in 0..len {
        let t = rng.gen_range(0..2usize);
        let u = 1 - t;
        let app = rng.gen_bool(add) && sizes[t] + sizes[u] < 230 && (wins[t] == 0 || wins[u] > 0);
        sizes[t] += if app { sizes[u] } else { 1 };
        if wins[t] > 0 {
            sizes[t] = sizes[t].min(wins[t]);
        }
        steps.push((app, t, rng.gen_range(0..paths.len()), rng.gen_bool(show) || k + 1 == len));
    }
    Ok(execute(&d, r, &addrs, &wins, &paths, &steps))
}

/// Runs a program: steps (append or add, to which tracker, which path, whether to look afterwards).
fn execute(d: &Value, r: &CoverTreeReader<Cloud>, addrs: &[NodeAddress], wins: &[usize], paths: &[Path], steps: &[(bool, usize, usize, bool)]) -> Value {
    let mut ts: Vec<Tracker> = wins.iter().map(|w| BayesCategoricalTracker::new(*w, r.clone())).collect();
    let mut live: Vec<Vec<Path>> = vec![vec![]; 2];
    let mut ops = vec![];
    for (app, t, q, show) in steps.iter().copied() {
        let u = 1 - t;
        if app {
            let mine = std::mem::replace(&mut ts[t], BayesCategoricalTracker::new(wins[t], r.clone()));
            ts[t] = mine.append(&ts[u]);
            let more = live[u].clone();
            live[t].extend(more);
        } else {
            ts[t].add_path(paths[q].clone());
            live[t].push(paths[q].clone());
        }
        while wins[t] > 0 && live[t].len() > wins[t] {
            live[t].remove(0);
        }
        let now: Vec<Value> = if show {
            (0..2)
                .map(|t| {
                    let mut fresh = BayesCategoricalTracker::new(wins[t], r.clone());
                    live[t].iter().for_each(|x| fresh.add_path(x.clone()));
                    view(&ts[t], addrs, &fresh)
                })
                .collect()
        } else {
            vec![]
        };
        ops.push(json!({"app": app, "t": t, "q": q, "now": now}));
    }
    let paths: Vec<Vec<NodeAddress>> = paths.iter().map(|x| x.iter().map(|y| y.1).collect()).collect();
    let nodes: Vec<Value> = d["nodes"].as_array().unwrap().iter().map(|n| json!({"s": n["s"], "i": n["i"], "nest": n["nest"], "kids": n["kids"], "sing": n["sing"]})).collect();
    json!({"nodes": nodes, "root": d["root"], "wins": wins, "paths": paths, "ops": ops})
}

/// The behaviours TLC enumerated from the specification, each replayed on a real tree.
pub fn replay(a: &Args) {
    let mut out = Out::new(a, "trace");
    let mut rng = a.rng(142);
    let mut trees = vec![];
    for k in 0.. {
        let p = random_problem(&mut rng, format!("small-{}", k), 6);
        let made = guard(|| -> GokoResult<_> {
            let mut tree = p.builder(a).build(p.cloud())?;
            tree.add_plugin(GokoDirichlet::default());
            Ok(tree)
        });
        let tree = match made {
            Ok(Ok(t)) => t,
            // trees that cannot be made are the business of other checks
            _ if k < 2000 => continue,
            _ => panic!("no trees"),
        };
        let r = tree.reader();
        // four different paths, among them the one that ends at the root
        let mut paths: Vec<Path> = vec![];
        for i in 0..p.pts.len() {
            let f = r.known_path(i).unwrap_or_default();
            for l in 1..=f.len() {
                let x = f[..l].to_vec();
                let same = |y: &Path| y.iter().map(|z| z.1).eq(x.iter().map(|z| z.1));
                if !paths.iter().any(same) {
                    paths.push(x);
                }
            }
        }
        if paths.len() < 4 && k < 2000 {
            continue;
        }
        let first = paths.remove(0);
        paths.sort_by_key(|x| std::cmp::Reverse(x.len()));
        paths.truncate(3);
        paths.push(first);
        let d = dump(&r, &p);
        let addrs: Vec<NodeAddress> = d["nodes"].as_array().unwrap().iter().map(|n| (n["s"].as_i64().unwrap() as i32, n["i"].as_u64().unwrap() as usize)).collect();
        if addrs.len() <= 9 {
            trees.push((tree, d, addrs, paths));
        }
        if trees.len() == 12 {
            break;
        }
    }
    for (k, prog) in a.programs().iter().enumerate() {
        let (tree, d, addrs, paths) = &trees[(k ^ (k >> 3) ^ (k >> 7)) % trees.len()];
        let wins: Vec<usize> = (0..2).map(|t| prog[0][t].as_u64().unwrap() as usize).collect();
        let ops = prog[1].as_array().unwrap();
        let steps: Vec<(bool, usize, usize, bool)> = ops
            .iter()
            .enumerate()
            .map(|(j, o)| {
                let q = o[1].as_u64().unwrap() as usize;
                (q == 0, o[0].as_u64().unwrap() as usize - 1, if q == 0 { 0 } else { (q - 1) % paths.len() }, j + 1 == ops.len() || (k + j) % 5 == 0)
            })
            .collect();
        let mut rec = json!({"id": format!("gen-{}", k), "params": prog.to_string()});
        out.begin(&rec);
        settle(&mut rec, guard(|| Ok(execute(d, &tree.reader(), addrs, &wins, paths, &steps))));
        rec["kind"] = json!("track");
        out.emit(&rec);
    }
}

fn milli(x: (f64, f64)) -> [i64; 2] {
    let f = |x: f64| if x.is_finite() && x.abs() < 2e6 { (x * 1000.0).round() as i64 } else { -1 };
    [f(x.0), f(x.1)]
}
fn five(s: &KLDivergenceBaselineStats) -> Vec<[i64; 2]> {
    vec![milli(s.max), milli(s.min), milli(s.nz_count), milli(s.moment1_nz), milli(s.moment2_nz)]
}

/// What a baseline says about lengths it has samples for, between them, before and after.
fn baseline(rng: &mut SmallRng) -> Value {
    let n = rng.gen_range(1..5usize);
    let len = rng.gen_range(0..5usize);
    let mut lens: Vec<usize> = (0..len).map(|_| rng.gen_range(1..20)).collect();
    lens.sort_unstable();
    lens.dedup();
    let samples: Vec<Vec<Vec<i64>>> = lens.iter().map(|_| (0..5).map(|_| (0..n).map(|_| rng.gen_range(0..12)).collect()).collect()).collect();
    let sums: Vec<Vec<[i64; 2]>> = samples.iter().map(|s| s.iter().map(|v| [v.iter().sum::<i64>(), v.iter().map(|x| x * x).sum::<i64>()]).collect()).collect();
    let b = KLDivergenceBaseline {
        num_sequences: n,
        sequence_len: lens.clone(),
        stats: sums
            .iter()
            .map(|s| {
                let f = |k: usize| (s[k][0] as f64, s[k][1] as f64);
                KLDivergenceBaselineStats { max: f(0), min: f(1), nz_count: f(2), moment1_nz: f(3), moment2_nz: f(4) }
            })
            .collect(),
    };
    let asks: Vec<Value> = (0..25).map(|i| json!({"i": i, "got": five(&b.stats(i))})).collect();
    json!({"kind": "base", "n": n, "lens": lens, "sums": sums, "asks": asks})
}

/// Training over the whole data set ends, in every order, in the same place.
fn train(p: &Problem, r: &CoverTreeReader<Cloud>, rng: &mut SmallRng) -> GokoResult<Value> {
    let n = p.pts.len();
    let cap = if rng.gen_bool(0.5) { 0 } else { rng.gen_range(1..n + 2) };
    let rate = if rng.gen_bool(0.5) { 1 } else { rng.gen_range(1..n + 2) };
    let nseq = rng.gen_range(1..5);
    let mut b = DirichletBaseline::default();
    b.set_sequence_len(cap);
    b.set_sample_rate(rate);
    b.set_num_sequences(nseq);
    let base = b.train(r.clone())?;
    let mut t: Tracker = BayesCategoricalTracker::new(0, r.clone());
    for i in 0..n {
        t.add_path(r.known_path(i)?);
    }
    let s = t.kl_div_stats();
    let all = if s.nz_count > 0 { [s.max, s.min, s.nz_count as f64, s.moment1_nz, s.moment2_nz].iter().map(|x| milli((*x, 0.0))[0]).collect::<Vec<_>>() } else { vec![] };
    Ok(json!({"kind": "train", "n": n, "cap": cap, "rate": rate, "nseq": nseq, "gotseq": base.num_sequences, "lens": base.sequence_len, "nstats": base.stats.len(),
        "last": if base.sequence_len.contains(&n) { json!([five(&base.stats(n))]) } else { json!([]) }, "all": all}))
}

/// ln of a probability in millionths: nothing if there is none, 1 for no probability at all
fn lnp(x: Option<f64>) -> Value {
    match x {
        None => json!([]),
        Some(x) if x == f64::NEG_INFINITY => json!([1]),
        Some(x) if x <= 1e-9 => json!([(x * 1e6).round() as i64]),
        _ => json!([2]),
    }
}
fn maybe(x: Option<f64>) -> Value {
    x.map(|x| json!([micro(x)])).unwrap_or(json!([]))
}
/// counts per outcome (children, then stopping), from a probability vector
fn counts(outs: &[NodeAddress], total: f64, pv: Option<(Vec<(NodeAddress, f64)>, f64)>) -> Vec<i64> {
    match pv {
        None => vec![0; outs.len() + 1],
        Some((v, s)) => {
            let mut c: Vec<i64> = outs.iter().map(|o| v.iter().filter(|x| x.0 == *o).map(|x| (x.1 * total).round() as i64).sum()).collect();
            c.push((s * total).round() as i64);
            if v.iter().any(|x| !outs.contains(&x.0)) {
                c.push(-1);
            }
            c
        }
    }
}
fn outcome(outs: &[NodeAddress], x: Option<NodeAddress>) -> usize {
    match x {
        None => outs.len() + 1,
        Some(a) => outs.iter().position(|o| *o == a).map(|k| k + 1).unwrap_or(0),
    }
}

/// The distributions of one node, as data set and as seen by two trackers: probabilities, divergences, samples.
fn distributions(p: &Problem, r: &CoverTreeReader<Cloud>, rng: &mut SmallRng) -> GokoResult<Value> {
    let n = p.pts.len();
    // a window forgets: what was seen once may be left with a count of zero
    let mut ts: Vec<Tracker> = (0..2).map(|_| BayesCategoricalTracker::new(if rng.gen_bool(0.5) { 0 } else { rng.gen_range(1..4) }, r.clone())).collect();
    let mut last = vec![];
    for t in ts.iter_mut() {
        for _ in 0..rng.gen_range(0..9) {
            last = r.known_path(rng.gen_range(0..n))?;
            let k = if rng.gen_bool(0.15) { rng.gen_range(1..=last.len()) } else { last.len() };
            t.add_path(last[..k].to_vec());
        }
    }
    let na = if last.is_empty() || rng.gen_bool(0.5) { r.root_address() } else { last[rng.gen_range(0..last.len())].1 };
    let outs: Vec<NodeAddress> = r
        .get_node_and(na, |x| match x.children() {
            Some((s, c)) => std::iter::once((s, *x.center_index())).chain(c.iter().copied()).collect(),
            None => vec![],
        })
        .unwrap_or_default();
    let cat: Categorical = r.get_node_plugin_and::<Categorical, _, _>(na, |c| c.clone()).unwrap_or_default();
    let dir: Dirichlet = r.get_node_plugin_and::<Dirichlet, _, _>(na, |c| c.clone()).unwrap_or_default();
    let seen = |t: &Tracker| t.running_evidence().get(&na).cloned().unwrap_or_default();
    let cats = vec![cat, seen(&ts[0]), seen(&ts[1])];
    let strange = (na.0 - 40, na.1);
    let asked: Vec<Option<NodeAddress>> = outs.iter().map(|x| Some(*x)).chain(vec![None, Some(strange)]).collect();
    let mut more = dir.clone();
    more.add_evidence(&cats[1]);
    let mut one = dir.clone();
    let c1 = counts(&outs, cats[1].total(), cats[1].prob_vector());
    for (k, c) in c1.iter().enumerate() {
        (0..*c).for_each(|_| one.add_observation(if k < outs.len() { Some(outs[k]) } else { None }));
    }
    let mut half = dir.clone();
    half.weight(0.5);
    // evidence for outcomes a distribution knows nothing of
    let mut fresh = Dirichlet::new();
    fresh.add_evidence(&cats[1]);
    let mut fresh1 = Dirichlet::new();
    for (k, c) in c1.iter().enumerate() {
        (0..*c).for_each(|_| fresh1.add_observation(if k < outs.len() { Some(outs[k]) } else { None }));
    }
    let mut dirs = vec![dir.clone(), more.clone(), one, half];
    if cats[1].total() > 0.0 {
        dirs.push(fresh);
        dirs.push(fresh1);
    }
    let mut smp = vec![];
    if cats[0].total() > 0.0 {
        smp.push((0..80).map(|_| outcome(&outs, cats[0].sample(rng))).collect::<Vec<_>>());
        smp.push((0..80).map(|_| outcome(&outs, dir.sample(rng))).collect::<Vec<_>>());
    }
    let lv = |d: &Dirichlet| match d.ln_prob_vector() {
        None => json!([]),
        Some((v, s)) => json!(asked.iter().map(|o| match o {
            Some(a) => v.iter().find(|x| x.0 == *a).map(|x| lnp(Some(x.1))).unwrap_or(json!([])),
            None => lnp(Some(s)),
        }).collect::<Vec<_>>()),
    };
    Ok(json!({"kind": "dist", "outs": outs.len(),
        "cats": cats.iter().map(|c| json!({"n": counts(&outs, c.total(), c.prob_vector()), "tot": micro(c.total()), "pdf": asked.iter().map(|o| lnp(c.ln_pdf(o.as_ref()))).collect::<Vec<_>>()})).collect::<Vec<_>>(),
        "kl": cats.iter().map(|c| cats.iter().map(|d| maybe(c.kl_divergence(d))).collect::<Vec<_>>()).collect::<Vec<_>>(),
        "dirs": dirs.iter().map(|c| json!({"n": counts(&outs, 2.0 * c.total(), c.prob_vector()), "tot": micro(c.total()), "pdf": asked.iter().map(|o| lnp(c.ln_pdf(o.as_ref()))).collect::<Vec<_>>(), "lv": lv(c)})).collect::<Vec<_>>(),
        "dkl": [maybe(dir.kl_divergence(&dir)), maybe(dir.kl_divergence(&more)), maybe(dir.posterior_kl_divergence(&cats[1])), maybe(dir.posterior_kl_divergence(&cats[2])),
            maybe(more.kl_divergence(&dir))],
        "smp": smp}))
}

/// Three diagonal Gaussians made of the points mean - spread and mean + spread, each `copies` times: their mean and standard deviation are whole.
fn gaussians(rng: &mut SmallRng) -> GokoResult<Value> {
    let dim = rng.gen_range(1..5usize);
    let flat = rng.gen_bool(0.15);
    let mut gs = vec![];
    let mut shown = vec![];
    for _ in 0..3 {
        let m: Vec<i64> = (0..dim).map(|_| rng.gen_range(-6..7)).collect();
        let s: Vec<i64> = (0..dim).map(|_| rng.gen_range(if flat { 0 } else { 1 }..9)).collect();
        let copies = if rng.gen_bool(0.07) { 0 } else { rng.gen_range(1..5) };
        let mut g = DiagGaussian::new(dim);
        for _ in 0..copies {
            for d in [-1, 1].iter() {
                let x: Vec<f32> = m.iter().zip(&s).map(|(m, s)| (m + d * s) as f32).collect();
                let x: &[f32] = &x;
                g.add_point(&x);
            }
        }
        gs.push(g);
        shown.push(json!({"m": m, "s": s, "n": 2 * copies}));
    }
    let x: Vec<i64> = (0..dim).map(|_| rng.gen_range(-9..10)).collect();
    let xf: Vec<f32> = x.iter().map(|v| *v as f32).collect();
    let xr: &[f32] = &xf;
    let draws = 3000;
    let mut m1 = vec![0f64; dim];
    let mut m2 = vec![0f64; dim];
    let mut sizes = vec![];
    if gs[0].count() > 0 {
        for _ in 0..draws {
            let v = gs[0].sample(rng);
            sizes.push(v.len());
            for (k, c) in v.iter().enumerate().take(dim) {
                m1[k] += *c as f64 / draws as f64;
                m2[k] += (*c as f64) * (*c as f64) / draws as f64;
            }
        }
    }
    sizes.sort_unstable();
    sizes.dedup();
    Ok(json!({"kind": "gauss", "dim": dim, "gs": shown, "x": x, "sizes": sizes,
        "kl": gs.iter().map(|c| gs.iter().map(|d| maybe(c.kl_divergence(d))).collect::<Vec<_>>()).collect::<Vec<_>>(),
        "pdf": gs.iter().map(|c| maybe(c.ln_pdf(&xr))).collect::<Vec<_>>(),
        "m1": m1.iter().map(|x| (x * 1000.0).round() as i64).collect::<Vec<_>>(),
        "m2": m2.iter().map(|x| (x * 1000.0).round() as i64).collect::<Vec<_>>()}))
}

/// The statistics of a tracker over a cloud so large that a path moves its nodes very little.
fn large(a: &Args, k: usize, rng: &mut SmallRng) -> GokoResult<Value> {
    let mut p = random_problem(rng, format!("stats-{}", k), 5);
    p.dim = 2;
    p.pts = (0..20000).map(|_| (0..2).map(|_| rng.gen_range(-400..=400)).collect()).collect();
    p.labels = vec![0; p.pts.len()];
    p.leaf = 400;
    p.q = 1;
    let mut tree = p.builder(a).build(p.cloud())?;
    tree.add_plugin(GokoDirichlet::default());
    let r = tree.reader();
    let mut t: Tracker = BayesCategoricalTracker::new(0, r.clone());
    let mut at = vec![];
    for _ in 0..6 {
        t.add_path(r.known_path(rng.gen_range(0..20000))?);
        at.push(json!({"kl": kls(&t), "stats": stats(&t)}));
    }
    Ok(json!({"kind": "stats", "at": at}))
}

pub fn run(a: &Args) {
    let mut out = Out::new(a, "trace");
    let mut rng = a.rng(140);
    let mut ps = problems(a, 141, a.pick((3, 2, 0), (4, 3, 1)), a.pick(900, 8000), a.pick(9, 14));
    for k in 0..a.pick(60, 600) {
        let mut p = random_problem(&mut rng, format!("long-{}", k), 40);
        p.leaf = p.leaf.max(2);
        ps.push(p);
    }
    for p in ps.iter() {
        let mut rec = json!({"id": p.id, "params": format!("{:?}", p)});
        out.begin(&rec);
        let rng = &mut rng;
        let r = guard(|| {
            let mut tree = p.builder(a).build(p.cloud())?;
            tree.add_plugin(GokoDirichlet::default());
            program(p, &tree.reader(), rng, p.id.starts_with("long"))
        });
        settle(&mut rec, r);
        rec["kind"] = json!("track");
        if rec["ok"] == json!(true) && rec["nodes"].as_array().unwrap().len() > 25 {
            continue;
        }
        out.emit(&rec);
        if p.id.starts_with("rnd") && p.id.len() % 2 == 0 {
            let mut rec = json!({"id": format!("train-{}", p.id), "params": format!("{:?}", p)});
            out.begin(&rec);
            let r = guard(|| {
                let mut tree = p.builder(a).build(p.cloud())?;
                tree.add_plugin(GokoDirichlet::default());
                train(p, &tree.reader(), rng)
            });
            settle(&mut rec, r);
            out.emit(&rec);
        }
    }
    for p in ps.iter().filter(|p| p.id.starts_with("rnd")) {
        let mut rec = json!({"id": format!("dist-{}", p.id), "params": format!("{:?}", p)});
        out.begin(&rec);
        let rng = &mut rng;
        let r = guard(|| {
            let mut tree = p.builder(a).build(p.cloud())?;
            tree.add_plugin(GokoDirichlet::default());
            tree.add_plugin(GokoCategorical {});
            distributions(p, &tree.reader(), rng)
        });
        settle(&mut rec, r);
        out.emit(&rec);
    }
    for k in 0..a.pick(2, 12) {
        let mut rec = json!({"id": format!("stats-{}", k)});
        out.begin(&rec);
        let rng = &mut rng;
        settle(&mut rec, guard(|| large(a, k, rng)));
        out.emit(&rec);
    }
    for k in 0..a.pick(200, 2000) {
        let mut rec = json!({"id": format!("gauss-{}", k)});
        out.begin(&rec);
        let rng = &mut rng;
        settle(&mut rec, guard(|| gaussians(rng)));
        out.emit(&rec);
    }
    for k in 0..a.pick(150, 2000) {
        let mut rec = json!({"id": format!("base-{}", k)});
        out.begin(&rec);
        let rng = &mut rng;
        settle(&mut rec, guard(|| Ok(baseline(rng))));
        out.emit(&rec);
    }
}

pub fn settle(rec: &mut Value, r: Result<GokoResult<Value>, String>) {
    rec["ok"] = json!(false);
    match r {
        Ok(Ok(v)) => {
            for (k, x) in v.as_object().unwrap() {
                rec[k] = x.clone();
            }
            rec["ok"] = json!(true);
        }
        Ok(Err(e)) => rec["why"] = json!(format!("{:?}", e)),
        Err(m) => rec["why"] = json!(m),
    }
}
