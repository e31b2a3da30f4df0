//! Point clouds without a tree: gluing (C18), labels and summaries (C19), distances (C20), loaders (C21).
use crate::util::*;
use goko::CoverTreeBuilder;
use pointcloud::data_sources::*;
use pointcloud::glued_data_cloud::HashGluedCloud;
use pointcloud::label_sources::*;
use pointcloud::loaders::*;
use pointcloud::metrics::*;
use pointcloud::pc_errors::*;
use pointcloud::points::*;
use pointcloud::summaries::*;
use pointcloud::*;
use rand::rngs::SmallRng;
use rand::seq::SliceRandom;
use rand::Rng;
use serde_json::{json, Value};
use std::ops::Deref;
use std::sync::Arc;

/// m such that sqrt(m) is the reported L2 distance, over integer coordinates
fn sq(d: f32) -> i64 {
    let x = d as f64;
    let m = (x * x).round();
    if m.is_finite() && (m.sqrt() - x).abs() <= 1e-6 * (1.0 + x.abs()) && m < 2.1e9 {
        m as i64
    } else {
        -1
    }
}
/// an integer held in a float, or a value nothing equals
fn int(d: f64) -> i64 {
    if d.is_finite() && d.fract() == 0.0 && d.abs() < 2.1e9 {
        d as i64
    } else {
        -2_000_000_011
    }
}
fn ints<'a>(v: impl IntoIterator<Item = &'a f32>) -> Vec<i64> {
    v.into_iter().map(|x| int(*x as f64)).collect()
}
fn opt<T>(o: Option<T>) -> Vec<T> {
    o.into_iter().collect()
}
/// Outcome of a call: {"r": "ok" | "err" | "panic", "v": value or []}
fn outcome<T>(f: impl FnOnce() -> PointCloudResult<T>, show: impl FnOnce(T) -> Value) -> Value {
    match guard(|| f().map(show)) {
        Ok(Ok(v)) => json!({"r": "ok", "v": v}),
        Ok(Err(_)) => json!({"r": "err", "v": []}),
        Err(m) => json!({"r": "panic", "v": [], "why": m}),
    }
}
fn cat(s: &SummaryCounter<CategorySummary>) -> Value {
    let mut items: Vec<(i64, usize)> = s.summary().items.iter().map(|x| (units(x.0), x.1)).collect();
    items.sort_unstable();
    json!({"items": items, "nones": s.nones(), "errors": s.errors(), "count": s.count()})
}

// ---------------------------------------------------------------- gluing

#[derive(Debug)]
struct Names(Vec<String>);
impl NamedSet for Names {
    fn len(&self) -> usize {
        self.0.len()
    }
    fn is_empty(&self) -> bool {
        self.0.is_empty()
    }
    fn name(&self, pi: usize) -> PointCloudResult<String> {
        self.0.get(pi).cloned().ok_or(PointCloudError::UnknownName)
    }
    fn index(&self, pn: &str) -> PointCloudResult<usize> {
        self.0.iter().position(|n| n == pn).ok_or(PointCloudError::UnknownName)
    }
    fn names(&self) -> Vec<String> {
        self.0.clone()
    }
}

type Part = SimpleNamedCloud<SimpleLabeledCloud<Tagged, SmallIntLabels>, Names>;

/// A source that has something else to say of some of its rows.
struct Tagged(DataRam<L2>, Vec<Option<i64>>);
impl PointCloud for Tagged {
    type Point = [f32];
    type PointRef<'a> = &'a [f32];
    type Metric = L2;
    type Label = ();
    type LabelSummary = ();
    type Metadata = i64;
    type MetaSummary = IntSummary;
    fn metadata(&self, pn: usize) -> PointCloudResult<Option<&i64>> {
        self.1.get(pn).map(|x| x.as_ref()).ok_or(PointCloudError::UnknownName)
    }
    fn metasummary(&self, pns: &[usize]) -> PointCloudResult<SummaryCounter<IntSummary>> {
        let mut s = SummaryCounter::<IntSummary>::default();
        for i in pns {
            s.add(self.metadata(*i));
        }
        Ok(s)
    }
    fn label(&self, pn: usize) -> PointCloudResult<Option<&()>> {
        self.0.label(pn)
    }
    fn label_summary(&self, pns: &[usize]) -> PointCloudResult<SummaryCounter<()>> {
        self.0.label_summary(pns)
    }
    fn name(&self, pi: usize) -> PointCloudResult<String> {
        self.0.name(pi)
    }
    fn index(&self, pn: &str) -> PointCloudResult<usize> {
        self.0.index(pn)
    }
    fn names(&self) -> Vec<String> {
        self.0.names()
    }
    fn len(&self) -> usize {
        self.0.len()
    }
    fn is_empty(&self) -> bool {
        self.0.is_empty()
    }
    fn dim(&self) -> usize {
        self.0.dim()
    }
    fn reference_indexes(&self) -> Vec<usize> {
        self.0.reference_indexes()
    }
    fn point<'a, 'b: 'a>(&'b self, i: usize) -> PointCloudResult<&'a [f32]> {
        self.0.point(i)
    }
}
/// Meta data, if there is any, as numbers.
trait Tag {
    fn tag(&self) -> i64;
}
impl Tag for () {
    fn tag(&self) -> i64 {
        -1
    }
}
impl Tag for i64 {
    fn tag(&self) -> i64 {
        *self
    }
}
trait Tags {
    fn tags(&self) -> [i64; 3];
}
impl Tags for () {
    fn tags(&self) -> [i64; 3] {
        [0, 0, 0]
    }
}
impl Tags for IntSummary {
    fn tags(&self) -> [i64; 3] {
        [self.count as i64, self.moment1, self.moment2]
    }
}

fn random_index_list(rng: &mut SmallRng, known: &[usize], wild: bool) -> Vec<usize> {
    let n = match rng.gen_range(0..8) {
        0 => 0,
        1 => 1,
        2 => rng.gen_range(300..330),
        _ => rng.gen_range(1..=2 * known.len().max(1)),
    };
    let mut v: Vec<usize> = if known.is_empty() {
        vec![]
    } else {
        (0..n).map(|_| known[rng.gen_range(0..known.len())]).collect()
    };
    if wild && !v.is_empty() {
        let k = rng.gen_range(0..v.len());
        v[k] = known.iter().max().unwrap() + 1 + rng.gen_range(0..3);
    }
    v
}

pub fn glue(a: &Args) {
    let mut out = Out::new(a, "trace");
    let mut rng = a.rng(18);
    // the last ones are small
    let mixed = a.pick(240, 3000);
    for k in 0..mixed + a.pick(700, 6000) {
        let dim = rng.gen_range(1..5);
        // every eighth is a source by itself
        let single = k % 16 == 3 || k % 16 == 6 || k % 16 == 10;
        let bare = k % 16 == 10; // labels, but no names of its own
        // a few of many sources or of long ones
        let large = k < mixed && (k % 20 == 13 || k % 20 == 4);
        let nsrc = if single { 1 } else if large { [24, 2][k % 2] } else { [1, 1, 2, 2, 3, 4, 6][rng.gen_range(0..7)] };
        let plain = k % 4 == 3; // the names of plain sources are their row numbers, which collide
        let mut src: Vec<Vec<(Vec<i64>, Vec<i64>, String)>> = vec![];
        let mut c = 0;
        for _ in 0..nsrc {
            let n = if rng.gen_bool(0.15) { 0 } else if large && nsrc < 3 { rng.gen_range(260..300) } else { rng.gen_range(1..if large || k >= mixed { 3 } else { 7 }) };
            src.push(
                (0..n)
                    .map(|j| {
                        c += 1;
                        let x = (0..dim).map(|_| rng.gen_range(-9..10)).collect();
                        let lab = if plain || rng.gen_bool(0.3) { vec![] } else { vec![rng.gen_range(0..3)] };
                        (x, lab, if plain || bare { format!("{}", j) } else { format!("p{}", (c * 7) % 1009) })
                    })
                    .collect(),
            );
        }
        if src.iter().all(|s| s.is_empty()) {
            continue;
        }
        let tags: Vec<Vec<Option<i64>>> = src.iter().map(|s| s.iter().map(|_| if plain || rng.gen_bool(0.3) { None } else { Some(rng.gen_range(-20..20)) }).collect()).collect();
        let mut rec = json!({"id": format!("glue-{}", k), "dim": dim, "plain": plain, "single": single, "rows": plain || bare,
            "src": src.iter().zip(&tags).map(|(s, t)| s.iter().zip(t).map(|((x, l, n), t)| json!({"x": x, "lab": l, "name": n, "tag": opt(*t)})).collect::<Vec<_>>()).collect::<Vec<_>>()});
        out.begin(&rec);
        let coords = |s: &Vec<(Vec<i64>, Vec<i64>, String)>| -> Vec<f32> { s.iter().flat_map(|(x, _, _)| x.iter().map(|v| *v as f32)).collect() };
        let r = guard(|| {
            if plain {
                let mut parts: Vec<DataRam<L2>> = src.iter().map(|s| DataRam::new(coords(s), dim).unwrap()).collect();
                if single && k / 16 % 2 == 0 {
                    let f = a.scratch("glue.dat");
                    write_f32(&f, &src[0].iter().flat_map(|(x, _, _)| x.iter().copied()).collect::<Vec<_>>(), 0);
                    let m = DataMemmap::<L2>::new(dim, &f).unwrap();
                    return glued(&mut rng, m, c, dim, None, |_| none_sum(), |_| json!({"r": "ok", "v": []}));
                }
                if single {
                    return glued(&mut rng, parts.remove(0), c, dim, None, |_| none_sum(), |_| json!({"r": "ok", "v": []}));
                }
                let g = HashGluedCloud::new(parts);
                glued(&mut rng, g, c, dim, Some(reindexed), |_| none_sum(), |_| json!({"r": "ok", "v": []}))
            } else if bare {
                let mask: Vec<bool> = src[0].iter().map(|(_, l, _)| !l.is_empty()).collect();
                let labs = src[0].iter().map(|(_, l, _)| l.first().copied().unwrap_or(77)).collect();
                labeled(&mut rng, SimpleLabeledCloud::new(Tagged(DataRam::<L2>::new(coords(&src[0]), dim).unwrap(), tags[0].clone()), SmallIntLabels::new(labs, Some(mask))), c, dim, None)
            } else {
                let mut parts: Vec<Part> = src
                    .iter()
                    .zip(&tags)
                    .map(|(s, t)| {
                        let mask: Vec<bool> = s.iter().map(|(_, l, _)| !l.is_empty()).collect();
                        let labs = s.iter().map(|(_, l, _)| l.first().copied().unwrap_or(77)).collect();
                        let mask = if mask.iter().all(|m| *m) && rng.gen_bool(0.5) { None } else { Some(mask) };
                        SimpleNamedCloud::new(
                            SimpleLabeledCloud::new(Tagged(DataRam::new(coords(s), dim).unwrap(), t.clone()), SmallIntLabels::new(labs, mask)),
                            Names(s.iter().map(|(_, _, n)| n.clone()).collect()),
                        )
                    })
                    .collect();
                if single {
                    labeled(&mut rng, parts.remove(0), c, dim, None)
                } else if k % 4 == 1 && parts.len() >= 3 && parts[0].len() > 0 {
                    // a glued cloud of glued clouds
                    let cut = 1 + rng.gen_range(0..parts.len() - 1);
                    let tail = parts.split_off(cut);
                    let g = HashGluedCloud::new(vec![HashGluedCloud::new(parts), HashGluedCloud::new(tail)]);
                    labeled(&mut rng, g, c, dim, Some(reindexed))
                } else {
                    labeled(&mut rng, HashGluedCloud::new(parts), c, dim, Some(reindexed))
                }
            }
        });
        match r {
            Ok(v) => {
                for (k, x) in v.as_object().unwrap() {
                    rec[k] = x.clone();
                }
                rec["ok"] = json!(true);
            }
            Err(m) => {
                rec["ok"] = json!(false);
                rec["panic"] = json!(m);
            }
        }
        out.emit(&rec);
    }
}

fn none_sum() -> Value {
    json!({"r": "ok", "v": {"items": [], "nones": 0, "errors": 0, "count": 0}})
}
fn reindexed<D>(g: &mut HashGluedCloud<D>, pairs: &[(usize, usize)]) -> bool {
    g.reindex(pairs).is_ok()
}

fn labeled<G>(rng: &mut SmallRng, g: G, n: usize, dim: usize, re: Option<fn(&mut G, &[(usize, usize)]) -> bool>) -> Value
where
    G: PointCloud<Point = [f32], Label = i64, LabelSummary = CategorySummary>,
    G::Metadata: Tag,
    G::MetaSummary: Tags,
{
    // the closures need the cloud that `glued` owns, so it hands it back
    glued(
        rng,
        g,
        n,
        dim,
        re,
        |(g, pns)| outcome(|| g.label_summary(pns), |s| cat(&s)),
        |(g, i)| outcome(|| g.label(i).map(|o| o.copied()), |o| json!(opt(o))),
    )
}

fn glued<G>(
    rng: &mut SmallRng,
    mut g: G,
    n: usize,
    dim: usize,
    re: Option<fn(&mut G, &[(usize, usize)]) -> bool>,
    summary: impl Fn((&G, &[usize])) -> Value,
    label: impl Fn((&G, usize)) -> Value,
) -> Value
where
    G: PointCloud<Point = [f32]>,
    G::Metadata: Tag,
    G::MetaSummary: Tags,
{
    // re-indexings, some of which name an index that is not there
    let mut known: Vec<usize> = (0..n).collect();
    let mut ops = vec![];
    for _ in 0..if re.is_some() { [0, 0, 1, 2][rng.gen_range(0..4)] } else { 0 } {
        let mut fresh: Vec<usize> = if rng.gen_bool(0.5) {
            known.clone()
        } else {
            let off = if rng.gen_bool(0.8) { rng.gen_range(0..20) } else { rng.gen_range(0..1 << 30) };
            let step = if rng.gen_bool(0.8) { 3 } else { 256 };
            (0..n).map(|i| off + step * i).collect()
        };
        fresh.shuffle(rng);
        let mut pairs: Vec<(usize, usize)> = known.iter().copied().zip(fresh.iter().copied()).collect();
        let bad = rng.gen_bool(0.25);
        if bad {
            let k = rng.gen_range(0..pairs.len());
            pairs[k].0 = known.iter().max().unwrap() + 5;
        }
        if !bad && rng.gen_bool(0.15) {
            // one row twice, another not at all
            let (j, k) = (rng.gen_range(0..pairs.len()), rng.gen_range(0..pairs.len()));
            pairs[k].0 = pairs[j].0;
        }
        let r = (re.unwrap())(&mut g, &pairs);
        ops.push(json!({"pairs": pairs, "ok": r}));
        if r && !bad {
            known = fresh;
        }
    }
    let top = known.iter().max().copied().unwrap_or(0);
    let mut ask: Vec<usize> = known.clone();
    ask.push(top + 1);
    ask.push(top + 1000);
    ask.extend((0..=top).filter(|i| !known.contains(i)).take(4).collect::<Vec<_>>());
    let points: Vec<Value> = ask
        .iter()
        .map(|i| {
            let p = outcome(|| g.point(*i).map(|p| p.to_vec()), |p| json!(ints(&p)));
            let arr = outcome(|| g.point_dense_array(*i), |p| json!(ints(p.iter())));
            let nm = outcome(|| g.name(*i), |s| json!([s]));
            let meta = outcome(|| g.metadata(*i).map(|o| o.map(|x| x.tag())), |b| json!(opt(b)));
            json!({"i": i, "p": p, "arr": arr, "lab": label((&g, *i)), "name": nm, "meta": meta})
        })
        .collect();
    let mut refs = g.reference_indexes();
    refs.sort_unstable();
    let mut names = g.names();
    names.sort();
    let looked: Vec<Value> = names
        .iter()
        .cloned()
        .chain(vec!["nobody".to_string(), "4711".to_string()])
        .map(|s| json!({"name": s, "ix": outcome(|| g.index(&s), |i| json!([i]))}))
        .collect();
    let mut lists = vec![];
    for j in 0..5 {
        let l = random_index_list(rng, &known, j == 4);
        let i = known[rng.gen_range(0..known.len())];
        let q: Vec<i64> = (0..dim).map(|_| rng.gen_range(-9..10)).collect();
        let qf: Vec<f32> = q.iter().map(|x| *x as f32).collect();
        let qr: &[f32] = &qf;
        let short: Vec<usize> = l.iter().take(if j == 3 { 330 } else { 12 }).copied().collect();
        lists.push(json!({
            "l": l, "i": i, "q": q, "short": short,
            "dq": outcome(|| g.distances_to_point(&qr, &l), |d| json!(d.iter().map(|d| sq(*d)).collect::<Vec<_>>())),
            "di": outcome(|| g.distances_to_point_index(i, &l), |d| json!(d.iter().map(|d| sq(*d)).collect::<Vec<_>>())),
            "sum": summary((&g, &short)),
            "m1": outcome(|| g.moment_1(&short), |m| json!(ints(&m))),
            "m2": outcome(|| g.moment_2(&short), |m| json!(ints(&m))),
            "mat": outcome(|| g.points_dense_matrix(&short), |m| json!(m.outer_iter().map(|r| ints(r.iter())).collect::<Vec<_>>())),
            "metas": outcome(|| g.metasummary(&short), |s| json!({"nones": s.nones, "errors": s.errors, "sum": s.summary.tags()})),
        }));
    }
    let mut v = json!({"ops": ops, "pts": points, "refs": refs, "names": names, "looked": looked, "lists": lists,
        "len": g.len(), "empty": g.is_empty(), "gdim": g.dim()});
    // the same cloud under a tree
    let q: Vec<f32> = (0..dim).map(|_| rng.gen_range(-9..10) as f32).collect();
    let k = rng.gen_range(1..=n + 1);
    v["tq"] = json!(ints(&q));
    v["tk"] = json!(k);
    let g = Arc::new(g);
    let t = guard(|| {
        let mut b = CoverTreeBuilder::new();
        b.set_scale_base(2.0).set_leaf_cutoff(1).set_min_res_index(-3).set_use_singletons(true).set_verbosity(0);
        let w = b.build(g.clone()).map_err(|e| format!("{:?}", e))?;
        let qr: &[f32] = &q;
        w.reader().knn(&qr, k).map_err(|e| format!("{:?}", e))
    });
    v["knn"] = match t {
        Ok(Ok(t)) => json!({"r": "ok", "v": t.iter().map(|(d, i)| json!([i, sq(*d)])).collect::<Vec<_>>()}),
        Ok(Err(m)) | Err(m) => json!({"r": "err", "v": [], "why": m}),
    };
    v
}

// ---------------------------------------------------------------- labels and summaries

thread_local! { static UNIT: std::cell::Cell<i64> = std::cell::Cell::new(1); }
/// The labels of a case are multiples of one number, as which they are judged.
fn unit() -> i64 {
    UNIT.with(|u| u.get())
}
const OFF: i64 = -999_999_999;
fn units(x: i64) -> i64 {
    if x % unit() == 0 {
        x / unit()
    } else {
        OFF
    }
}
/// Numbers for which single precision is not enough, if they are not whole.
fn fine() -> f64 {
    if unit() == 1 {
        1.0
    } else {
        1.0 + 2f64.powi(-30)
    }
}

/// A set of labels together with what its summaries look like.
trait Lab {
    type L: LabelSet;
    fn set(&self) -> &Self::L;
    fn show(s: &SummaryCounter<<Self::L as LabelSet>::LabelSummary>) -> Value;
}
struct Cat(SmallIntLabels);
impl Lab for Cat {
    type L = SmallIntLabels;
    fn set(&self) -> &SmallIntLabels {
        &self.0
    }
    fn show(s: &SummaryCounter<CategorySummary>) -> Value {
        cat(s)
    }
}
struct Vecs(VecLabels);
impl Lab for Vecs {
    type L = VecLabels;
    fn set(&self) -> &VecLabels {
        &self.0
    }
    fn show(s: &SummaryCounter<VecSummary>) -> Value {
        json!({"m1": ints(&s.summary.moment1), "m2": ints(&s.summary.moment2), "n": s.summary.count, "nones": s.nones, "errors": s.errors, "count": s.count()})
    }
}
/// Labels of any type, some of which cannot be read.
#[derive(Debug)]
struct Free<T, S> {
    v: Vec<Option<T>>,
    broken: Vec<bool>,
    s: std::marker::PhantomData<S>,
}
impl<T, S> LabelSet for Free<T, S>
where
    T: serde::Serialize + std::fmt::Debug + Send + Sync + 'static,
    S: Summary<Label = T>,
{
    type Label = T;
    type LabelSummary = S;
    fn len(&self) -> usize {
        self.v.len()
    }
    fn is_empty(&self) -> bool {
        self.v.is_empty()
    }
    fn label(&self, pn: usize) -> PointCloudResult<Option<&T>> {
        if self.broken[pn] {
            Err(PointCloudError::UnknownName)
        } else {
            Ok(self.v[pn].as_ref())
        }
    }
    fn label_summary(&self, pns: &[usize]) -> PointCloudResult<SummaryCounter<S>> {
        let mut s = SummaryCounter::<S>::default();
        for i in pns {
            s.add(self.label(*i));
        }
        Ok(s)
    }
}
struct Floats(Free<f64, FloatSummary>);
impl Lab for Floats {
    type L = Free<f64, FloatSummary>;
    fn set(&self) -> &Self::L {
        &self.0
    }
    fn show(s: &SummaryCounter<FloatSummary>) -> Value {
        let near = |x: f64, u: f64| if ((x / u).round() * u - x).abs() <= x.abs() * 1e-10 { int((x / u).round()) } else { OFF };
        json!({"m1": [near(s.summary.moment1, fine())], "m2": [near(s.summary.moment2, fine() * fine())], "n": s.summary.count, "nones": s.nones, "errors": s.errors, "count": s.count()})
    }
}
struct Ints(Free<i64, IntSummary>);
impl Lab for Ints {
    type L = Free<i64, IntSummary>;
    fn set(&self) -> &Self::L {
        &self.0
    }
    fn show(s: &SummaryCounter<IntSummary>) -> Value {
        let square = if s.summary.moment2 % (unit() * unit()) == 0 { s.summary.moment2 / (unit() * unit()) } else { OFF };
        json!({"m1": [units(s.summary.moment1)], "m2": [square], "n": s.summary.count, "nones": s.nones, "errors": s.errors, "count": s.count()})
    }
}
struct Strs(Free<String, StringSummary>);
impl Lab for Strs {
    type L = Free<String, StringSummary>;
    fn set(&self) -> &Self::L {
        &self.0
    }
    fn show(s: &SummaryCounter<StringSummary>) -> Value {
        let mut items: Vec<(i64, usize)> = s.summary.items.iter().map(|(k, c)| (value_of(k), *c)).collect();
        items.sort_unstable();
        json!({"items": items, "nones": s.nones, "errors": s.errors, "count": s.count()})
    }
}

/// Names that differ only in case or in white space are different names.
fn name_of(v: i64) -> String {
    let h = v.div_euclid(5);
    match v.rem_euclid(5) {
        0 if v == 0 => String::new(),
        0 => format!("s{}", h),
        1 => format!("S{}", h),
        2 => format!(" s{}", h),
        3 => format!("s{} ", h),
        _ => format!("s\u{e9}{}", h),
    }
}

/// The number a name was made from, 9999 if it is none of them.
fn value_of(name: &str) -> i64 {
    let rest = match name.strip_prefix("S") {
        Some(r) => (1, r),
        None => match name.strip_prefix(" s") {
            Some(r) => (2, r),
            None => match name.strip_prefix("s\u{e9}") {
                Some(r) => (4, r),
                None => match name.strip_prefix("s") {
                    Some(r) if r.ends_with(' ') => (3, r.trim_end()),
                    Some(r) => (0, r),
                    None => (0, "0"),
                },
            },
        },
    };
    match rest.1.parse::<i64>() {
        Ok(h) if name_of(h * 5 + rest.0) == name => h * 5 + rest.0,
        _ => 9999,
    }
}

fn program<L: Lab>(rng: &mut SmallRng, l: &L, n: usize) -> Vec<Value> {
    let regs = 3;
    let mut size = vec![0usize; regs];
    let mut r: Vec<SummaryCounter<<L::L as LabelSet>::LabelSummary>> = (0..regs).map(|_| Default::default()).collect();
    let mut ops = vec![];
    // of a long list everything is summarised, combined with something else and with itself
    let plan: &[(usize, usize, usize)] = if n >= 20 { &[(0, 0, 0), (1, 0, 0), (1, 3, 0), (2, 0, 0), (2, 3, 1), (2, 3, 2)] } else { &[] };
    for step in 0..plan.len() + rng.gen_range(1..9) {
        let planned = plan.get(step);
        let d = planned.map(|x| x.0).unwrap_or_else(|| rng.gen_range(0..regs));
        let (op, arg) = match planned.map(|x| x.1).unwrap_or_else(|| rng.gen_range(0..4)) {
            0 => {
                let k = if planned.is_some() { n + rng.gen_range(0..n) } else { rng.gen_range(0..=n.max(6)) };
                let pns: Vec<usize> = if n == 0 { vec![] } else { (0..k).map(|_| rng.gen_range(0..n)).collect() };
                r[d] = l.set().label_summary(&pns).unwrap();
                size[d] = pns.len();
                ("sum", pns)
            }
            1 if n > 0 => {
                let i = rng.gen_range(0..n);
                r[d].add(l.set().label(i));
                size[d] += 1;
                ("add", vec![i])
            }
            2 if n < 20 || size[d] > 1200 => {
                r[d] = Default::default();
                size[d] = 0;
                ("new", vec![])
            }
            _ => {
                let mut s = planned.map(|x| x.2).unwrap_or_else(|| rng.gen_range(0..regs));
                while planned.is_none() && size[d] + size[s] > 1500 {
                    s = (0..regs).min_by_key(|x| size[*x]).unwrap();
                    if size[d] + size[s] > 1500 {
                        break;
                    }
                }
                if size[d] + size[s] > 4000 {
                    continue;
                }
                let o = r[s].clone();
                r[d].combine(&o);
                size[d] += size[s];
                ("comb", vec![s])
            }
        };
        ops.push(json!({"op": op, "d": d, "a": arg, "now": r.iter().map(|s| L::show(s)).collect::<Vec<_>>()}));
    }
    ops
}

/// Replays a program of the specification on two (of three) summaries.
fn replay_ops<L: Lab>(l: &L, steps: &[Value], n: usize) -> Vec<Value> {
    let mut r: Vec<SummaryCounter<<L::L as LabelSet>::LabelSummary>> = (0..3).map(|_| Default::default()).collect();
    steps
        .iter()
        .map(|s| {
            let (op, d, x) = (s[0].as_str().unwrap(), s[1].as_u64().unwrap() as usize, s[2].as_u64().unwrap() as usize);
            let arg = match op {
                "sum" => {
                    let all: Vec<usize> = (0..n).collect();
                    r[d] = l.set().label_summary(&all).unwrap();
                    all
                }
                "add" => {
                    r[d].add(l.set().label(x));
                    vec![x]
                }
                "new" => {
                    r[d] = Default::default();
                    vec![]
                }
                _ => {
                    let o = r[x].clone();
                    r[d].combine(&o);
                    vec![x]
                }
            };
            json!({"op": op, "d": d, "a": arg, "now": r.iter().map(|s| L::show(s)).collect::<Vec<_>>()})
        })
        .collect()
}

/// Merges label sets one after another, and shows what each merge gives.
fn replay_merge(sets: &[(Vec<i64>, Option<Vec<bool>>)]) -> Vec<Value> {
    let mut acc: Option<SmallIntLabels> = None;
    let mut after = vec![];
    for (v, m) in sets {
        let l = SmallIntLabels::new(v.clone(), m.clone());
        match acc.as_mut() {
            None => acc = Some(l),
            Some(x) => x.merge(&l),
        }
        let x = acc.as_ref().unwrap();
        let all: Vec<usize> = (0..x.len()).collect();
        after.push(json!({"len": x.len(), "labs": seen(x), "sum": cat(&x.label_summary(&all).unwrap())}));
    }
    after
}

pub fn labels_gen(a: &Args) {
    let mut out = Out::new(a, "trace");
    let progs = a.programs();
    for (k, prog) in progs.iter().enumerate() {
        let steps = prog[1].as_array().unwrap();
        if prog[0] == "merge" {
            let sets: Vec<(Vec<i64>, Option<Vec<bool>>)> = steps
                .iter()
                .map(|x| {
                    let ns = |y: &Value| y.as_array().unwrap().iter().map(|v| v.as_i64().unwrap()).collect::<Vec<_>>();
                    (ns(&x[0]), if x[1] == 1 { Some(ns(&x[2]).iter().map(|b| *b == 1).collect()) } else { None })
                })
                .collect();
            let mut rec = json!({"id": format!("merge-gen-{}", k), "kind": "merge"});
            rec["sets"] = json!(sets.iter().map(|(v, m)| masked(v, m)).collect::<Vec<_>>());
            out.begin(&rec);
            match guard(|| replay_merge(&sets)) {
                Ok(after) => {
                    rec["after"] = json!(after);
                    rec["ok"] = json!(true);
                }
                Err(m) => {
                    rec["ok"] = json!(false);
                    rec["panic"] = json!(m);
                }
            }
            out.emit(&rec);
            continue;
        }
        for kind in ["cat", "vec", "float", "int", "str"].iter() {
            let n = if *kind == "cat" || *kind == "vec" { 3 } else { 4 };
            if n == 3 && steps.iter().any(|s| s[0] == "add" && s[2] == 3) {
                continue;
            }
            UNIT.with(|u| u.set(match *kind {
                "cat" if k % 2 == 0 => (1 << 33) + 1,
                "int" | "float" if k % 2 == 0 => 1 << 20,
                _ => 1,
            }));
            let mask: Vec<bool> = (0..n).map(|i| i != 2).collect();
            let vals: Vec<i64> = [1, 2, 1, 2][..n].to_vec();
            let mv = masked(&vals, &Some(mask.clone()));
            let labs: Vec<Vec<Vec<i64>>> = mv.iter().map(|x| x.iter().map(|y| if *kind == "vec" { vec![*y, -*y] } else { vec![*y] }).collect()).collect();
            let mut rec = json!({"id": format!("{}-gen-{}", kind, k), "kind": kind, "labs": labs, "seen": labs, "len": n, "empty": false});
            let broken = vec![false, false, false, true];
            if n == 4 {
                rec["broken"] = json!(broken);
            }
            out.begin(&rec);
            let got = guard(|| match *kind {
                "cat" => replay_ops(&Cat(SmallIntLabels::new(vals.iter().map(|x| x * unit()).collect(), Some(mask))), steps, n),
                "vec" => replay_ops(&Vecs(VecLabels::new(vals.iter().flat_map(|x| vec![*x as f32, -*x as f32]).collect(), 2, Some(mask))), steps, n),
                "float" => replay_ops(&Floats(Free { v: mv.iter().map(|x| x.first().map(|y| *y as f64 * fine())).collect(), broken, s: std::marker::PhantomData }), steps, n),
                "int" => replay_ops(&Ints(Free { v: mv.iter().map(|x| x.first().map(|y| y * unit())).collect(), broken, s: std::marker::PhantomData }), steps, n),
                _ => replay_ops(&Strs(Free { v: mv.iter().map(|x| x.first().map(|y| name_of(*y))).collect(), broken, s: std::marker::PhantomData }), steps, n),
            });
            match got {
                Ok(ops) => {
                    rec["ops"] = json!(ops);
                    rec["ok"] = json!(true);
                }
                Err(m) => {
                    rec["ok"] = json!(false);
                    rec["panic"] = json!(m);
                }
            }
            out.emit(&rec);
        }
    }
}

fn random_mask(rng: &mut SmallRng, n: usize) -> Option<Vec<bool>> {
    match rng.gen_range(0..3) {
        0 => None,
        1 => Some(vec![true; n]),
        _ => Some((0..n).map(|_| rng.gen_bool(0.6)).collect()),
    }
}
fn masked<T: Clone>(v: &[T], m: &Option<Vec<bool>>) -> Vec<Vec<T>> {
    (0..v.len()).map(|i| if m.as_ref().map(|m| m[i]).unwrap_or(true) { vec![v[i].clone()] } else { vec![] }).collect()
}
fn seen(l: &SmallIntLabels) -> Value {
    json!((0..l.len()).map(|i| opt(l.label(i).unwrap().copied())).collect::<Vec<_>>())
}

pub fn labels(a: &Args) {
    let mut out = Out::new(a, "trace");
    let mut rng = a.rng(19);
    for k in 0..a.pick(900, 9000) {
        let kind = ["cat", "vec", "float", "int", "str", "merge", "onehot", "binary", "cat", "vec"][k % 10];
        let large = k % 11 == 3;
        let n = if large { rng.gen_range(60..200) } else { rng.gen_range(0..9usize) };
        let dim = rng.gen_range(1..4usize);
        let mut rec = json!({"id": format!("{}-{}", kind, k), "kind": kind});
        out.begin(&rec);
        let rng = &mut rng;
        let r = guard(|| {
            let mut rec = json!({});
            UNIT.with(|u| u.set(match kind {
                "cat" if k % 3 == 0 => (1 << 33) + 1,
                // the sum of the squares has to fit
                "int" | "float" if k % 3 == 0 => if large { 1 << 16 } else { 1 << 20 },
                _ => 1,
            }));
            let wide = if large { [1, 2, 60, 300][rng.gen_range(0..4)] } else { rng.gen_range(2..7) };
            match kind {
                "cat" => {
                    let v: Vec<i64> = (0..n).map(|_| rng.gen_range(-wide..wide)).collect();
                    let m = random_mask(rng, n);
                    rec["labs"] = json!(masked(&v, &m).iter().map(|x| x.iter().map(|y| vec![*y]).collect::<Vec<_>>()).collect::<Vec<_>>());
                    let l = Cat(SmallIntLabels::new(v.iter().map(|x| x * unit()).collect(), m));
                    rec["seen"] = json!((0..n).map(|i| opt(l.0.label(i).unwrap().map(|x| vec![units(*x)]))).collect::<Vec<_>>());
                    rec["len"] = json!(l.0.len());
                    rec["empty"] = json!(l.0.is_empty());
                    rec["ops"] = json!(program(rng, &l, n));
                }
                "vec" => {
                    let v: Vec<Vec<i64>> = (0..n).map(|_| (0..dim).map(|_| rng.gen_range(-4..5)).collect()).collect();
                    let m = random_mask(rng, n);
                    rec["labs"] = json!(masked(&v, &m));
                    let l = Vecs(VecLabels::new(v.iter().flatten().map(|x| *x as f32).collect(), dim, m));
                    rec["seen"] = json!((0..n).map(|i| opt(l.0.label(i).unwrap().map(|x| ints(x)))).collect::<Vec<_>>());
                    rec["len"] = json!(l.0.len());
                    rec["empty"] = json!(l.0.is_empty());
                    rec["ops"] = json!(program(rng, &l, n));
                }
                "float" | "int" | "str" => {
                    let v: Vec<i64> = (0..n).map(|_| rng.gen_range(-wide..wide)).collect();
                    let m = random_mask(rng, n);
                    let broken: Vec<bool> = (0..n).map(|_| rng.gen_bool(0.15)).collect();
                    rec["broken"] = json!(broken);
                    let mv = masked(&v, &m);
                    rec["labs"] = json!(mv.iter().map(|x| x.iter().map(|y| vec![*y]).collect::<Vec<_>>()).collect::<Vec<_>>());
                    rec["seen"] = rec["labs"].clone();
                    rec["len"] = json!(n);
                    rec["empty"] = json!(n == 0);
                    let s = std::marker::PhantomData;
                    rec["ops"] = json!(match kind {
                        "float" => program(rng, &Floats(Free { v: mv.iter().map(|x| x.first().map(|y| *y as f64 * fine())).collect(), broken, s }), n),
                        "int" => program(rng, &Ints(Free { v: mv.iter().map(|x| x.first().map(|y| y * unit())).collect(), broken, s: std::marker::PhantomData }), n),
                        _ => program(rng, &Strs(Free { v: mv.iter().map(|x| x.first().map(|y| name_of(*y))).collect(), broken, s: std::marker::PhantomData }), n),
                    });
                }
                "merge" => {
                    let mut sets = vec![];
                    for _ in 0..rng.gen_range(1..5) {
                        let n = rng.gen_range(0..4);
                        let v: Vec<i64> = (0..n).map(|_| rng.gen_range(0..3)).collect();
                        let m = random_mask(rng, n);
                        sets.push((v, m));
                    }
                    let after = replay_merge(&sets);
                    let sets: Vec<_> = sets.iter().map(|(v, m)| masked(v, m)).collect();
                    rec["sets"] = json!(sets);
                    rec["after"] = json!(after);
                }
                _ => {
                    let dim = if kind == "onehot" { dim } else { 1 };
                    let v: Vec<Vec<i64>> = (0..n).map(|_| {
                        // in quarters
                        let mut r: Vec<i64> = if rng.gen_bool(0.6) { vec![0; dim] } else { (0..dim).map(|_| rng.gen_range(0..3)).collect() };
                        if rng.gen_bool(0.8) {
                            r[rng.gen_range(0..dim)] = if rng.gen_bool(0.7) { 4 } else { 3 };
                        }
                        if rng.gen_bool(0.1) {
                            r[rng.gen_range(0..dim)] = 4;
                        }
                        r
                    }).collect();
                    let m = random_mask(rng, n);
                    rec["dim"] = json!(dim);
                    rec["labs"] = json!(masked(&v, &m));
                    let l = VecLabels::new(v.iter().flatten().map(|x| *x as f32 / 4.0).collect(), dim, m);
                    let i = if kind == "onehot" { l.one_hot_to_int() } else { l.binary_to_int() };
                    rec["len"] = json!(i.len());
                    rec["got"] = seen(&i);
                }
            }
            rec
        });
        match r {
            Ok(v) => {
                for (k, x) in v.as_object().unwrap() {
                    rec[k] = x.clone();
                }
                rec["ok"] = json!(true);
            }
            Err(m) => {
                rec["ok"] = json!(false);
                rec["panic"] = json!(m);
            }
        }
        out.emit(&rec);
    }
}

// ---------------------------------------------------------------- distances

/// Points are written as the list of their non-zero entries.
fn nz(p: &[i64]) -> Vec<(usize, i64)> {
    p.iter().enumerate().filter(|(_, v)| **v != 0).map(|(i, v)| (i + 1, *v)).collect()
}
fn random_point(rng: &mut SmallRng, dim: usize, lo: i64, hi: i64, density: f64) -> Vec<i64> {
    (0..dim).map(|_| if rng.gen_bool(density) { rng.gen_range(lo..=hi) } else { 0 }).collect()
}

macro_rules! typed {
    ($t:ident, $rng:expr, $x:expr, $y:expr) => {{
        let (x, y): (&[i64], &[i64]) = ($x, $y);
        let dx: Vec<$t> = x.iter().map(|v| *v as $t).collect();
        let dy: Vec<$t> = y.iter().map(|v| *v as $t).collect();
        let l2 = <L2 as Metric<[$t]>>::dist(&dx, &dy);
        let l1 = <L1 as Metric<[$t]>>::dist(&dx, &dy);
        let mut v = json!({"dense": [sq(l2), int(l1 as f64)]});
        let r: &[$t] = &dx;
        v["iter"] = json!([ints(&r.dense()), ints(&r.dense_iter().collect::<Vec<f32>>())]);
        // stored entries may include zeros
        let keep = |p: &[i64], rng: &mut SmallRng| -> Vec<usize> { (0..p.len()).filter(|i| p[*i] != 0 || rng.gen_bool(0.1)).collect() };
        let (kx, ky) = (keep(x, $rng), keep(y, $rng));
        let vx: Vec<$t> = kx.iter().map(|i| x[*i] as $t).collect();
        let vy: Vec<$t> = ky.iter().map(|i| y[*i] as $t).collect();
        let mut sp = vec![];
        let mut it = vec![];
        macro_rules! ix {
            ($s:ident) => {
                if x.len() <= $s::MAX as usize {
                    let ix: Vec<$s> = kx.iter().map(|i| *i as $s).collect();
                    let iy: Vec<$s> = ky.iter().map(|i| *i as $s).collect();
                    let rx = SparseRef::<$t, $s>::new(x.len(), &vx, &ix);
                    let ry = SparseRef::<$t, $s>::new(y.len(), &vy, &iy);
                    sp.push(json!([
                        sq(<L2 as Metric<RawSparse<$t, $s>>>::dist(rx.deref(), ry.deref())),
                        int(<L1 as Metric<RawSparse<$t, $s>>>::dist(rx.deref(), ry.deref()) as f64)
                    ]));
                }
            };
        }
        ix!(u8);
        ix!(u16);
        ix!(u32);
        v["sparse"] = json!(sp);
        it.push(());
        v
    }};
}
macro_rules! sparse_iter {
    ($t:ident, $s:ident, $x:expr) => {{
        let x: &[i64] = $x;
        let kx: Vec<usize> = (0..x.len()).filter(|i| x[*i] != 0).collect();
        let vx: Vec<$t> = kx.iter().map(|i| x[*i] as $t).collect();
        let ix: Vec<$s> = kx.iter().map(|i| *i as $s).collect();
        let r = SparseRef::<$t, $s>::new(x.len(), &vx, &ix);
        json!([ints(&r.dense()), ints(&r.dense_iter().collect::<Vec<f32>>())])
    }};
}

pub fn dist(a: &Args) {
    let mut out = Out::new(a, "trace");
    let mut rng = a.rng(20);
    // the metric itself, for every storage type and dimensions around the vector widths
    let mut k = 0;
    for dim in (1..=36).chain(vec![63, 64, 65, 100]) {
        for rep in 0..a.pick(2, 12) {
            for t in &["f32", "i8", "u8", "i16", "u16", "i32", "u32"] {
                k += 1;
                let (lo, hi) = match *t {
                    "f32" => (-90, 90),
                    "i8" => (-128, 127),
                    "u8" => (0, 255),
                    "i16" | "i32" => (-150, 150),
                    _ => (0, 300),
                };
                let dens = [0.0, 0.2, 0.7, 1.0][rng.gen_range(0..4)];
                let mut x = random_point(&mut rng, dim, lo, hi, dens);
                let dens = [0.0, 0.2, 0.7, 1.0][rng.gen_range(0..4)];
                let mut y = random_point(&mut rng, dim, lo, hi, dens);
                match rng.gen_range(0..6) {
                    0 => y = x.clone(),
                    1 => {
                        // one far coordinate
                        x = vec![0; dim];
                        y = vec![0; dim];
                        let j = rng.gen_range(0..dim);
                        let far = match *t {
                            "i16" | "i32" | "f32" => 20000,
                            "u16" | "u32" => 40000,
                            "i8" => 127,
                            _ => 255,
                        };
                        if rng.gen_bool(0.5) { x[j] = far } else { y[j] = far }
                        if lo < 0 {
                            let z = if x[j] == 0 { &mut x } else { &mut y };
                            z[j] = if *t == "i8" { -128 } else { -20000 };
                        }
                    }
                    _ => {}
                }
                let mut rec = json!({"id": format!("metric-{}-{}-{}-{}", t, dim, rep, k), "kind": "metric", "dim": dim, "x": nz(&x), "y": nz(&y), "xd": x});
                out.begin(&rec);
                let rng = &mut rng;
                let v = guard(|| match *t {
                    "f32" => {
                        let mut v = typed!(f32, rng, &x, &y);
                        v["iter2"] = sparse_iter!(f32, u32, &x);
                        v
                    }
                    "i8" => {
                        let mut v = typed!(i8, rng, &x, &y);
                        v["iter2"] = sparse_iter!(i8, u16, &x);
                        v
                    }
                    "u8" => {
                        let mut v = typed!(u8, rng, &x, &y);
                        v["iter2"] = sparse_iter!(u8, u8, &x);
                        v
                    }
                    "i16" => {
                        let mut v = typed!(i16, rng, &x, &y);
                        v["iter2"] = sparse_iter!(i16, u32, &x);
                        v
                    }
                    "u16" => {
                        let mut v = typed!(u16, rng, &x, &y);
                        v["iter2"] = sparse_iter!(u16, u32, &x);
                        v
                    }
                    "i32" => typed!(i32, rng, &x, &y),
                    _ => typed!(u32, rng, &x, &y),
                });
                merge_into(&mut rec, v);
                out.emit(&rec);
            }
        }
    }
    // batches around the lengths at which the code changes its strategy
    for k in 0..a.pick(150, 1500) {
        let dim = match k % 10 {
            0 => *[2999usize, 3000, 3001, 3100].choose(&mut rng).unwrap(),
            1 => *[20000usize, 60000, 100000, 150001].choose(&mut rng).unwrap(),
            2 if k % 30 == 2 => *[299999usize, 300000, 300001, 400000].choose(&mut rng).unwrap(),
            _ => rng.gen_range(1..12),
        };
        let chunk = (300000 / dim).min(100).max(1);
        let n = if dim > 12 { rng.gen_range(1..9) } else { rng.gen_range(1..40) };
        let dens = if dim > 12 { (6.0 / dim as f64).min(1.0) } else { 0.8 };
        let mut pts: Vec<Vec<i64>> = (0..n).map(|_| random_point(&mut rng, dim, -40, 40, dens)).collect();
        for p in pts.iter_mut() {
            // the last entries, where a cut would lose something
            p[dim - 1] = rng.gen_range(-9..10);
        }
        let len = match rng.gen_range(0..7) {
            0 => 3 * chunk,
            1 => 3 * chunk + 1,
            2 => 4 * chunk,
            3 => 4 * chunk + rng.gen_range(1..4),
            4 => rng.gen_range(0..3),
            _ => rng.gen_range(0..=3 * chunk),
        };
        let mut list: Vec<usize> = (0..len).map(|_| rng.gen_range(0..n)).collect();
        let bad = k % 5 == 4 && len > 0;
        if bad {
            for _ in 0..rng.gen_range(1..3) {
                let j = rng.gen_range(0..len);
                list[j] = n + rng.gen_range(0..3);
            }
        }
        let q = random_point(&mut rng, dim, -40, 40, dens);
        let i = rng.gen_range(0..n);
        let threads = [1, 2, 3, 8][rng.gen_range(0..4)];
        let short: Vec<usize> = list.iter().take(10).copied().collect();
        let mut rec = json!({"id": format!("batch-{}", k), "kind": "batch", "dim": dim, "n": n, "len": len, "threads": threads,
            "list": list, "q": nz(&q), "i": i, "pts": pts.iter().map(|p| nz(p)).collect::<Vec<_>>(), "short": short});
        out.begin(&rec);
        // now and then the n points are rows of a much larger cloud, the record knowing only those
        let far: Vec<usize> = if k % 15 == 7 && dim <= 12 && n >= 6 {
            let mut far: Vec<usize> = (0..n).map(|j| (j * 70001 / n) + j % 3).collect();
            far[1] = 65535;
            far[2] = 65536;
            far[3] = 65537;
            far[n - 1] = 70003;
            far
        } else {
            (0..n).collect()
        };
        let total = if far[n - 1] == n - 1 { n } else { 70004 };
        let real = |j: usize| if j < n { far[j] } else { total + j - n };
        let list: Vec<usize> = list.iter().map(|j| real(*j)).collect();
        let short: Vec<usize> = short.iter().map(|j| real(*j)).collect();
        let i = real(i);
        let v = guard(|| {
            let mut data: Vec<f32> = vec![7.0; total * dim];
            for (j, p) in pts.iter().enumerate() {
                for (d, v) in p.iter().enumerate() {
                    data[far[j] * dim + d] = *v as f32;
                }
            }
            let n = total;
            let qf: Vec<f32> = q.iter().map(|v| *v as f32).collect();
            let qr: &[f32] = &qf;
            let d2: DataRam<L2> = DataRam::new(data.clone(), dim).unwrap();
            let d1: DataRam<L1> = DataRam::new(data, dim).unwrap();
            let pool = rayon::ThreadPoolBuilder::new().num_threads(threads).build().unwrap();
            let s2 = |d: Vec<f32>| json!(d.iter().map(|d| sq(*d)).collect::<Vec<_>>());
            let s1 = |d: Vec<f32>| json!(d.iter().map(|d| int(*d as f64)).collect::<Vec<_>>());
            let row = |v: &[f32]| json!(nz(&ints(v)));
            let v = pool.install(|| json!({
                "q2": outcome(|| d2.distances_to_point(&qr, &list), s2),
                "i2": outcome(|| d2.distances_to_point_index(i, &list), s2),
                "q1": outcome(|| d1.distances_to_point(&qr, &list), s1),
                "i1": outcome(|| d1.distances_to_point_index(i, &list), s1),
                "out": outcome(|| d2.distances_to_point_index(n, &list), s2),
                "m1": outcome(|| d2.moment_1(&short), |v| row(&v)),
                "m2": outcome(|| d2.moment_2(&short), |v| row(&v)),
                "mat": outcome(|| d2.points_dense_matrix(&short), |m| json!(m.outer_iter().map(|r| row(&r.to_vec())).collect::<Vec<_>>())),
                "row": outcome(|| d2.point_dense_array(i), |r| row(&r.to_vec())),
            }));
            v
        });
        merge_into(&mut rec, v);
        out.emit(&rec);
    }
}

fn merge_into(rec: &mut Value, v: Result<Value, String>) {
    match v {
        Ok(v) => {
            for (k, x) in v.as_object().unwrap() {
                rec[k] = x.clone();
            }
            rec["ok"] = json!(true);
        }
        Err(m) => {
            rec["ok"] = json!(false);
            rec["panic"] = json!(m);
        }
    }
}

// ---------------------------------------------------------------- loaders

/// Numbers in files: integers, and codes for values that are not.
const ODD: [u32; 7] = [0x7fc00000, 0x7f800000, 0xff800000, 0x3dcccccd, 0x00000001, 0x80000000, 0x7f7fffff];
fn to_file(x: i64) -> f32 {
    if x >= 1000 { f32::from_bits(ODD[(x - 1000) as usize]) } else { x as f32 }
}
fn from_file(x: &f32) -> i64 {
    match ODD.iter().position(|b| *b == x.to_bits()) {
        Some(k) => 1000 + k as i64,
        None => int(*x as f64),
    }
}
fn write_f32(path: &std::path::Path, v: &[i64], junk: usize) {
    let mut b: Vec<u8> = v.iter().flat_map(|x| to_file(*x).to_le_bytes().to_vec()).collect();
    b.extend(std::iter::repeat(1u8).take(junk));
    std::fs::write(path, b).unwrap();
}
/// Text, packed in one piece or, as `cat` and parallel packers make them, in several.
fn write_text(path: &std::path::Path, s: &str, gz: bool, pieces: usize) {
    use std::io::Write;
    let b = s.as_bytes();
    if !gz {
        return std::fs::write(path, b).unwrap();
    }
    let mut f = std::fs::File::create(path).unwrap();
    let cut = if pieces == 0 { b.len() / 2 } else { b.len() };
    for part in [&b[..cut], &b[cut..]].iter() {
        if pieces == 0 || !part.is_empty() {
            let mut e = flate2::write::GzEncoder::new(&mut f, flate2::Compression::default());
            e.write_all(part).unwrap();
            e.finish().unwrap();
        }
    }
}
fn rows<D: PointCloud<Point = [f32]>>(d: &D) -> Value {
    json!((0..d.len() + 1).map(|i| outcome(|| d.point(i).map(|p| p.to_vec()), |p| json!(p.iter().map(from_file).collect::<Vec<_>>()))).collect::<Vec<_>>())
}
/// What a loader made of the files, or that it refused them.
fn load<T>(f: impl FnOnce() -> PointCloudResult<T>, show: impl FnOnce(T) -> Value) -> Value {
    match guard(f) {
        Ok(Ok(t)) => match guard(|| show(t)) {
            Ok(v) => json!({"r": "ok", "v": v}),
            Err(m) => json!({"r": "bad", "v": [], "why": m}),
        },
        Ok(Err(e)) => json!({"r": "refused", "v": [], "why": format!("{:?}", e)}),
        Err(m) => json!({"r": "refused", "v": [], "why": m}),
    }
}

pub fn load_files(a: &Args) {
    let mut out = Out::new(a, "trace");
    let mut rng = a.rng(21);
    for k in 0..a.pick(400, 5000) {
        let dir = a.scratch(&format!("load-{}", k));
        std::fs::create_dir_all(&dir).unwrap();
        // now and then more than a page of data, or more files than have one digit
        let huge = k % 25 == 3;
        let many = k % 25 == 8;
        let dim = if huge { rng.gen_range(2..14usize) } else { rng.gen_range(1..5usize) };
        let nf = if many { rng.gen_range(11..15usize) } else { rng.gen_range(1..4usize) };
        let same = rng.gen_bool(0.7);
        let kind = ["ram", "csv", "onehot", "vec", "labeledmaps", "maps"][k % 6];
        let ldim = if kind == "onehot" { rng.gen_range(1..4usize) } else { rng.gen_range(1..3usize) };
        let big = k % 12 == 1;
        let gz = rng.gen_bool(if big { 0.6 } else { 0.3 });
        let col = rng.gen_range(0..3usize);
        let mixed = rng.gen_bool(0.3);
        // the files of one case, in the order of their names
        let counts: Vec<usize> = (0..nf).map(|_| if big { rng.gen_range(20..40) } else if huge { rng.gen_range(150..600) } else { rng.gen_range(1..6) }).collect();
        let odd = rng.gen_bool(0.2);
        let data: Vec<Vec<Vec<i64>>> = counts
            .iter()
            .map(|n| {
                (0..*n)
                    .map(|_| random_point(&mut rng, dim, -99, 99, 0.9).iter().map(|x| if odd && rng.gen_bool(0.2) { 1000 + rng.gen_range(0..ODD.len()) as i64 } else { *x }).collect())
                    .collect()
            })
            .collect();
        // csv labels are whole multiples of this
        let unit: i64 = [1, 1, 5_000_000_011][rng.gen_range(0..3)];
        // names of different lengths, in order
        let tail: Vec<String> = (0..nf).map(|_| "x".repeat(rng.gen_range(0..4))).collect();
        let mut dmg = json!([]);
        let mut dpaths = vec![];
        let mut lpaths = vec![];
        let damage = if (big || huge || many) && rng.gen_bool(0.7) { 0 } else { rng.gen_range(0..15) };
        let num = |j: usize| if many { format!("{:02}", j) } else { format!("{}", j) };
        let crlf = rng.gen_bool(0.2);
        let quoted = rng.gen_bool(0.3);
        let unended = rng.gen_bool(0.3);
        for (j, rows) in data.iter().enumerate() {
            let p = dir.join(format!("d{}{}.dat", num(j), tail[j]));
            let mut flat: Vec<i64> = rows.iter().flatten().copied().collect();
            let mut junk = 0;
            if damage == 1 && j == nf / 2 {
                junk = rng.gen_range(1..4);
                dmg = json!(["bytes"]);
            }
            if damage == 2 && j == 0 && dim > 1 {
                flat.push(5);
                dmg = json!(["cells"]);
            }
            write_f32(&p, &flat, junk);
            dpaths.push(p);
        }
        // labels: rows of values; csv cells may be negative or missing
        let labs: Vec<Vec<Vec<i64>>> = counts
            .iter()
            .map(|n| {
                (0..*n)
                    .map(|_| match kind {
                        "csv" | "ram" | "maps" => vec![rng.gen_range(-2..5)],
                        "onehot" => {
                            let mut r = vec![0; ldim];
                            if rng.gen_bool(0.8) {
                                r[rng.gen_range(0..ldim)] = 1;
                            }
                            r
                        }
                        _ => (0..ldim).map(|_| rng.gen_range(-9..10)).collect(),
                    })
                    .collect()
            })
            .collect();
        for (j, rows) in labs.iter().enumerate() {
            if kind == "csv" {
                let mut t = String::new();
                let names: Vec<String> = (0..3).map(|c| format!("c{}", c)).collect();
                t += &(names.join(",") + "\n");
                for (ri, r) in rows.iter().enumerate() {
                    let mut cells: Vec<String> = (0..3).map(|c| format!("{}", 100 + c)).collect();
                    let other = (col + 1) % 3;
                    if quoted && rng.gen_bool(0.4) {
                        cells[other] = ["\"a,b\"", "\"a\nb\"", "\"a\"\"b\"", "", "\",,,\""][rng.gen_range(0..5)].to_string();
                    } else if big {
                        cells[other] = (0..4000).map(|_| (b'a' + rng.gen_range(0..26u8)) as char).collect();
                    }
                    cells[col] = format!("{}", r[0] * unit);
                    if quoted && rng.gen_bool(0.3) {
                        cells[col] = format!("\"{}\"", cells[col]);
                    }
                    if damage == 3 && j == 0 && ri == 0 {
                        cells[col] = "x1".to_string();
                        dmg = json!(["cell"]);
                    }
                    if damage == 4 && j == nf - 1 && ri + 1 == rows.len() {
                        cells.pop();
                        dmg = json!(["short"]);
                    }
                    t += &(cells.join(",") + if crlf { "\r\n" } else { "\n" });
                }
                if unended {
                    t.truncate(t.trim_end().len());
                }
                // packed or not, each file for itself
                let gz = if mixed { rng.gen_bool(0.5) } else { gz };
                let p = dir.join(if gz { format!("l{}{}.csv.gz", num(j), tail[nf - 1 - j]) } else { format!("l{}{}.csv", num(j), tail[nf - 1 - j]) });
                write_text(&p, &t, gz, rng.gen_range(0..4));
                if damage == 8 && gz && j == nf - 1 {
                    let b = std::fs::read(&p).unwrap();
                    std::fs::write(&p, &b[..b.len() - rng.gen_range(9..12)]).unwrap();
                    dmg = json!(["cut"]);
                }
                lpaths.push(p);
            } else {
                let p = dir.join(format!("l{}{}.dat", num(j), tail[nf - 1 - j]));
                write_f32(&p, &rows.iter().flatten().copied().collect::<Vec<_>>(), 0);
                lpaths.push(p);
            }
        }
        if damage == 5 {
            let v = if rng.gen_bool(0.5) || kind == "ram" || kind == "maps" { &dpaths } else { &lpaths };
            for p in v.iter() {
                std::fs::remove_file(p).unwrap();
            }
            dmg = json!(["missing"]);
        }
        // the description
        let abs = rng.gen_bool(0.5);
        let pat = |s: &str| if abs { dir.join(s).to_str().unwrap().to_string() } else { s.to_string() };
        let mut y = String::from("---\n");
        y += &format!("data_path: \"{}\"\ndata_dim: {}\ncount: {}\n", pat(["d*.dat", "d*.dat", "D*.DAT", "[d]*.dat", "d?*.dat", "d*.d?t"][rng.gen_range(0..6)]), dim, counts.iter().sum::<usize>());
        match kind {
            "csv" => y += &format!("labels_path: \"{}\"\nlabels_index: {}\n", pat(if mixed { "l*.csv*" } else if gz { "l*.csv.gz" } else { "L*.csv" }), col),
            _ => y += &format!("labels_path: \"{}\"\nlabels_dim: {}\n", pat("l*.dat"), ldim),
        }
        if damage == 6 {
            y = y.replace(if rng.gen_bool(0.5) { "data_dim" } else { "data_path" }, "something");
            dmg = json!(["key"]);
        }
        if damage == 7 && kind == "csv" {
            y = y.replace("labels_index: ", "labels_index: 1");
            dmg = json!(["column"]);
        }
        let yp = dir.join("desc.yml");
        std::fs::write(&yp, &y).unwrap();
        let mut rec = json!({"id": format!("{}-{}", kind, k), "kind": kind, "dim": dim, "ldim": ldim, "data": data, "labs": labs, "damage": dmg, "same": same});
        out.begin(&rec);
        let v = match kind {
            "ram" => load(|| ram_from_yaml::<_, L2>(&yp), |c: DataRam<L2>| json!({"len": c.len(), "dim": c.dim(), "rows": rows(&c), "labs": []})),
            "csv" | "onehot" => load(
                || labeled_ram_from_yaml::<_, L2>(&yp),
                |c: DefaultLabeledCloud<L2>| {
                    json!({"len": c.len(), "dim": c.dim(), "rows": rows(&c),
                    "labs": (0..c.len()).map(|i| opt(c.label(i).unwrap().map(|x| vec![if kind == "onehot" { *x } else if *x % unit == 0 { *x / unit } else { 9999 }]))).collect::<Vec<_>>()})
                },
            ),
            "vec" => load(
                || vec_labeled_ram_from_yaml::<_, L2>(&yp),
                |c: SimpleLabeledCloud<DataRam<L2>, VecLabels>| {
                    json!({"len": c.len(), "dim": c.dim(), "rows": rows(&c),
                    "labs": (0..c.len()).map(|i| opt(c.label(i).unwrap().map(|x| ints(x)))).collect::<Vec<_>>()})
                },
            ),
            "labeledmaps" => load(
                || open_labeled_memmaps::<L2>(dim, ldim, &dpaths, &lpaths),
                |c| {
                    json!({"len": c.len(), "dim": c.dim(), "rows": rows(&c),
                    "labs": (0..c.len()).map(|i| opt(c.label(i).unwrap().map(|x| ints(x)))).collect::<Vec<_>>()})
                },
            ),
            _ => load(
                || open_memmaps::<L2>(dim, &dpaths),
                |c| {
                    let r = rows(&c);
                    let len = c.len();
                    let ram = convert_glued_memmap_to_ram(c);
                    json!({"len": len, "dim": ram.dim(), "rows": r, "labs": [], "ram": rows(&ram)})
                },
            ),
        };
        rec["got"] = v;
        let maps = std::fs::read_to_string("/proc/self/maps").unwrap_or_default();
        rec["released"] = json!(!maps.contains(dir.to_str().unwrap()));
        out.emit(&rec);
        let _ = std::fs::remove_dir_all(&dir);
    }
}
