//! Drives the real server: several clients, each on its own connection, send scripted requests (well formed, ill formed,
//! pipelined, abandoned, in pieces) and everything they get back is recorded.
#[path = "../../src/cases.rs"]
#[allow(dead_code)]
mod cases;
#[path = "../../src/util.rs"]
#[allow(dead_code)]
mod util;
use cases::*;
use futures::future::{poll_fn, FutureExt};
use goko::plugins::discrete::prelude::*;
use goko::*;
use hyper::body::HttpBody;
use hyper::{Body, Request, Response};
use pointcloud::PointCloud;
use rand::rngs::SmallRng;
use rand::{Rng, SeedableRng};
use serde_json::{json, Value};
use serve_goko::api::*;
use serve_goko::core::{CoreReader, CoreWriter};
use serve_goko::http::{GokoHttp, MakeGokoHttp};
use serve_goko::parsers::MsgPackDense;
use std::io::Write;
use std::sync::{Arc, Mutex};
use std::task::Poll;
use tower::load::Load;
use tower::Service;
use util::*;

type Conn = GokoHttp<Cloud, MsgPackDense>;
type Log = Arc<Mutex<Vec<Value>>>;

#[derive(Clone, Debug)]
struct Op {
    method: &'static str,
    path: &'static str,
    query: Vec<(String, String)>,
    /// what the body holds: a point of the table, or nothing that is one
    pt: Option<usize>,
    bytes: Vec<u8>,
    ctype: Option<Vec<u8>>,
    /// how the body arrives: at once, in pieces, in pieces without an end, or broken off
    send: Send,
    abandon: bool,
    /// the path of the point is sent in its place
    by_path: bool,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Send {
    Whole,
    Pieces(usize),
    Sized(usize),
    Broken,
}

fn pack(rng: &mut SmallRng, p: &[f32]) -> Vec<u8> {
    match rng.gen_range(0..3) {
        0 => rmp_serde::to_vec(&p.iter().map(|x| *x as f64).collect::<Vec<f64>>()).unwrap(),
        1 if p.iter().all(|x| x.fract() == 0.0 && x.abs() < 1e6) => rmp_serde::to_vec(&p.iter().map(|x| *x as i64).collect::<Vec<i64>>()).unwrap(),
        _ => rmp_serde::to_vec(&p.to_vec()).unwrap(),
    }
}
fn encode(rng: &mut SmallRng, op: &mut Op, p: &[f32]) {
    let b = pack(rng, p);
    match rng.gen_range(0..4) {
        0 => {
            let mut e = flate2::write::ZlibEncoder::new(vec![], flate2::Compression::default());
            e.write_all(&b).unwrap();
            op.bytes = e.finish().unwrap();
            op.ctype = Some(b"gzip".to_vec());
        }
        1 => {
            let mut e = flate2::write::DeflateEncoder::new(vec![], flate2::Compression::default());
            e.write_all(&b).unwrap();
            op.bytes = e.finish().unwrap();
            op.ctype = Some(b"zlib".to_vec());
        }
        _ => op.bytes = b,
    }
}
/// A body that is no point.
fn garbage(rng: &mut SmallRng, op: &mut Op, p: &[f32]) {
    encode(rng, op, p);
    match rng.gen_range(0..8) {
        0 => op.bytes.clear(),
        1 => {
            // a list that says it is longer than it is
            op.bytes = pack(rng, p);
            op.ctype = None;
            let k = rng.gen_range(0..op.bytes.len());
            op.bytes.truncate(k)
        }
        2 => {
            op.bytes = vec![0xc1; rng.gen_range(1..20)];
        }
        3 => {
            op.bytes = rmp_serde::to_vec("a point").unwrap();
            op.ctype = None
        }
        4 => {
            let t: [&[u8]; 9] = [b"application/json", b"application/octet-stream", b"application/msgpack", b"text/plain", b"application/x-www-form-urlencoded",
                b"identity", b"br", b"multipart/form-data", b"x"];
            op.ctype = Some(t[rng.gen_range(0..t.len())].to_vec())
        }
        5 => op.ctype = Some(vec![0xfe, 0xe9]),
        6 => {
            op.bytes = rmp_serde::to_vec(&vec![vec![1.0f32], vec![2.0]]).unwrap();
            op.ctype = None
        }
        _ => op.send = Send::Broken,
    }
}

struct World {
    p: Problem,
    points: Vec<Vec<f32>>,
    /// so many points that only the tree is asked
    many: bool,
}

fn pick<T: Clone>(rng: &mut SmallRng, v: &[T]) -> T {
    v[rng.gen_range(0..v.len())].clone()
}

fn random_op(rng: &mut SmallRng, w: &World, names: &[&'static str], wins: &[usize], tracking: bool) -> Op {
    let mut op = Op { method: "GET", path: "/", query: vec![], pt: None, bytes: vec![], ctype: None, send: Send::Whole, abandon: false, by_path: false };
    let q = |k: &str, v: String| (k.to_string(), v);
    let kind = if w.many {
        rng.gen_range(0..4)
    } else if tracking && rng.gen_bool(0.85) { rng.gen_range(4..12) } else { rng.gen_range(0..14) };
    let mut body = false;
    match kind {
        0 => op.path = "/",
        1 | 2 => {
            op.path = if kind == 1 { "/knn" } else { "/routing_knn" };
            body = true;
            match rng.gen_range(0..10) {
                0 => (),
                6 => op.query.push(q("k", pick(rng, &["many", "5x", "-1", "", "1.5", "0x3"]).into())),
                1 => op.query.push(q("k", "0".into())),
                2 => op.query.push(q("k", "18446744073709551615".into())),
                3 => op.query.push(q("k", "99999999999999999999".into())),
                4 => op.query.push(q("rank", format!("{}", rng.gen_range(1..4)))),
                5 => op.query.push(q("k", pick(rng, &["200", "25", "60", "120"]).into())),
                _ => op.query.push(q("k", format!("{}", rng.gen_range(1..6)))),
            }
        }
        3 => {
            op.path = "/path";
            body = true
        }
        4..=11 => {
            let name = pick(rng, names);
            if !name.is_empty() {
                op.query.push(q("tracker_name", name.into()));
            }
            match kind {
                4 | 5 => {
                    op.method = "POST";
                    op.path = "/track/add";
                    match rng.gen_range(0..14) {
                        0 => (),
                        1 => op.query.push(q("window_size", "99999999999999999999".into())),
                        2 => op.query.push(q("window_size", pick(rng, &["many", "2x", "-1", "", "1.5"]).into())),
                        3 => op.query.push(q("old_window_size", "2".into())),
                        _ => op.query.push(q("window_size", format!("{}", pick(rng, wins)))),
                    }
                }
                6..=9 => {
                    op.method = "POST";
                    op.path = "/track/point";
                    body = true;
                }
                _ => {
                    op.path = "/track/stats";
                    if rng.gen_bool(0.05) {
                        op.query.push(q("window_size", pick(rng, &["many", "2x", "-1", "", "1.5"]).into()));
                    } else if rng.gen_bool(0.95) {
                        op.query.push(q("window_size", format!("{}", pick(rng, wins))));
                    }
                }
            }
        }
        _ => match rng.gen_range(0..6) {
            0 => {
                op.method = "POST";
                op.path = "/knn";
                body = true
            }
            1 => {
                op.method = "DELETE";
                op.path = "/track/add";
                op.query.push(q("window_size", "1".into()));
            }
            2 => op.path = "/nothing",
            3 => op.path = "/knn/",
            4 => {
                op.method = "PUT";
                op.path = "/track/point";
                body = true
            }
            _ => op.path = "/track",
        },
    }
    for d in &["rank", "my_tracker_name", "x"] {
        if rng.gen_bool(0.1) && !op.query.iter().any(|x| x.0 == *d) {
            op.query.push(q(d, "7".into()));
        }
    }
    for i in (1..op.query.len()).rev() {
        let j = rng.gen_range(0..=i);
        op.query.swap(i, j);
    }
    let i = rng.gen_range(0..w.points.len());
    if body {
        if rng.gen_bool(0.12) {
            garbage(rng, &mut op, &w.points[i]);
        } else {
            op.pt = Some(i);
            encode(rng, &mut op, &w.points[i]);
        }
        if op.send == Send::Whole {
            match rng.gen_range(0..4) {
                0 => op.send = Send::Pieces(rng.gen_range(1..5)),
                1 => op.send = Send::Sized(rng.gen_range(1..5)),
                _ => (),
            }
        }
    } else if rng.gen_bool(0.15) {
        op.bytes = pack(rng, &w.points[i]);
    }
    op.abandon = rng.gen_bool(0.05);
    op
}

async fn pause(rng: &mut SmallRng) {
    for _ in 0..rng.gen_range(0..4) {
        tokio::task::yield_now().await;
    }
}

fn request(op: &Op, base: &str, seed: u64) -> Request<Body> {
    let qs: Vec<String> = op.query.iter().map(|(k, v)| format!("{}={}", k, v)).collect();
    let uri = if qs.is_empty() { format!("{}{}", base, op.path) } else { format!("{}{}?{}", base, op.path, qs.join("&")) };
    let mut b = Request::builder().method(op.method).uri(uri);
    if let Some(c) = &op.ctype {
        b = b.header("content-type", http::HeaderValue::from_bytes(c).unwrap());
    }
    let body = match op.send {
        Send::Whole => {
            if op.bytes.is_empty() {
                Body::empty()
            } else {
                Body::from(op.bytes.clone())
            }
        }
        s => {
            let (mut tx, body) = Body::channel();
            let bytes = op.bytes.clone();
            let n = if let Send::Pieces(n) | Send::Sized(n) = s { n } else { 2 };
            if let Send::Sized(_) = s {
                b = b.header("content-length", bytes.len());
            } else if !base.is_empty() {
                // or the client leaves out the body of a GET
                b = b.header("transfer-encoding", "chunked");
            }
            tokio::spawn(async move {
                let mut rng = SmallRng::seed_from_u64(seed);
                let len = (bytes.len() / n).max(1);
                for (k, c) in bytes.chunks(len).enumerate() {
                    pause(&mut rng).await;
                    if s == Send::Broken && k == 1 {
                        tx.abort();
                        return;
                    }
                    if tx.send_data(c.to_vec().into()).await.is_err() {
                        return;
                    }
                }
                pause(&mut rng).await;
                if s == Send::Broken {
                    tx.abort();
                }
            });
            body
        }
    };
    b.body(body).unwrap()
}

fn num(v: &Value) -> Value {
    match v.as_f64() {
        Some(x) if x.is_finite() && x.abs() < 2000.0 => json!((x * 1e6).round() as i64),
        _ => json!(-1),
    }
}
/// Numbers that are not whole, as the single precision number they stand for.
fn single(v: &Value) -> Value {
    match v {
        Value::Number(n) if n.is_f64() => json!(format!("{}", n.as_f64().unwrap() as f32)),
        Value::Array(a) => Value::Array(a.iter().map(single).collect()),
        Value::Object(o) => Value::Object(o.iter().map(|(k, x)| (k.clone(), single(x))).collect()),
        _ => v.clone(),
    }
}
fn items(v: &Value) -> Value {
    json!(v.as_array().map(|a| a.iter().map(|x| single(x).to_string()).collect::<Vec<_>>()).unwrap_or_default())
}

async fn read<E: std::fmt::Debug>(r: Result<Response<Body>, E>) -> Value {
    let mut r = match r {
        Ok(r) => r,
        Err(e) => return json!({"t": "err", "why": format!("{:?}", e).chars().take(80).collect::<String>()}),
    };
    let mut bytes = vec![];
    while let Some(c) = r.body_mut().data().await {
        match c {
            Ok(c) => bytes.extend_from_slice(&c),
            Err(e) => return json!({"t": "err", "why": format!("{:?}", e)}),
        }
    }
    if r.status().as_u16() >= 400 {
        return json!({"t": "err", "why": format!("status {}", r.status())});
    }
    let v: Value = match serde_json::from_slice(&bytes) {
        Ok(v) => v,
        Err(_) => return json!({"t": "other", "why": String::from_utf8_lossy(&bytes).to_string()}),
    };
    answer(v)
}
/// What an answer says.
fn answer(v: Value) -> Value {
    if let Some(x) = v.get("knn") {
        json!({"t": "/knn", "v": items(x)})
    } else if let Some(x) = v.get("routing_knn") {
        json!({"t": "/routing_knn", "v": items(x)})
    } else if let Some(x) = v.get("path") {
        json!({"t": "/path", "v": items(x)})
    } else if v.get("scale_base").is_some() {
        json!({"t": "/", "v": [format!("{} {} {} {} {}", v["scale_base"].as_f64().unwrap_or(0.0) as f32, v["leaf_cutoff"], v["min_res_index"], v["use_singletons"], v["partition_type"].to_string().to_lowercase().replace('"', ""))]})
    } else if let Some(x) = v.get("TrackPath") {
        json!({"t": "track", "ok": x["success"]})
    } else if let Some(x) = v.get("AddTracker") {
        json!({"t": "add", "ok": x["success"]})
    } else if let Some(x) = v.get("CurrentStats") {
        json!({"t": "stats", "len": x["sequence_len"], "nz": x["nz_count"], "m1": num(&x["moment1_nz"]), "kl": num(&x["kl_div"]),
            "max": if x["nz_count"] == json!(0) { json!(0) } else { num(&x["max"]) }})
    } else if let Some(x) = v.get("Unknown") {
        json!({"t": "unknown", "name": x[0].as_str().unwrap_or(""), "win": x[1].as_i64().unwrap_or(-1)})
    } else {
        json!({"t": "other", "why": v.to_string()})
    }
}

fn note(log: &Log, v: Value) {
    log.lock().unwrap().push(v);
}

/// One client: sends its requests over one connection, a few at a time.
async fn client(mut conn: Conn, c: usize, ops: Vec<(usize, Op)>, log: Log, seed: u64, stall: Option<Arc<tokio::sync::Notify>>) {
    let mut rng = SmallRng::seed_from_u64(seed);
    let mut k = 0;
    if let Some(n) = stall {
        // a request whose body does not end until all others are done
        let (mut tx, body) = Body::channel();
        let r = Request::builder().method("GET").uri("/path").body(body).unwrap();
        let f = conn.call(r);
        tokio::spawn(async move {
            let _ = tx.send_data(vec![0x91].into()).await;
            n.notified().await;
        });
        let _ = f.await;
        return;
    }
    while k < ops.len() {
        pause(&mut rng).await;
        let n = if rng.gen_bool(0.7) { 1 } else { rng.gen_range(1..4) }.min(ops.len() - k);
        let mut fs = vec![];
        for (o, op) in &ops[k..k + n] {
            note(&log, json!({"e": "c", "o": o}));
            let ready = poll_fn(|cx| Poll::Ready(conn.poll_ready(cx))).await;
            match ready {
                Poll::Ready(Ok(())) => fs.push((*o, op.abandon, Some(conn.call(request(op, "", rng.gen()))))),
                _ => {
                    note(&log, json!({"e": "r", "o": o, "res": {"t": "closed"}}));
                }
            }
        }
        note(&log, json!({"e": "l", "conn": c, "n": conn.load()}));
        while !fs.is_empty() {
            let j = rng.gen_range(0..fs.len());
            let (o, abandon, f) = fs.remove(j);
            let mut f = f.unwrap();
            if abandon {
                // it may have been polled before it is dropped
                if rng.gen_bool(0.5) {
                    if (&mut f).now_or_never().is_none() {
                        note(&log, json!({"e": "l", "conn": c, "n": conn.load()}));
                    }
                    pause(&mut rng).await;
                }
                note(&log, json!({"e": "x", "o": o}));
                drop(f);
            } else {
                if rng.gen_bool(0.3) {
                    // polled more often than it is ready
                    let mut done = None;
                    for _ in 0..rng.gen_range(1..4) {
                        done = (&mut f).now_or_never();
                        if done.is_some() {
                            break;
                        }
                        note(&log, json!({"e": "l", "conn": c, "n": conn.load()}));
                        tokio::task::yield_now().await;
                    }
                    let r = match done {
                        Some(r) => r,
                        None => f.await,
                    };
                    let res = read(r).await;
                    note(&log, json!({"e": "r", "o": o, "res": res}));
                } else {
                    let res = read(f.await).await;
                    note(&log, json!({"e": "r", "o": o, "res": res}));
                }
            }
            note(&log, json!({"e": "l", "conn": c, "n": conn.load()}));
        }
        k += n;
    }
}

/// The requests one after the other, each on its connection.
async fn turns(mut conns: Vec<Conn>, ops: Vec<(usize, usize, Op)>, log: Log, seed: u64) {
    let mut rng = SmallRng::seed_from_u64(seed);
    for (c, o, op) in ops {
        note(&log, json!({"e": "c", "o": o}));
        match poll_fn(|cx| Poll::Ready(conns[c].poll_ready(cx))).await {
            Poll::Ready(Ok(())) => {
                let f = conns[c].call(request(&op, "", rng.gen()));
                let res = read(f.await).await;
                note(&log, json!({"e": "r", "o": o, "res": res}));
            }
            _ => note(&log, json!({"e": "r", "o": o, "res": {"t": "closed"}})),
        }
        note(&log, json!({"e": "l", "conn": c + 1, "n": conns[c].load()}));
    }
}

/// The request as the server itself would make it; what it cannot make sense of is an unknown one.
fn core_request(op: &Op, points: &[Vec<f32>], paths: &[Option<Vec<(f32, NodeAddress)>>]) -> GokoRequest<Vec<f32>> {
    let get = |key: &str| op.query.iter().find(|x| x.0 == key).map(|x| x.1.clone());
    let number = |key: &str| get(key).map(|v| v.parse::<usize>().ok());
    let none = GokoRequest::Unknown("no such thing".to_string(), 404);
    let tracking = |request| GokoRequest::Tracking(TrackingRequest { tracker_name: get("tracker_name"), request });
    let pt = op.pt.map(|i| points[i].clone());
    let k = number("k").unwrap_or(Some(10));
    match (op.method, op.path, pt) {
        ("GET", "/", _) => GokoRequest::Parameters(ParametersRequest),
        ("GET", "/knn", Some(point)) => k.map(|k| GokoRequest::Knn(KnnRequest { point, k })).unwrap_or(none),
        ("GET", "/routing_knn", Some(point)) => k.map(|k| GokoRequest::RoutingKnn(RoutingKnnRequest { point, k })).unwrap_or(none),
        ("GET", "/path", Some(point)) => GokoRequest::Path(PathRequest { point }),
        ("POST", "/track/add", _) => match number("window_size") {
            Some(Some(window_size)) => tracking(TrackingRequestChoice::AddTracker(AddTrackerRequest { window_size })),
            _ => none,
        },
        ("POST", "/track/point", Some(point)) => match &paths[op.pt.unwrap()] {
            Some(path) if op.by_path => tracking(TrackingRequestChoice::TrackPath(TrackPathRequest { path: path.clone() })),
            _ => tracking(TrackingRequestChoice::TrackPoint(TrackPointRequest { point })),
        },
        ("GET", "/track/stats", _) => match number("window_size") {
            Some(Some(window_size)) => tracking(TrackingRequestChoice::CurrentStats(CurrentStatsRequest { window_size })),
            _ => none,
        },
        _ => none,
    }
}

/// One client inside the process: it asks the core directly.
async fn core_client(mut core: CoreReader<Cloud, Vec<f32>>, ops: Vec<(usize, Op)>, log: Log, seed: u64, points: Arc<Vec<Vec<f32>>>, paths: Arc<Vec<Option<Vec<(f32, NodeAddress)>>>>) {
    let mut rng = SmallRng::seed_from_u64(seed);
    for (o, op) in ops {
        pause(&mut rng).await;
        note(&log, json!({"e": "c", "o": o}));
        let mut f = std::panic::AssertUnwindSafe(core.process(core_request(&op, &points, &paths))).catch_unwind().boxed();
        if op.abandon {
            if rng.gen_bool(0.5) {
                let _ = (&mut f).now_or_never();
                pause(&mut rng).await;
            }
            note(&log, json!({"e": "x", "o": o}));
            continue;
        }
        let res = match f.await {
            Ok(Ok(GokoResponse::Unknown(w, s))) if s >= 400 => json!({"t": "err", "why": w}),
            Ok(Ok(GokoResponse::Parameters(p))) => answer(serde_json::to_value(&p).unwrap()),
            Ok(Ok(GokoResponse::Knn(p))) => answer(serde_json::to_value(&p).unwrap()),
            Ok(Ok(GokoResponse::RoutingKnn(p))) => answer(serde_json::to_value(&p).unwrap()),
            Ok(Ok(GokoResponse::Path(p))) => answer(serde_json::to_value(&p).unwrap()),
            Ok(Ok(GokoResponse::Tracking(p))) => answer(serde_json::to_value(&p).unwrap()),
            Ok(Ok(GokoResponse::Unknown(w, _))) => json!({"t": "other", "why": w}),
            Ok(Err(e)) => json!({"t": "err", "why": format!("{:?}", e).chars().take(80).collect::<String>()}),
            Err(_) => json!({"t": "err", "why": "panic"}),
        };
        note(&log, json!({"e": "r", "o": o, "res": res}));
    }
}

/// The same over a real socket, each request on a connection of its own.
async fn net_client(base: String, ops: Vec<(usize, Op)>, log: Log, seed: u64) {
    let mut rng = SmallRng::seed_from_u64(seed);
    let http: hyper::Client<_, Body> = hyper::Client::builder().pool_max_idle_per_host(0).build_http();
    for (o, op) in ops {
        pause(&mut rng).await;
        note(&log, json!({"e": "c", "o": o}));
        let res = read(http.request(request(&op, &base, rng.gen())).await).await;
        note(&log, json!({"e": "r", "o": o, "res": res}));
    }
}

fn strings<E: std::fmt::Debug, T: serde::Serialize>(r: Result<Result<Vec<T>, E>, String>, k: usize) -> Value {
    match r {
        Ok(Ok(v)) => json!({"k": k, "ok": true, "v": v.iter().map(|x| single(&serde_json::to_value(x).unwrap()).to_string()).collect::<Vec<_>>()}),
        _ => json!({"k": k, "ok": false, "v": []}),
    }
}
fn small(k: usize) -> usize {
    k.min(1_000_000)
}

/// What the tree itself answers.
fn refs(r: &CoverTreeReader<Cloud>, op: &Op, pt: &[f32]) -> Value {
    let pc = &r.parameters().point_cloud;
    let named = |v: Vec<(f32, usize)>| -> GokoResult<Vec<Value>> { v.iter().map(|(d, i)| Ok(json!({"name": pc.name(*i)?, "distance": d}))).collect() };
    let mut ks: Vec<usize> = op.query.iter().filter_map(|x| x.1.parse().ok()).collect();
    ks.push(10);
    ks.sort_unstable();
    ks.dedup();
    let p: &[f32] = pt;
    match op.path {
        "/knn" => json!(ks.iter().map(|k| strings(guard(|| r.knn(&p, *k).map_err(errors::GokoError::from).and_then(named)), small(*k))).collect::<Vec<_>>()),
        "/routing_knn" => json!(ks.iter().map(|k| strings(guard(|| r.routing_knn(&p, *k).map_err(errors::GokoError::from).and_then(named)), small(*k))).collect::<Vec<_>>()),
        "/path" => json!([strings(
            guard(|| r.path(&p).and_then(|v| v
                .iter()
                .map(|(d, (s, i))| Ok(json!({"name": pc.name(*i)?, "layer": s, "distance": d, "label_summary": r.get_node_label_summary((*s, *i)).map(|x| serde_json::to_value(&*x).unwrap())})))
                .collect::<GokoResult<Vec<Value>>>())),
            0
        )]),
        _ => json!([]),
    }
}

fn record(a: &Args, rng: &mut SmallRng, k: usize, out: &mut Out) {
    // now and then more points than anyone asks for by default
    let many = k % 40 == 39;
    let mut p = random_problem(rng, format!("serve-{}", k), if many { 260 } else { 9 });
    if rng.gen_bool(0.3) {
        // wide enough for the vectorised metrics
        let dim = rng.gen_range(9..20);
        p.pts.iter_mut().for_each(|x| x.resize(dim, 1));
        p.dim = dim;
    } else if rng.gen_bool(0.1) {
        // so wide that a point takes kilobytes
        let dim = match rng.gen_range(0..20) {
            0..=12 => rng.gen_range(200..800),
            13..=15 => rng.gen_range(1800..3000),
            _ => rng.gen_range(14000..30000),
        };
        if dim > 10000 {
            p.pts.truncate(3);
            p.labels.truncate(3);
        }
        p.pts.iter_mut().for_each(|x| {
            while x.len() < dim {
                x.push(rng.gen_range(-3..4));
            }
        });
        p.dim = dim;
    }
    let mode = match rng.gen_range(0..9) {
        0 | 1 => "threads",
        2 => "net",
        3 => "core",
        _ => "one",
    };
    let tracking = !many && rng.gen_bool(0.6);
    let seed: u64 = rng.gen();
    let conns = rng.gen_range(1..4usize);
    let all_names = ["", "a", "b", "a-b", "a-c", "a.b", "caf%C3%A9", "A", "default", "main", "0", "1", "tracker", "none", "null", "main_tracker",
        "a_rather_long_name_for_a_tracker_of_one_tenant", "a_rather_long_name_for_a_tracker_of_one_user", "a_rather_long_name_for_a_tracker"];
    let mut names: Vec<&'static str> = if rng.gen_bool(0.5) {
        (0..rng.gen_range(1..3)).map(|_| all_names[rng.gen_range(0..8)]).collect()
    } else {
        (0..rng.gen_range(1..4)).map(|_| all_names[rng.gen_range(0..all_names.len())]).collect()
    };
    if rng.gen_bool(0.15) {
        // the one without a name beside one that could be taken for it
        names = vec!["", all_names[rng.gen_range(8..16)]];
    } else if rng.gen_bool(0.1) {
        names = all_names[16..].to_vec();
    }
    let wins: Vec<usize> = if rng.gen_bool(0.2) {
        // many trackers beside each other
        names.truncate(2);
        let n = rng.gen_range(4..9);
        let mut v: Vec<usize> = (0..12).collect();
        for i in 0..n {
            let j = rng.gen_range(i..12);
            v.swap(i, j);
        }
        v[..n].iter().map(|i| [0, 1, 2, 3, 4, 5, 8, 10, 16, 100, 256, 1000][*i]).collect()
    } else {
        (0..rng.gen_range(1..3)).map(|_| rng.gen_range(0..4)).collect()
    };
    let mut points: Vec<Vec<f32>> = vec![];
    for _ in 0..rng.gen_range(1..4) {
        let i = rng.gen_range(0..p.pts.len());
        let mut x = p.pts[i].clone();
        if rng.gen_bool(0.5) {
            let j = rng.gen_range(0..p.dim);
            x[j] += rng.gen_range(-5..6);
        }
        points.push(p.coords(&x));
    }
    if rng.gen_bool(0.3) {
        let mut x = points[0].clone();
        if rng.gen_bool(0.5) {
            x.push(1.0)
        } else {
            x.pop();
        }
        points.push(x);
    }
    if rng.gen_bool(0.3) {
        // numbers a client can send, whatever they are good for
        let mut x = points[0].clone();
        let odd = [f32::NAN, f32::INFINITY, f32::NEG_INFINITY, f32::MAX, 1e25, -1e25, 1e-40, -0.0];
        for _ in 0..rng.gen_range(1..3) {
            let j = rng.gen_range(0..x.len().max(1));
            if j < x.len() {
                x[j] = odd[rng.gen_range(0..odd.len())];
            }
        }
        points.push(x);
    }
    let w = World { p, points, many };
    let total = if rng.gen_bool(0.2) { rng.gen_range(16..30) } else { rng.gen_range(1..16) };
    let mut abandoned = 0;
    let mut ops: Vec<(usize, Op)> = vec![];
    let ready = tracking && rng.gen_bool(0.5);
    if ready {
        // trackers that are there from the start
        let c = rng.gen_range(0..conns);
        for name in &names {
            for win in &wins {
                let mut query = vec![("window_size".to_string(), win.to_string())];
                if !name.is_empty() {
                    query.push(("tracker_name".to_string(), name.to_string()));
                }
                ops.push((c, Op { method: "POST", path: "/track/add", query, pt: None, bytes: vec![], ctype: None, send: Send::Whole, abandon: false, by_path: false }));
            }
        }
    }
    for _ in 0..total {
        let mut op = random_op(rng, &w, &names, &wins, tracking);
        if mode == "net" {
            op.abandon = false;
        }
        if mode == "core" && rng.gen_bool(0.4) {
            op.by_path = true;
        }
        if op.abandon {
            abandoned += 1;
            op.abandon = abandoned <= 2;
        }
        ops.push((rng.gen_range(0..conns), op));
    }
    run(a, rng, w, ops, mode, conns, seed, out)
}

/// Builds the tree, sends the requests and records what happens.
#[allow(clippy::too_many_arguments)]
fn run(a: &Args, rng: &mut SmallRng, w: World, ops: Vec<(usize, Op)>, mode: &'static str, conns: usize, seed: u64, out: &mut Out) {
    let mut rec = json!({"id": w.p.id, "mode": mode, "params": format!("{:?}", w.p), "conns": conns});
    rec["ops"] = json!(ops.iter().map(|(c, op)| json!({"conn": c + 1, "m": op.method, "p": op.path,
        "q": op.query.iter().map(|x| json!({"key": x.0, "val": x.1, "n": match x.1.parse::<usize>() { Ok(n) => small(n) as i64, Err(_) => -1 }})).collect::<Vec<_>>(),
        "pt": op.pt.map(|i| i + 1).unwrap_or(0), "how": format!("{}{:?} {:?}", if op.by_path { "path " } else { "" }, op.send, op.ctype.as_ref().map(|c| String::from_utf8_lossy(c).to_string()))})).collect::<Vec<_>>());
    out.begin(&rec);
    let built = w.p.builder(a).build(w.p.cloud()).map(|mut t| {
        t.add_plugin(GokoDirichlet::default());
        t.generate_summaries();
        t
    });
    let tree = match built {
        Ok(t) => t,
        Err(e) => {
            rec["ok"] = json!(false);
            rec["why"] = json!(format!("{:?}", e));
            out.emit(&rec);
            return;
        }
    };
    let reader = tree.reader();
    let d = dump(&reader, &w.p);
    rec["nodes"] = d["nodes"].as_array().unwrap().iter().map(|n| json!({"s": n["s"], "i": n["i"], "nest": n["nest"], "kids": n["kids"], "sing": n["sing"]})).collect();
    rec["root"] = d["root"].clone();
    rec["points"] = json!(w.points.iter().map(|x| {
        let px: &[f32] = x;
        match guard(|| reader.path(&px)) {
            Ok(Ok(v)) => json!({"ok": true, "path": v.iter().map(|y| json!([(y.1).0, (y.1).1])).collect::<Vec<_>>()}),
            _ => json!({"ok": false, "path": []}),
        }
    }).collect::<Vec<_>>());
    rec["refs"] = json!(ops.iter().map(|(_, op)| op.pt.map(|i| refs(&reader, op, &w.points[i])).unwrap_or(json!([]))).collect::<Vec<_>>());
    rec["about"] = json!([format!("{} {} {} {} {}", w.p.base, w.p.leaf, w.p.minres, w.p.single, if w.p.first { "first" } else { "nearest" })]);
    let log: Log = Default::default();
    let rt = if mode == "one" || mode == "turns" || (mode == "core" && rng.gen_bool(0.5)) {
        tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap()
    } else {
        tokio::runtime::Builder::new_multi_thread().worker_threads(3).enable_all().build().unwrap()
    };
    let scripts: Vec<Vec<(usize, Op)>> = (0..conns).map(|c| ops.iter().enumerate().filter(|(_, x)| x.0 == c).map(|(o, x)| (o + 1, x.1.clone())).collect()).collect();
    let order: Vec<(usize, usize, Op)> = ops.iter().enumerate().map(|(o, x)| (x.0, o + 1, x.1.clone())).collect();
    let stall = mode == "one" && rng.gen_bool(0.2);
    let l2 = Arc::clone(&log);
    let paths: Arc<Vec<Option<Vec<(f32, NodeAddress)>>>> = Arc::new(w.points.iter().map(|x| {
        let px: &[f32] = x;
        match guard(|| reader.path(&px)) {
            Ok(Ok(v)) => Some(v),
            _ => None,
        }
    }).collect());
    let points = Arc::new(w.points.clone());
    let done = rt.block_on(async move {
        let mut hs = vec![];
        if mode == "core" {
            let writer = CoreWriter::<Cloud, Vec<f32>>::new(tree);
            for (c, s) in scripts.into_iter().enumerate() {
                hs.push(tokio::spawn(core_client(writer.reader(), s, Arc::clone(&l2), seed ^ c as u64, Arc::clone(&points), Arc::clone(&paths))));
            }
            return tokio::time::timeout(std::time::Duration::from_secs(30), async {
                let mut ok = true;
                for h in hs {
                    ok &= h.await.is_ok();
                }
                ok
            })
            .await
            .unwrap_or(false);
        }
        let writer = Arc::new(CoreWriter::new(tree));
        let mut make = MakeGokoHttp::<_, MsgPackDense>::new(Arc::clone(&writer));
        let mut stalled = None;
        let mut serving = futures::future::pending::<()>().boxed_local();
        if mode == "net" {
            let server = hyper::Server::bind(&([127, 0, 0, 1], 0).into()).serve(make);
            let base = format!("http://{}", server.local_addr());
            serving = server.map(|_| ()).boxed_local();
            for (c, s) in scripts.into_iter().enumerate() {
                hs.push(tokio::spawn(net_client(base.clone(), s, Arc::clone(&l2), seed ^ c as u64)));
            }
        } else if mode == "turns" {
            let mut cs: Vec<Conn> = vec![];
            for _ in 0..conns {
                cs.push(make.call(()).await.unwrap());
            }
            hs.push(tokio::spawn(turns(cs, order, Arc::clone(&l2), seed)));
        } else {
            if stall {
                let n = Arc::new(tokio::sync::Notify::new());
                let conn: Conn = make.call(()).await.unwrap();
                stalled = Some((Arc::clone(&n), tokio::spawn(client(conn, 0, vec![], Arc::clone(&l2), seed, Some(n)))));
            }
            for (c, s) in scripts.into_iter().enumerate() {
                let conn: Conn = make.call(()).await.unwrap();
                hs.push(tokio::spawn(client(conn, c + 1, s, Arc::clone(&l2), seed ^ c as u64, None)));
            }
        }
        let all = async {
            let mut ok = true;
            for h in hs {
                ok &= h.await.is_ok();
            }
            if let Some((n, h)) = stalled {
                n.notify_one();
                ok &= h.await.is_ok();
            }
            ok
        };
        let all = tokio::time::timeout(std::time::Duration::from_secs(30), all).boxed_local();
        match futures::future::select(all, serving).await {
            futures::future::Either::Left((r, _)) => r.unwrap_or(false),
            _ => false,
        }
    });
    rt.shutdown_background();
    rec["ok"] = json!(true);
    rec["done"] = json!(done);
    rec["ev"] = json!(log.lock().unwrap().clone());
    out.emit(&rec);
}

/// Many requests on many connections, one after another: many names, windows that fill and overflow.
fn long(a: &Args, rng: &mut SmallRng, k: usize, out: &mut Out) {
    let p = random_problem(rng, format!("serve-long-{}", k), 9);
    let points: Vec<Vec<f32>> = (0..rng.gen_range(1..5))
        .map(|_| {
            let mut x = p.pts[rng.gen_range(0..p.pts.len())].clone();
            x[0] += rng.gen_range(-2..3);
            p.coords(&x)
        })
        .collect();
    let w = World { p, points, many: false };
    let conns = rng.gen_range(1..10usize);
    let all: Vec<&'static str> = vec!["", "n1", "n2", "n3", "n4", "n5", "n6", "n7", "n8", "n9", "n10", "n11", "n12", "n13", "n14", "n15", "n16", "n17"];
    let names = &all[..if rng.gen_bool(0.5) { rng.gen_range(1..3) } else { rng.gen_range(8..all.len()) }];
    let wins: Vec<usize> = (0..rng.gen_range(1..4)).map(|_| *[0usize, 1, 3, 10, 32, 50, 64].iter().nth(rng.gen_range(0..7)).unwrap()).collect();
    let mut ops = vec![];
    for name in names {
        for win in &wins {
            let mut query = vec![("window_size".to_string(), win.to_string())];
            if !name.is_empty() {
                query.push(("tracker_name".to_string(), name.to_string()));
            }
            ops.push((rng.gen_range(0..conns), Op { method: "POST", path: "/track/add", query, pt: None, bytes: vec![], ctype: None, send: Send::Whole, abandon: false, by_path: false }));
        }
    }
    for _ in 0..if names.len() < 3 { rng.gen_range(100..260) } else { rng.gen_range(70..150) } {
        let mut op = random_op(rng, &w, names, &wins, true);
        op.abandon = false;
        ops.push((rng.gen_range(0..conns), op));
    }
    let seed = rng.gen();
    run(a, rng, w, ops, "turns", conns, seed, out)
}

/// A behaviour of the specification: a sequence of [connection, request, name, argument], requests being 1 add, 2 point, 3 stats.
fn replay(a: &Args, rng: &mut SmallRng, k: usize, prog: &Value, out: &mut Out) {
    let p = random_problem(rng, format!("serve-gen-{}", k), 5);
    let mut far = p.pts[p.pts.len() - 1].clone();
    far[0] += rng.gen_range(-2..3);
    let points = vec![p.coords(&p.pts[0]), p.coords(&far)];
    let w = World { p, points, many: false };
    let mut ops = vec![];
    let mut add = |c: usize, kind: i64, name: &str, arg: i64| {
        let mut op = Op { method: "POST", path: "/track/add", query: vec![], pt: None, bytes: vec![], ctype: None, send: Send::Whole, abandon: false, by_path: false };
        if !name.is_empty() {
            op.query.push(("tracker_name".to_string(), name.to_string()));
        }
        if kind == 2 {
            op.path = "/track/point";
            op.pt = Some(arg as usize - 1);
            op.bytes = rmp_serde::to_vec(&w.points[arg as usize - 1]).unwrap();
        } else {
            op.query.push(("window_size".to_string(), arg.to_string()));
        }
        if kind == 3 {
            op.method = "GET";
            op.path = "/track/stats";
        }
        ops.push((c, op));
    };
    for s in prog[0].as_array().unwrap() {
        add(s[0].as_u64().unwrap() as usize - 1, s[1].as_i64().unwrap(), s[2].as_str().unwrap(), s[3].as_i64().unwrap());
    }
    // and how things stand in the end
    for s in prog[1].as_array().unwrap() {
        add(k % 2, 3, s[0].as_str().unwrap(), s[1].as_i64().unwrap());
    }
    run(a, rng, w, ops, "turns", 2, k as u64, out)
}

fn main() {
    let mut it = std::env::args().skip(1);
    let cmd = it.next().expect("command");
    let out = it.next().expect("output directory");
    let a = Args {
        seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
        thorough: std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false),
        out: out.into(),
        rest: vec![],
    };
    std::fs::create_dir_all(&a.out).unwrap();
    quiet_panics();
    watchdog(120);
    let mut out = Out::new(&a, "trace");
    let mut rng = a.rng(150);
    if cmd == "serve-gen" {
        for (k, prog) in a.programs().iter().enumerate() {
            replay(&a, &mut rng, k, prog, &mut out);
        }
    } else {
        for k in 0..a.pick(1500, 20000) {
            if k % 50 == 25 {
                long(&a, &mut rng, k, &mut out);
            } else {
                record(&a, &mut rng, k, &mut out);
            }
        }
    }
    drop(out);
    std::process::exit(0);
}
