//! C52: the HTTP clients of opentelemetry-http.
use crate::net::*;
use bmc::{ensure, family, product, Family, Run};
use opentelemetry_http::hyper::HyperClient;
use opentelemetry_http::{Bytes, HttpClient, Request};
use std::sync::{Arc, OnceLock};
use std::time::{Duration, Instant};

pub fn rt() -> &'static tokio::runtime::Runtime {
    static R: OnceLock<tokio::runtime::Runtime> = OnceLock::new();
    R.get_or_init(|| tokio::runtime::Builder::new_multi_thread().worker_threads(4).enable_all().build().unwrap())
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Kind {
    Hyper,
    Reqwest,
    Blocking,
}
pub const KINDS: [Kind; 3] = [Kind::Hyper, Kind::Reqwest, Kind::Blocking];
fn client(k: Kind, t: Duration, auth: Option<&'static str>) -> Arc<dyn HttpClient> {
    match k {
        Kind::Hyper => Arc::new(HyperClient::with_default_connector(t, auth.map(|a| a.parse().unwrap()))),
        Kind::Reqwest => Arc::new(reqwest::Client::builder().timeout(t).build().unwrap()),
        Kind::Blocking => Arc::new(reqwest::blocking::Client::builder().timeout(t).build().unwrap()),
    }
}
fn send(k: Kind, c: &Arc<dyn HttpClient>, r: Request<Bytes>) -> Result<opentelemetry_http::Response<Bytes>, String> {
    match k {
        Kind::Blocking => crate::common::ready(c.send_bytes(r)),
        _ => rt().block_on(c.send_bytes(r)),
    }
    .map_err(|e| e.to_string())
}
fn content(n: usize) -> Vec<u8> {
    (0..n).map(|i| (i * 31 % 251) as u8).collect()
}
fn delivery(r: &mut Run) {
    let methods = ["POST", "GET", "PUT", "DELETE"];
    let paths = ["/", "/v1/traces", "/a/b?x=1&y=%20", "/%C3%A9"];
    let heads: [&[(&str, &str)]; 4] = [&[], &[("k", "v")], &[("k", "1"), ("k", "2"), ("content-type", "application/x-protobuf")], &[("authorization", "own"), ("user-agent", "me")]];
    let bodies = [0usize, 1, 70_000, 1 << 20];
    let bodies = &bodies[..r.pick(3, 4)];
    let auths = [None, Some("Bearer x")];
    for k in KINDS {
        let srv = Server::start();
        let cs: Vec<_> = auths.iter().map(|a| client(k, Duration::from_secs(15), *a)).collect();
        product(&[methods.len(), paths.len(), heads.len(), bodies.len(), if k == Kind::Hyper { 2 } else { 1 }], |ix| {
            let (m, p, h, b) = (methods[ix[0]], paths[ix[1]], heads[ix[2]], bodies[ix[3]]);
            let auth = auths[ix[4]];
            r.case(|| format!("{k:?} client with authorization {auth:?}: {m} {p} {h:?} with a body of {b} bytes"), |o| {
                let mut q = Request::builder().method(m).uri(format!("http://127.0.0.1:{}{p}", srv.port));
                for (a, v) in h {
                    q = q.header(*a, *v);
                }
                srv.take();
                let res = send(k, &cs[ix[4]], q.body(Bytes::from(content(b))).unwrap())?;
                ensure!(res.status() == 200, "status {}", res.status());
                let s = srv.take();
                ensure!(s.len() == 1, "{} requests", s.len());
                ensure!(s[0].method == m && s[0].uri == p, "{} {}", s[0].method, s[0].uri);
                ensure!(s[0].body[..] == content(b), "a body of {} bytes", s[0].body.len());
                let mut want: Vec<(&str, &str)> = h.to_vec();
                if let Some(a) = auth {
                    want.retain(|x| x.0 != "authorization");
                    want.push(("authorization", a));
                }
                let names: std::collections::BTreeSet<_> = want.iter().map(|x| x.0).collect();
                for n in names {
                    let got: Vec<_> = s[0].headers.iter().filter(|x| x.0 == n).map(|x| x.1.as_str()).collect();
                    let w: Vec<_> = want.iter().filter(|x| x.0 == n).map(|x| x.1).collect();
                    ensure!(got == w, "header {n}: {got:?} instead of {w:?}");
                }
                for x in &s[0].headers {
                    let own = ["host", "content-length", "accept", "user-agent", "transfer-encoding", "accept-encoding", "connection"].contains(&x.0.as_str());
                    ensure!(own || want.iter().any(|y| y.0 == x.0), "unexpected header {x:?}");
                }
                o.step(&(m, p, b));
                o.outcome(&(k, m, p, b));
                Ok(())
            });
        });
    }
}
fn responses(r: &mut Run) {
    let heads: [Vec<(&'static str, &'static str)>; 3] = [vec![], vec![("x", "1")], vec![("x", "1"), ("x", "2"), ("content-type", "text/plain")]];
    let bodies: [usize; 4] = [0, 1, 5_000, 40_000];
    let statuses: Vec<u16> = r.pick(vec![200, 201, 202, 203, 204, 206, 226, 299, 400, 401, 403, 404, 408, 413, 429, 499, 500, 501, 502, 503, 504, 599], (200..=299).chain(400..=599).filter(|s| ![205].contains(s)).collect());
    for k in KINDS {
        let srv = Server::start();
        let c = client(k, Duration::from_secs(15), None);
        product(&[statuses.len(), heads.len(), bodies.len(), 2], |ix| {
            let (st, h, b, chunked) = (statuses[ix[0]], &heads[ix[1]], bodies[ix[2]], ix[3] == 1);
            if st == 204 && (b > 0 || chunked) {
                return;
            }
            r.case(|| format!("{k:?} client: status {st}, headers {h:?}, a body of {b} bytes, chunked {chunked}"), |o| {
                srv.take();
                srv.reply(Reply::Full { status: st, headers: h.clone(), body: content(b), chunked });
                let res = send(k, &c, Request::post(format!("http://127.0.0.1:{}/", srv.port)).body(Bytes::from_static(b"q")).unwrap());
                ensure!(srv.take().len() == 1, "not exactly one request");
                match res {
                    Ok(res) => {
                        ensure!(res.status() == st, "status {} for {st}", res.status());
                        if st < 300 {
                            ensure!(res.body()[..] == content(b), "a body of {} bytes", res.body().len());
                            for (n, _) in h {
                                let got: Vec<_> = res.headers().get_all(*n).iter().map(|v| v.to_str().unwrap().to_string()).collect();
                                let w: Vec<_> = h.iter().filter(|x| x.0 == *n).map(|x| x.1).collect();
                                ensure!(got == w, "header {n}: {got:?} instead of {w:?}");
                            }
                        }
                    }
                    Err(e) => ensure!(st >= 300, "status {st} gives the error {e}"),
                }
                o.step(&(st, b));
                o.outcome(&(k, st));
                Ok(())
            });
        });
    }
}
fn failures(r: &mut Run) {
    let bad = [Reply::Close, Reply::PartHead, Reply::PartBody];
    for k in KINDS {
        let srv = Server::start();
        let c = client(k, Duration::from_secs(10), None);
        let (_held, closed) = closed_port();
        let n = bad.len() + 2;
        r.all_sequences(&(0..n).collect::<Vec<_>>(), r.pick(3, 5), |q| format!("{k:?} client: answers {:?}", q.iter().map(|i| name(*i, &bad)).collect::<Vec<_>>()), |q, o| {
            for i in q {
                srv.take();
                let mut port = srv.port;
                if *i < bad.len() {
                    srv.reply(bad[*i].clone());
                } else if *i == bad.len() {
                    port = closed;
                } else {
                    srv.reply(Reply::status(200));
                }
                let res = send(k, &c, Request::post(format!("http://127.0.0.1:{port}/")).body(Bytes::from_static(b"q")).unwrap());
                let good = *i == bad.len() + 1;
                ensure!(res.is_ok() == good, "answer {}: {:?}", name(*i, &bad), res.map(|x| x.status()));
                let seen = srv.take().len();
                ensure!(seen == (*i != bad.len()) as usize, "answer {}: {seen} requests", name(*i, &bad));
                o.step(&(k, i));
            }
            o.outcome(&(k, q));
            Ok(())
        });
    }
}
fn name(i: usize, bad: &[Reply]) -> String {
    if i < bad.len() {
        format!("{:?}", bad[i])
    } else if i == bad.len() {
        "connection refused".into()
    } else {
        "200".into()
    }
}
fn stalls(r: &mut Run) {
    // quick: one stalled request at a time per case; all of them bounded by the client's timeout
    for k in KINDS {
        for stall in [Stall::Nothing, Stall::PartHead, Stall::Head, Stall::PartBody] {
            for t in [100u64, 400] {
                for warm in [false, true] {
                    r.case(|| format!("{k:?} client with a timeout of {t} ms, connection in use before {warm}: the server stalls after {stall:?}"), |o| {
                        let srv = Server::start();
                        let c = client(k, Duration::from_millis(t), None);
                        let go = || send(k, &c, Request::post(format!("http://127.0.0.1:{}/", srv.port)).body(Bytes::from_static(b"q")).unwrap());
                        if warm {
                            // how long an answer takes is not judged here
                            let _ = go();
                        }
                        srv.reply(Reply::Wait(9_000, stall));
                        let begin = Instant::now();
                        let res = go();
                        ensure!(res.is_err() && begin.elapsed() < Duration::from_secs(8), "{:?} after {:?}", res.map(|x| x.status()), begin.elapsed());
                        o.step(&(k, stall, t));
                        o.outcome(&(k, stall));
                        Ok(())
                    });
                }
            }
        }
    }
}
pub fn families() -> Vec<Family> {
    vec![family("C52", "http-delivery", delivery), family("C52", "http-responses", responses), family("C52", "http-failures", failures), family("C52", "http-stalls", stalls)]
}
