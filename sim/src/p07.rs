//! P07 / P08: supergraph reloads under load, and convergence to the newest supergraph over failing sources.
use crate::common::*;
use crate::fed::*;
use crate::flaky::*;
use crate::gen::*;
use crate::json::J;
use crate::kernel::*;
use crate::net::*;
use crate::rng::*;
use crate::run::*;
use crate::world::*;
use crate::{check, hist};
use std::cell::{Cell, RefCell};
use std::collections::BTreeSet;
use std::rc::Rc;

/// A version of the supergraph; several publications may carry the same one.
struct Ver {
    fed: Rc<Fed>,
    sdl: String,
    valid: bool,
}
#[derive(Default)]
struct Src {
    /// publications so far: (time, version)
    pubs: RefCell<Vec<(u64, usize)>>,
    /// publication the router may have got, with the time it was asked for
    offered: RefCell<Vec<(u64, usize)>>,
    /// completely delivered
    sent: RefCell<Vec<(u64, usize)>>,
    bad: Cell<bool>,
    /// times the file became unreadable
    broke: RefCell<Vec<u64>>,
    asked: Cell<u64>,
    pulse: RefCell<Flag>,
}
impl Src {
    fn cur(&self) -> usize {
        self.pubs.borrow().len() - 1
    }
    fn pulse(&self) {
        let f = std::mem::replace(&mut *self.pulse.borrow_mut(), Flag::new());
        f.set();
    }
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    File,
    Hive,
    Uplink,
    S3,
}

/// The same federation with other data, its graphs dealt out anew.
fn redeal(base: &Fed, g: &mut Rng, ver: usize) -> Fed {
    let n = base.subs.len();
    let mut perm: Vec<usize> = (0..n).collect();
    g.shuffle(&mut perm);
    let mut f = base.clone();
    f.salt = g.next();
    let p = |v: &mut Vec<usize>| {
        for x in v.iter_mut() {
            *x = perm[*x];
        }
        v.sort();
    };
    for t in f.types.iter_mut() {
        for s in t.subs.iter_mut() {
            s.0 = perm[s.0];
        }
        t.subs.sort();
        for d in t.fields.iter_mut() {
            p(&mut d.owners);
            p(&mut d.external);
            for x in d.provides.iter_mut() {
                x.0 = perm[x.0];
            }
            if let Some(x) = &mut d.requires {
                x.0 = perm[x.0];
            }
            if let Some(x) = &mut d.over {
                x.0 = perm[x.0];
                x.1 = perm[x.1];
            }
        }
    }
    for (i, s) in f.subs.iter_mut().enumerate() {
        s.1 = format!("http://s{}.sub:80/v{}", i, ver);
    }
    let owner = g.usize(n);
    f.tm("Query").fields.push(FieldDef::new(&format!("only{}", ver), "String!", &[owner]));
    f.doc = format!("version {}", ver);
    f
}
fn broken(g: &mut Rng, good: &str) -> String {
    match g.below(6) {
        0 => String::new(),
        1 => "<html>not found</html>".into(),
        // a torn one
        2 => {
            let mut n = good.len() / 3 + g.usize(good.len() / 2);
            while !good.is_char_boundary(n) {
                n += 1;
            }
            let s = good[..n].to_string();
            // never by chance a whole document
            s + "\ntype {"
        }
        3 => good.replace("enum join__Graph {", "enum join__Graph { ]"),
        4 => good.replace("type Query", "type Quark"),
        _ => format!("{}\ntype Query {{ a: Int }} }}", good),
    }
}

pub fn setup7(kk: &mut Kernel) {
    setup(kk, false)
}
pub fn setup8(kk: &mut Kernel) {
    setup(kk, true)
}
fn setup(kk: &mut Kernel, faulty: bool) {
    // the build of a broken supergraph may panic, as long as the router goes on
    r().allow_panic = true;
    let mut g = stream(1);
    let iface = g.chance(1, 2);
    let base = gen_fed(&mut g, &GenCfg { subs: (2, 3), entities: (2, 3), requires: false, iface, union: false, ..GenCfg::default() });
    let n = base.subs.len();
    let kind = if faulty { *g.pick(&[Kind::File, Kind::Hive, Kind::Hive, Kind::Uplink, Kind::S3]) } else { *g.pick(&[Kind::File, Kind::File, Kind::Hive, Kind::Uplink]) };
    // what is published, and when
    let mut vers: Vec<Ver> = vec![];
    let mut good: Vec<usize> = vec![];
    let mk = |g: &mut Rng, vers: &mut Vec<Ver>| {
        let i = vers.len();
        let f = redeal(&base, g, i);
        let sdl = f.sdl();
        vers.push(Ver { fed: Rc::new(f), sdl, valid: true });
        i
    };
    good.push(mk(&mut g, &mut vers));
    let poll = match kind {
        Kind::File => g.log_range(100, 5000) * MS,
        Kind::Hive => g.log_range(500, 10_000) * MS,
        // the first poll interval is fixed, later ones come with the answers
        Kind::Uplink => 10 * SEC,
        Kind::S3 => g.log_range(500, 10_000) * MS,
    };
    let horizon = if kind == Kind::File { 3 * SEC + g.below(8) * poll } else { 10 * SEC + g.below(6) * poll };
    let mut plan: Vec<(u64, usize, u64)> = vec![];
    for i in 0..1 + g.below(6) {
        if let Some(mut r) = item("publication") {
            let at = r.below(horizon);
            let v = match r.below(6) {
                0 | 1 if i > 0 => {
                    let v = vers.len();
                    let b = broken(&mut r, &vers[0].sdl.clone());
                    vers.push(Ver { fed: vers[0].fed.clone(), sdl: format!("{}\n# {}", b, v), valid: false });
                    v
                }
                2 => *r.pick(&good),
                _ => {
                    let v = mk(&mut r, &mut vers);
                    good.push(v);
                    v
                }
            };
            item_desc(format!("at {} ms version {} is published{}", at / MS, v, if vers[v].valid { "" } else { " (an invalid one)" }));
            plan.push((at, v, r.next()));
        }
    }
    plan.sort();
    let vers = Rc::new(vers);
    let src: Rc<Src> = Default::default();
    let timeout = *g.pick(&[1u64, 3, 6]) * SEC;
    let retries = g.below(3);
    let endpoints = 1 + g.below(2);
    let min_delay = *g.pick(&[1u64, 2, 5]);
    let mut yaml = format!("headers:\n  all:\n    request:\n      - propagate:\n          named: x-req\ntraffic_shaping:\n  router:\n    dedupe:\n      enabled: {}\n", g.chance(1, 2));
    let list = |h: &str, path: &str| -> String { format!("[{}]", (0..endpoints).map(|i| format!("\"http://{}{}.sim{}\"", h, i, path)).collect::<Vec<_>>().join(", ")) };
    let source = match kind {
        Kind::File => format!("  source: file\n  path: /sim/sg.graphql\n  poll_interval: {}ms\n", poll / MS),
        Kind::Hive => format!("  source: hive\n  endpoint: {}\n  key: sekrit\n  poll_interval: {}ms\n  request_timeout: {}ms\n  connect_timeout: 1s\n  retry_policy:\n    max_retries: {}\n", list("cdn", "/artifacts/v1/x/supergraph"), poll / MS, timeout / MS, retries),
        Kind::Uplink => format!("  source: apollo_graphos\n  graph_ref: g@current\n  key: sekrit\n  endpoint: {}\n  timeout: {}ms\n", list("cdn", "/"), timeout / MS),
        Kind::S3 => {
            yaml += "storages:\n  buck:\n    type: s3\n    bucket: sg\n    region: us-east-1\n    endpoint: http://cdn0.sim\n    allow_http: true\n    credentials:\n      type: static\n      access_key_id: a\n      secret_access_key: b\n";
            format!("  source: storage\n  storage_id: buck\n  location: dir/sg.graphql\n  poll_interval: {}ms\n", poll / MS)
        }
    };
    // until a healthy source must have been noticed
    let bound = match kind {
        Kind::File => 2 * poll + 2 * SEC,
        Kind::Hive => 2 * poll + endpoints * (retries + 1) * (timeout + 5 * SEC) + 32 * SEC,
        Kind::Uplink => 22 * SEC + endpoints * timeout,
        Kind::S3 => 2 * poll + 240 * SEC,
    };
    let fresh = match kind {
        Kind::Uplink => 12 * SEC,
        _ => poll + 2 * SEC,
    };
    files_source(kk, &source, 1 + g.below(4), &yaml);
    kk.fs_write("/sim/sg.graphql", vers[0].sdl.clone().into_bytes());
    for v in vers.iter() {
        kk.log(|| v.sdl.clone());
    }
    dns_subs(kk, &base);
    src.pubs.borrow_mut().push((0, 0));
    if kind == Kind::File {
        src.offered.borrow_mut().push((0, 0));
        src.sent.borrow_mut().push((0, 0));
    }
    let w: WRef = Default::default();
    let fault_pct = if faulty {
        if let Some(mut r) = item("source faults") {
            item_desc("the source fails at times".into());
            *r.pick(&[30u64, 70, 100])
        } else {
            0
        }
    } else {
        0
    };
    if kind != Kind::File {
        for e in 0..endpoints {
            kk.dns.insert(format!("cdn{}.sim", e), ip(10, 0, 8, e as u8 + 1));
            let (src, vers) = (src.clone(), vers.clone());
            let gg = RefCell::new(stream(700 + e));
            http((ip(10, 0, 8, e as u8 + 1), 80), "supergraph source", if g.chance(1, 2) { fast_net() } else { rnet(&mut g) }, move |rq| {
                let mut g = gg.borrow_mut();
                let p = src.cur();
                let v = src.pubs.borrow()[p].1;
                let etag = format!("\"v{}\"", v);
                src.asked.set(src.asked.get() + 1);
                let mut a: Ans = if kind == Kind::Uplink {
                    let j = J::parse(&rq.body).unwrap_or(J::Null);
                    let last = j.at(&["variables", "ifAfterId"]).and_then(|x| x.str()).map(|s| s.to_string());
                    let md = J::Num(format!("{}", min_delay));
                    let rc = if last.as_deref() == Some(&etag) {
                        crate::obj! {"__typename" => J::s("Unchanged"), "id" => J::s(&etag), "minDelaySeconds" => md}
                    } else {
                        crate::obj! {"__typename" => J::s("RouterConfigResult"), "id" => J::s(&etag), "supergraphSDL" => J::s(&vers[v].sdl), "minDelaySeconds" => md}
                    };
                    Ans::new(200, "application/json", crate::obj! {"data" => crate::obj!{"routerConfig" => rc}}.to_string())
                } else {
                    if kind == Kind::Hive {
                        check!("cdn-key-sent", rq.headers.get("x-hive-cdn-key").as_deref() == Some("sekrit"), "a request to the CDN without the configured key: {:?}", rq.headers);
                    }
                    if rq.headers.get("if-none-match").as_deref() == Some(&etag) {
                        k().probe("not modified");
                        let mut a = Ans::new(304, "text/plain", "");
                        a.headers.push(h("etag", &etag));
                        a.headers.push(h("last-modified", "Wed, 01 Jan 2025 00:00:00 GMT"));
                        a
                    } else {
                        let mut a = Ans::new(200, "text/plain", vers[v].sdl.clone());
                        if let (Kind::S3, Some(rg)) = (kind, rq.headers.get("range")) {
                            // the client resumes a body that broke off
                            k().probe("resumed body");
                            let from: usize = rg.trim_start_matches("bytes=").split('-').next().and_then(|x| x.parse().ok()).unwrap_or(0);
                            let n = a.body.len();
                            if rq.headers.get("if-match").map(|m| m != etag).unwrap_or(false) {
                                a.status = 412;
                                a.body = vec![];
                            } else if from < n {
                                a.status = 206;
                                a.body = a.body[from..].to_vec();
                                a.headers.push(h("content-range", &format!("bytes {}-{}/{}", from, n - 1, n)));
                            }
                        }
                        a.headers.push(h("etag", &etag));
                        a.headers.push(h("last-modified", "Wed, 01 Jan 2025 00:00:00 GMT"));
                        a
                    }
                };
                a.delay = if g.chance(1, 2) { 0 } else { g.log_range(1000, 300 * MS) };
                a.chunked = kind != Kind::S3 && g.chance(1, 3);
                a.close = g.chance(1, 4);
                let mut garbage = false;
                if src.bad.get() && g.below(100) < fault_pct {
                    match g.below(12) {
                        0 | 1 => {
                            a.status = *g.pick(&[500, 502, 503, 404, 403, 429]);
                            a.headers.retain(|x| x.0 != "etag");
                            a.body = b"{\"errors\":[{\"message\":\"x\"}]}".to_vec();
                            garbage = true;
                            k().fault("source-http-error");
                        }
                        2 => {
                            // a page from something in between
                            a.status = 200;
                            a.headers = vec![h("content-type", "text/html")];
                            a.body = b"<html>captive portal</html>".to_vec();
                            garbage = true;
                            k().fault("source-garbage");
                        }
                        3 => {
                            a.status = 200;
                            a.headers = vec![h("content-type", "text/plain")];
                            a.body = vec![];
                            garbage = true;
                            k().fault("source-empty");
                        }
                        4 if kind == Kind::Uplink => {
                            a.body = if g.chance(1, 2) { b"{\"data\":null,\"errors\":[{\"message\":\"x\"}]}".to_vec() } else { b"{\"data\":{\"routerConfig\":{\"__typename\":\"FetchError\",\"code\":\"RETRY_LATER\",\"message\":\"x\"}}}".to_vec() };
                            garbage = true;
                            k().fault("source-fetch-error");
                        }
                        4 | 5 => {
                            a.delay = timeout + 500 * MS;
                            k().fault("source-slow");
                        }
                        6 => {
                            a.body_delay = timeout + 500 * MS;
                            k().fault("source-slow-body");
                        }
                        7 => a.fault = Fault::TruncFin,
                        8 => a.fault = Fault::TruncRst,
                        _ => a.fault = transport_fault(&mut g, true),
                    }
                }
                if !garbage && a.fault == Fault::None {
                    src.offered.borrow_mut().push((k().now, p));
                    let (src, sent, end) = (src.clone(), a.sent.clone(), a.end.clone());
                    k().spawn("note", async move {
                        while end.get() == 0 {
                            sleep(2 * MS).await;
                        }
                        if sent.get() != 0 {
                            src.sent.borrow_mut().push((sent.get(), p));
                            src.pulse();
                        }
                    });
                }
                a
            });
        }
    }
    // subgraphs: the path of a request names the version it was planned with
    for s in 0..n {
        let mut gg = stream(100 + s as u64);
        let net = rnet(&mut gg);
        let rg = RefCell::new(gg);
        let v2 = vers.clone();
        let pick: Pick = Rc::new(move |up: &Up| {
            let v: usize = up.target.trim_start_matches("/v").parse().unwrap_or(usize::MAX);
            match v2.get(v) {
                Some(v) if v.valid => v.fed.clone(),
                _ => violate("unpublished-url", format!("a request to {} of subgraph {}", up.target, up.sub)),
            }
        });
        serve_sub_of(&w, s, (sub_ip(s), 80), net, pick, Rc::new(move |_, _| {
            let mut g = rg.borrow_mut();
            let mut a = Act::fine(rdelay(&mut g));
            if g.chance(1, 6) {
                a.delay = g.log_range(100 * MS, 4 * SEC);
            }
            a.chunked = g.chance(1, 3);
            a
        }));
    }
    let nops = 1 + g.below(3);
    let pool: Vec<GenOp> = (0..nops)
        .map(|i| {
            let size = 2 + stream(300 + i).below(7) as i64;
            // operations may use what is the same in every version
            QGen::new(stream(200 + i), &base).op("query", size)
        })
        .collect();
    r().sample = pool[0].text.clone();
    let nclients = 1 + g.usize(5);
    let mut plans: Vec<Vec<(u64, u64)>> = vec![vec![]; nclients];
    for i in 0..nclients * (2 + g.usize(8)) {
        if let Some(mut r) = item("request") {
            let d = if r.chance(1, 3) { 0 } else { r.log_range(1 * MS, 3 * SEC) };
            item_desc(format!("client {} sends a request after {} ms", i % nclients, d / MS));
            plans[i % nclients].push((d, r.next()));
        }
    }
    kk.spawn("main", async move {
        ready().await;
        let t_start = k().now;
        src.bad.set(true);
        let pubs_done = Flag::new();
        {
            let (src, vers, pd) = (src.clone(), vers.clone(), pubs_done.clone());
            k().spawn("publisher", async move {
                for (t, v, sd) in plan {
                    sleep_until(t_start + t).await;
                    let mut g = Rng::new(sd);
                    publish(&src, &vers, v, kind, &mut g).await;
                }
                pd.set();
            });
        }
        let wg = Wg::new(nclients);
        // (answered, smallest publication it can have used)
        let seen: Rc<RefCell<Vec<(u64, usize)>>> = Default::default();
        let st = Rc::new(Judge { src: src.clone(), vers: vers.clone(), seen: seen.clone(), fresh: if fault_pct == 0 { fresh } else { u64::MAX / 4 }, w: w.clone() });
        for (c, plan) in plans.into_iter().enumerate() {
            let (wg, st, pool) = (wg.clone(), st.clone(), pool.clone());
            k().spawn("client", async move {
                let mut g = stream(500 + c as u64);
                let mut cl = Client::new(if g.chance(1, 2) { fast_net() } else { rnet(&mut g) }, g.chance(2, 3));
                for (i, (d, sd)) in plan.into_iter().enumerate() {
                    let mut r = Rng::new(sd);
                    if r.chance(1, 2) {
                        // just when a version arrives
                        let f = st.src.pulse.borrow().clone();
                        until(k().now + 6 * SEC, async move { f.wait().await }).await;
                        sleep(r.log_range(1, 400 * MS)).await;
                    } else {
                        sleep(d).await;
                    }
                    let id = format!("{}r{}", c, i);
                    one(&st, &mut cl, &pool, &mut r, &id, None).await;
                }
                cl.close();
                wg.done();
            });
        }
        wg.wait().await;
        pubs_done.wait().await;
        // faults stop
        src.bad.set(false);
        if faulty {
            hist!("the source is healthy from now on");
            let t = k().now;
            sleep(bound).await;
            let cur = src.cur();
            let v = src.pubs.borrow()[cur].1;
            let want = if vers[v].valid { Some(cur) } else { None };
            let mut cl = Client::new(fast_net(), true);
            let mut g = stream(900);
            for i in 0..3 {
                one(&st, &mut cl, &pool, &mut g, &format!("end{}", i), want.map(|p| (p, t))).await;
            }
        } else if fault_pct == 0 {
            // the last valid version that lasted is the one served
            sleep(fresh).await;
            let mut cl = Client::new(fast_net(), true);
            let mut g = stream(900);
            for i in 0..2 {
                one(&st, &mut cl, &pool, &mut g, &format!("end{}", i), None).await;
            }
        }
        done();
    });
}
async fn publish(src: &Rc<Src>, vers: &Rc<Vec<Ver>>, v: usize, kind: Kind, g: &mut Rng) {
    let p = src.pubs.borrow().len();
    hist!("publication {}: version {}", p, v);
    if !vers[v].valid {
        k().fault("invalid-supergraph-published");
    }
    let data = vers[v].sdl.clone().into_bytes();
    if kind == Kind::File {
        let path = "/sim/sg.graphql";
        let rt = k().realtime();
        match g.below(5) {
            0 => {
                // written in place, in two steps
                k().fault("torn-file-write");
                src.broke.borrow_mut().push(k().now);
                // a half that is no document by itself: a reader cannot tell one that is
                let mut cut = (data.len() / 4 + g.usize(data.len() / 2 + 1)).min(data.len().max(1) - 1);
                let data = if data.is_empty() { b" ".to_vec() } else { data };
                while cut > 0 && data[cut] != b'{' {
                    cut -= 1;
                }
                k().fs_write(path, data[..(cut + 1).min(data.len())].to_vec());
                sleep(g.log_range(1 * MS, 3 * SEC)).await;
                src.offered.borrow_mut().push((k().now, p));
                src.pubs.borrow_mut().push((k().now, v));
                k().fs_write(path, data);
            }
            1 => {
                k().fault("file-missing-for-a-while");
                src.broke.borrow_mut().push(k().now);
                k().fs_remove(path);
                sleep(g.log_range(1 * MS, 3 * SEC)).await;
                src.offered.borrow_mut().push((k().now, p));
                src.pubs.borrow_mut().push((k().now, v));
                k().fs_write(path, data);
            }
            2 => {
                // moved in from elsewhere, keeping its older time
                k().fault("file-with-older-time");
                src.offered.borrow_mut().push((k().now, p));
                src.pubs.borrow_mut().push((k().now, v));
                k().fs_write_at(path, data, rt - g.log_range(1 * SEC, 100_000 * SEC) - p as u64);
            }
            _ => {
                src.offered.borrow_mut().push((k().now, p));
                src.pubs.borrow_mut().push((k().now, v));
                k().fs_write(path, data);
            }
        }
        src.sent.borrow_mut().push((k().now, p));
        src.pulse();
    } else {
        src.pubs.borrow_mut().push((k().now, v));
    }
}
struct Judge {
    src: Rc<Src>,
    vers: Rc<Vec<Ver>>,
    seen: Rc<RefCell<Vec<(u64, usize)>>>,
    fresh: u64,
    w: WRef,
}
async fn one(st: &Rc<Judge>, cl: &mut Client, pool: &[GenOp], r: &mut Rng, id: &str, want: Option<(usize, u64)>) {
    let vers = &st.vers;
    let valid: Vec<usize> = (0..vers.len()).filter(|v| vers[*v].valid).collect();
    // an operation every version has, or one only a single version has
    let only = if r.chance(1, 2) { Some(*r.pick(&valid)) } else { None };
    let op = match only {
        Some(v) => GenOp::from_text(&format!("{{only{}}}", v), J::Obj(vec![])),
        None => r.pick(pool).clone(),
    };
    let t0 = k().now;
    hist!("{} sends {}", id, op.body());
    let c: &mut Client = cl;
    let resp = must(c.gql(&op.body(), &[h("x-req", id)]).await, &op.body());
    let t1 = k().now;
    let j = body_json(&resp);
    hist!("{} answered {} {}", id, resp.status, j.to_string());
    let data = j.get("data").cloned().unwrap_or(J::Null);
    let noerr = j.get("errors").is_none() && resp.status == 200;
    let fits: BTreeSet<usize> = valid
        .iter()
        .copied()
        .filter(|v| match only {
            Some(o) if o != *v => !noerr && data.is_null() && errs(&j).iter().any(|e| e.contains(&format!("only{}", o))),
            _ => noerr && vers[*v].fed.judge(&data, &op.doc, op.opname.as_deref(), &op.vars).is_none(),
        })
        .collect();
    let used: BTreeSet<String> = st.w.ups.borrow().iter().filter(|u| u.req == id).map(|u| u.target.clone()).collect();
    check!("one-version-per-request", used.len() <= 1, "{} {} was executed with fetches of several supergraph versions: {:?}", id, op.body(), used);
    let src = &st.src;
    let pubs = src.pubs.borrow().clone();
    // publications that may have been current between arrival and response
    let hi = src.offered.borrow().iter().filter(|x| x.0 <= t1).map(|x| x.1).max();
    let hi = match hi {
        Some(x) => x,
        None => violate("answer-before-any-supergraph", format!("{} was answered before any supergraph was delivered", id)),
    };
    let mut lo = st.seen.borrow().iter().filter(|x| x.0 <= t0).map(|x| x.1).max().unwrap_or(0);
    for (i, (at, v)) in pubs.iter().enumerate() {
        // it was there long enough to be noticed, and nothing newer came
        let mut next = pubs.get(i + 1).map(|x| x.0).unwrap_or(u64::MAX);
        for b in src.broke.borrow().iter().filter(|b| **b >= *at) {
            next = next.min(*b);
        }
        if vers[*v].valid && next.min(t0) >= *at && next.min(t0) - *at >= st.fresh {
            lo = lo.max(i);
        }
    }
    if let Some((p, _)) = want {
        lo = p;
    }
    let ok_pubs: Vec<usize> = (lo..=hi).filter(|p| {
        let v = pubs[*p].1;
        vers[v].valid && fits.contains(&v) && used.iter().all(|t| *t == format!("/v{}", v))
    }).collect();
    if ok_pubs.is_empty() {
        let key = if want.is_some() {
            "did-not-converge"
        } else if fits.is_empty() {
            "answer-of-no-version"
        } else {
            "answer-of-wrong-version"
        };
        violate(key, format!("{} {} sent at {} ms, answered at {} ms: {} {}\n fetches {:?}, fits versions {:?}, allowed publications {}..={}, publications (time, version) {:?}, delivered {:?}", id, op.body(), t0 / MS, t1 / MS, resp.status, j.to_string(), used, fits, lo, hi, pubs.iter().map(|x| (x.0 / MS, x.1, vers[x.1].valid)).collect::<Vec<_>>(), src.sent.borrow().iter().map(|x| (x.0 / MS, x.1)).collect::<Vec<_>>()));
    }
    ok("version-current-during-request");
    if want.is_some() {
        ok("converged-to-newest");
    }
    if ok_pubs[0] > 0 {
        k().probe("answered with a later publication");
    }
    if only.is_none() || noerr {
        nontrivial();
    }
    st.seen.borrow_mut().push((t1, ok_pubs[0]));
}
