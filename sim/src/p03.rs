//! P03: mutation root fields one after another, in order, at most once.
use crate::common::*;
use crate::fed::*;
use crate::gen::*;
use crate::gql::*;
use crate::json::J;
use crate::kernel::*;
use crate::net::*;
use crate::rng::*;
use crate::run::*;
use crate::world::*;
use crate::{check, hist};
use std::collections::BTreeSet;
use std::rc::Rc;

fn root_keys(sels: &[Sel], doc: &Doc, out: &mut Vec<String>) {
    for s in sels {
        match s {
            Sel::Field(f) => {
                if f.name != "__typename" && !out.contains(&f.key().to_string()) {
                    out.push(f.key().to_string())
                }
            }
            Sel::Inline { sels, .. } => root_keys(sels, doc, out),
            Sel::Spread { name, .. } => {
                if let Some((_, s)) = doc.frags.get(name) {
                    root_keys(s, doc, out)
                }
            }
        }
    }
}
fn up_keys(u: &Up) -> Vec<String> {
    let doc = parse(&u.query).unwrap();
    let mut v = vec![];
    if let Some(o) = doc.op(u.opname.as_deref()) {
        root_keys(&o.sels, &doc, &mut v);
    }
    v
}
/// The mutation exchanges of one client request.
fn judge_history(op: &GenOp, ups: &[Rc<Up>], what: &str) {
    let mut want = vec![];
    root_keys(&op.doc.op(op.opname.as_deref()).unwrap().sels, &op.doc, &mut want);
    let mut sent: Vec<String> = vec![];
    let mut last: Option<&Rc<Up>> = None;
    for u in ups {
        for key in up_keys(u) {
            check!("at-most-once", !sent.contains(&key), "{}: {} sent its mutation field {} upstream more than once", what, op.body(), key);
            let pos = match want.iter().position(|x| *x == key) {
                Some(p) => p,
                None => violate("unknown-root-field", format!("{}: {} caused an upstream mutation {} it does not contain", what, op.body(), key)),
            };
            if let Some(p) = sent.last() {
                let lp = want.iter().position(|x| x == p).unwrap();
                check!("in-order", lp < pos, "{}: {} sent {} after {}", what, op.body(), key, p);
            }
            sent.push(key);
        }
        if let Some(l) = last {
            check!("one-at-a-time", l.end.get() > 0 && l.end.get() <= u.at || u.at + 50 * MS >= l.at + 2 * SEC, "{}: {} sent {} while {} was still running (ended {} us, sent {} us)", what, op.body(), u.query, l.query, l.end.get() / 1000, u.at / 1000);
        }
        last = Some(u);
    }
}

pub fn setup(kk: &mut Kernel) {
    let mut g = stream(1);
    let cfg = GenCfg { requires: false, iface: false, union: false, nonnull: 15, mutation: true, ..GenCfg::default() };
    let fed = Rc::new(gen_fed(&mut g, &cfg));
    let n = fed.subs.len();
    let dedupe = g.chance(2, 3);
    let yaml = format!("headers:\n  all:\n    request:\n      - propagate:\n          named: x-req\ntraffic_shaping:\n  all:\n    request_timeout: 2s\n    dedupe_enabled: {}\n  router:\n    dedupe:\n      enabled: {}\n      headers: none\n", dedupe, g.chance(2, 3));
    // `headers: none` would let requests of different x-req share: exactly what mutations must never do
    files(kk, &fed.sdl(), 1 + g.below(4), &yaml);
    dns_subs(kk, &fed);
    let w: WRef = Default::default();
    let mut bad: BTreeSet<usize> = BTreeSet::new();
    if g.chance(1, 2) {
        if let Some(mut r) = item("failing subgraphs") {
            for s in 0..n {
                if r.chance(1, 2) {
                    bad.insert(s);
                }
            }
            item_desc(format!("failing subgraphs {:?}", bad));
        }
    }
    let b2 = bad.clone();
    subs(&w, &fed, move |g, up, a| {
        if b2.contains(&up.sub) && g.chance(1, 2) {
            a.fault = crate::p02::rfault(g, true);
        }
    });
    let npool = 1 + g.below(3);
    let pool: Vec<GenOp> = (0..npool)
        .map(|i| {
            let size = 2 + stream(300 + i).below(10) as i64;
            QGen::new(stream(200 + i), &fed).op("mutation", size)
        })
        .collect();
    let nclients = 1 + g.usize(5);
    let mut plans: Vec<Vec<(GenOp, u64, Option<u64>)>> = vec![vec![]; nclients];
    for i in 0..(nclients * (1 + g.usize(3))) {
        if let Some(mut r) = item("request") {
            let op = r.pick(&pool).clone();
            let d = if r.chance(1, 2) { 0 } else { r.log_range(1000, 80 * MS) };
            let quit = if r.chance(1, 6) { Some(r.log_range(100_000, 100 * MS)) } else { None };
            item_desc(format!("client {} sends {} after {} us{}", i % nclients, op.body(), d / 1000, quit.map(|q| format!(", leaves after {} us", q / 1000)).unwrap_or_default()));
            plans[i % nclients].push((op, d, quit));
        }
    }
    r().sample = pool[0].text.clone();
    kk.spawn("main", async move {
        ready().await;
        let wg = Wg::new(nclients);
        for (c, plan) in plans.into_iter().enumerate() {
            let (wg, fed, bad, w) = (wg.clone(), fed.clone(), bad.clone(), w.clone());
            k().spawn("client", async move {
                let mut g = stream(500 + c as u64);
                let net = rnet(&mut g);
                for (i, (op, d, quit)) in plan.into_iter().enumerate() {
                    sleep(d).await;
                    let id = format!("r{}x{}", c, i);
                    let hd = vec![h("x-req", &id)];
                    let mut cl = Client::new(net.clone(), false);
                    let t0 = k().now;
                    let res = until(t0 + quit.unwrap_or(120 * SEC), cl.gql(&op.body(), &hd)).await;
                    let left = res.is_none();
                    match res {
                        None if quit.is_some() => {
                            k().fault("client-leaves");
                            if let Some(mut s) = cl.sock.take() {
                                if g.chance(1, 2) {
                                    s.rst()
                                } else {
                                    s.close()
                                }
                            }
                        }
                        None => violate("left-hanging", format!("{} got no answer", op.body())),
                        Some(r) => {
                            let resp = must(r, &op.body());
                            if bad.is_empty() {
                                must_be_right(&fed, &op, &resp);
                            } else {
                                crate::p02::judge_faulty(&fed, &op, &body_json(&resp), &bad);
                            }
                        }
                    }
                    if left {
                        sleep(3 * SEC).await; // whatever still runs for it
                    }
                    let ups: Vec<Rc<Up>> = w.ups.borrow().iter().filter(|u| u.req == id && u.kind == "mutation").cloned().collect();
                    judge_history(&op, &ups, &id);
                    if bad.is_empty() && !left {
                        let mut want = vec![];
                        root_keys(&op.doc.op(op.opname.as_deref()).unwrap().sels, &op.doc, &mut want);
                        let got = body_keys(&w, &id);
                        // conditional root fields may be left out
                        if !op.text.contains("@") {
                            check!("each-exactly-once", got == want, "{} ({}) executed {:?} instead of {:?}", id, op.body(), got, want);
                        }
                    }
                    nontrivial();
                }
                wg.done();
            });
        }
        wg.wait().await;
        sleep(3 * SEC).await;
        // identical mutations at the same moment, from different requests
        if bad.is_empty() {
            let op = &pool[0];
            let from = w.ups.borrow().len();
            let count = |from: usize| -> Vec<usize> {
                let mut v = vec![0; fed.subs.len()];
                for u in w.ups.borrow().iter().skip(from) {
                    if u.kind == "mutation" {
                        v[u.sub] += 1;
                    }
                }
                v
            };
            let _ = Client::new(fast_net(), false).gql(&op.body(), &[]).await;
            sleep(100 * MS).await;
            let single = count(from);
            let from = w.ups.borrow().len();
            let m = 2 + g.usize(4);
            let wg = Wg::new(m);
            for i in 0..m {
                let (wg, op, fed) = (wg.clone(), op.clone(), fed.clone());
                let mut r = stream(900 + i as u64);
                k().spawn("twin", async move {
                    if r.chance(1, 3) {
                        sleep(r.log_range(1000, 20 * MS)).await;
                    }
                    let mut c = Client::new(fast_net(), false);
                    let resp = must(c.gql(&op.body(), &[]).await, &op.body());
                    must_be_right(&fed, &op, &resp);
                    wg.done();
                });
            }
            wg.wait().await;
            sleep(100 * MS).await;
            let many = count(from);
            for s in 0..fed.subs.len() {
                check!("each-executed-separately", many[s] == m * single[s], "{} identical mutations {} caused {} upstream mutations to s{}, one causes {}", m, op.body(), many[s], s, single[s]);
            }
        }
        done();
    });
}
fn body_keys(w: &WRef, id: &str) -> Vec<String> {
    let mut v = vec![];
    for u in w.ups.borrow().iter().filter(|u| u.req == id && u.kind == "mutation") {
        v.extend(up_keys(u));
    }
    v
}
