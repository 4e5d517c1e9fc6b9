//! P01: a federated query answers exactly what one server with all data would.
use crate::fed::*;
use crate::gen::*;
use crate::json::J;
use crate::kernel::*;
use crate::rng::*;
use crate::run::*;
use crate::world::*;
use crate::{check, hist};
use std::rc::Rc;

pub fn setup(kk: &mut Kernel) {
    let mut g = stream(1);
    let cfg = GenCfg::default();
    let fed = Rc::new(gen_fed(&mut g, &cfg));
    let dedupe = g.chance(1, 2);
    let yaml = format!("traffic_shaping:\n  all:\n    dedupe_enabled: {}\n", dedupe);
    files(kk, &fed.sdl(), 1 + g.below(3), &yaml);
    dns_subs(kk, &fed);
    let w: WRef = Default::default();
    for s in 0..fed.subs.len() {
        let mut gg = stream(100 + s as u64);
        let net = rnet(&mut gg);
        let rg = std::cell::RefCell::new(gg);
        serve_sub(&w, &fed, s, (sub_ip(s), 80), net, Rc::new(move |_, _| {
            let mut g = rg.borrow_mut();
            let mut a = Act::fine(rdelay(&mut g));
            a.chunked = g.chance(1, 3);
            a.close_after = g.chance(1, 10);
            a
        }));
    }
    // a pool of operations, so that caches and in-flight sharing come into play
    let npool = 3 + g.below(8);
    let pool: Vec<GenOp> = (0..npool).map(|i| {
        let size = 3 + stream(300 + i).below(14) as i64;
        QGen::new(stream(200 + i), &fed).op("query", size)
    }).collect();
    let pool = match std::env::var("HRSIM_Q") {
        Ok(q) => vec![GenOp { doc: crate::gql::parse(&q).unwrap(), text: q, opname: None, vars: J::parse(std::env::var("HRSIM_V").unwrap_or("{}".into()).as_bytes()).unwrap() }],
        _ => pool,
    };
    let nclients = 1 + g.usize(5);
    let nreq = 4 + g.usize(14);
    let mut plans: Vec<Vec<(GenOp, u64, Rng)>> = vec![vec![]; nclients];
    for i in 0..nreq {
        let c = i % nclients;
        if let Some(mut r) = item("request") {
            let op = r.pick(&pool).clone();
            let d = if r.chance(1, 2) { 0 } else { r.log_range(1000, 80 * MS) };
            if let Some(k) = op.odd() {
                crate::run::r().odd = Some(k);
            }
            item_desc(format!("client {} sends {} after {} us", c, op.body(), d / 1000));
            plans[c].push((op, d, r));
        }
    }
    r().sample = pool[0].text.clone();
    kk.spawn("main", async move {
        ready().await;
        let wg = Wg::new(nclients);
        for (c, plan) in plans.into_iter().enumerate() {
            let (wg, fed) = (wg.clone(), fed.clone());
            k().spawn("client", async move {
                let mut g = stream(500 + c as u64);
                let mut cl = Client::new(rnet(&mut g), g.chance(2, 3));
                for (op, d, _) in plan {
                    sleep(d).await;
                    hist!("client {} asks {}", c, op.body());
                    let resp = match cl.gql(&op.body(), &[]).await {
                        Ok(x) => x,
                        Err(e) => violate(finding(&op, b"", "no-response"), format!("request {} got no response: {:?}", op.body(), e)),
                    };
                    let j = body_json(&resp);
                    check!(if resp.status == 200 && j.get("errors").is_none() { "no-errors" } else { finding(&op, &resp.body, "no-errors") }, j.get("errors").is_none() && resp.status == 200, "healthy subgraphs, yet {} answered status {} errors {:?}", op.body(), resp.status, errs(&j));
                    let got = j.get("data").cloned().unwrap_or(J::Null);
                    if let Some(d) = fed.judge(&got, &op.doc, op.opname.as_deref(), &op.vars) {
                        violate(finding(&op, b"", "wrong-answer"), format!("{} answered wrongly {}", op.body(), d));
                    }
                    ok("answer-equals-reference");
                    nontrivial();
                }
                cl.close();
                wg.done();
            });
        }
        wg.wait().await;
        done();
    });
}

/// Known failures, told apart by the shape of the operation and the router's own error.
pub fn finding(op: &GenOp, body: &[u8], why: &'static str) -> &'static str {
    if let Some(k) = op.odd() {
        return k;
    }
    let log = String::from_utf8_lossy(&k().stdio);
    if op.text.contains("rq") && (String::from_utf8_lossy(body).contains("QUERY_PLAN_BUILD_FAILED") || log.contains("mismatch_finder.rs")) {
        return "requires-plan-fails";
    }
    why
}
