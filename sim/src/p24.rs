//! P24: plans, upstream requests and answers do not depend on worker, run or cache state.
use crate::common::*;
use crate::fed::*;
use crate::gen::*;
use crate::json::J;
use crate::kernel::*;
use crate::net::*;
use crate::rng::*;
use crate::run::*;
use crate::world::*;
use crate::{check, hist};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;

pub fn setup(kk: &mut Kernel) {
    let mut g = stream(1);
    let fed = Rc::new(gen_fed(&mut g, &GenCfg { share: 30, ..GenCfg::default() }));
    let n = fed.subs.len();
    let mut yaml = String::from("headers:\n  all:\n    request:\n      - propagate:\n          named: x-req\nquery_planner:\n  allow_expose: true\n");
    yaml += &format!("traffic_shaping:\n  router:\n    dedupe:\n      enabled: {}\n", g.chance(1, 3));
    files_poll(kk, &fed.sdl(), 1 + g.below(4), 200, &yaml);
    dns_subs(kk, &fed);
    let w: WRef = Default::default();
    healthy_subs(&w, &fed);
    let pool = Rc::new(pool(&fed, 1 + g.below(3), 18));
    let rounds = 2 + g.usize(3);
    let nclients = 1 + g.usize(4);
    r().sample = pool[0].text.clone();
    let mut plans: Vec<Vec<Vec<(usize, u64, bool)>>> = vec![];
    for ro in 0..rounds {
        let mut v = vec![vec![]; nclients];
        for i in 0..(nclients * (1 + g.usize(3))) {
            if let Some(mut r) = item("request") {
                let (op, d, dry) = (r.usize(pool.len()), if r.chance(1, 2) { 0 } else { r.log_range(1000, 50 * MS) }, r.chance(1, 3));
                item_desc(format!("round {} client {} {} {}", ro, i % nclients, if dry { "asks the plan of" } else { "sends" }, pool[op].body()));
                v[i % nclients].push((op, d, dry));
            }
        }
        plans.push(v);
    }
    let sdl = fed.sdl();
    kk.spawn("main", async move {
        ready().await;
        // op -> (upstream requests, body, plan)
        let ups0: Rc<RefCell<BTreeMap<usize, Vec<(usize, String, String)>>>> = Default::default();
        let body0: Rc<RefCell<BTreeMap<usize, Vec<u8>>>> = Default::default();
        let plan0: Rc<RefCell<BTreeMap<usize, Vec<u8>>>> = Default::default();
        for (ro, round) in plans.into_iter().enumerate() {
            if ro > 0 {
                // the same supergraph once more: nothing is cached any longer
                hist!("rewriting the supergraph file");
                k().fs_write("/sim/sg.graphql", format!("{}\n# {}\n", sdl, ro).into_bytes());
                k().fault("supergraph-rewritten");
                if g.chance(2, 3) {
                    sleep(1500 * MS).await;
                }
            }
            let wg = Wg::new(round.len());
            for (c, plan) in round.into_iter().enumerate() {
                let (wg, fed, w, pool, ups0, body0, plan0) = (wg.clone(), fed.clone(), w.clone(), pool.clone(), ups0.clone(), body0.clone(), plan0.clone());
                k().spawn("client", async move {
                    let mut g = stream(500 + c as u64 + 100 * ro as u64);
                    let net = rnet(&mut g);
                    for (i, (oi, d, dry)) in plan.into_iter().enumerate() {
                        sleep(d).await;
                        let op = &pool[oi];
                        let id = format!("q{}r{}x{}", ro, c, i);
                        let mut hd = vec![h("x-req", &id)];
                        if dry {
                            hd.push(h("hive-expose-query-plan", "dry-run"));
                        }
                        let mut cl = Client::new(net.clone(), false);
                        let resp = must(cl.gql(&op.body(), &hd).await, &op.body());
                        if dry {
                            let j = body_json(&resp);
                            check!("plan-exposed", j.at(&["extensions", "queryPlan"]).is_some(), "no plan in {}", j.to_string());
                            let mut m = plan0.borrow_mut();
                            let e = m.entry(oi).or_insert_with(|| resp.body.clone());
                            check!("same-plan", crate::fed::canon(&j) == crate::fed::canon(&J::parse(e).unwrap()), "{} was planned differently in round {}\n first {}\n now   {}", op.body(), ro, String::from_utf8_lossy(e), String::from_utf8_lossy(&resp.body));
                        } else {
                            must_be_right(&fed, op, &resp);
                            let mut m = body0.borrow_mut();
                            let e = m.entry(oi).or_insert_with(|| resp.body.clone());
                            check!("same-bytes", *e == resp.body, "{} was answered with other bytes in round {}\n first {}\n now   {}", op.body(), ro, String::from_utf8_lossy(e), String::from_utf8_lossy(&resp.body));
                            let mut u: Vec<(usize, String, String)> = w.ups.borrow().iter().filter(|u| u.req == id).map(|u| (u.sub, u.query.clone(), vars_of(&u.vars))).collect();
                            u.sort();
                            let mut m = ups0.borrow_mut();
                            let e = m.entry(oi).or_insert_with(|| u.clone());
                            check!("same-upstream-requests", *e == u, "{} caused other upstream requests in round {}\n first {:?}\n now   {:?}", op.body(), ro, e, u);
                            nontrivial();
                        }
                    }
                    wg.done();
                });
            }
            wg.wait().await;
        }
        done();
    });
}
/// Variables without the order of object members, which has no meaning.
fn vars_of(j: &J) -> String {
    crate::fed::canon(j)
}
