//! P06: configured timeouts bound every request.
use crate::common::*;
use crate::fed::*;
use crate::gen::*;
use crate::json::J;
use crate::kernel::*;
use crate::net::*;
use crate::rng::*;
use crate::run::*;
use crate::world::*;
use crate::{check, hist};
use std::cell::RefCell;
use std::collections::BTreeSet;
use std::rc::Rc;

pub fn setup(kk: &mut Kernel) {
    let mut g = stream(1);
    let cfg = GenCfg { requires: false, iface: false, union: false, ..GenCfg::default() };
    let fed = Rc::new(gen_fed(&mut g, &cfg));
    let n = fed.subs.len();
    let ms = |g: &mut Rng, lo: u64, hi: u64| g.log_range(lo, hi);
    let router = ms(&mut g, 500, 8000);
    let all = ms(&mut g, 200, 6000);
    // timeouts[s]: (plain requests, requests with x-fast: yes)
    let mut t: Vec<(u64, u64)> = vec![(all, all); n];
    let mut y = String::new();
    if g.chance(1, 2) {
        y += &format!("    request_timeout: {}ms\n", all);
    } else {
        let f = ms(&mut g, 200, 3000);
        y += &format!("    request_timeout:\n      expression: |\n        if .request.headers.\"x-fast\" == \"yes\" {{ \"{}ms\" }} else {{ {} }}\n", f, all);
        t = vec![(all, f); n];
    }
    let mut o = String::new();
    for s in 0..n {
        match g.below(4) {
            0 => {
                let d = ms(&mut g, 200, 6000);
                t[s] = (d, d);
                o += &format!("    s{}:\n      request_timeout: {}ms\n", s, d);
            }
            1 => {
                // the global value is handed to the expression
                let f = ms(&mut g, 200, 3000);
                t[s] = (t[s].0, f);
                o += &format!("    s{}:\n      request_timeout:\n        expression: |\n          if .request.headers.\"x-fast\" == \"yes\" {{ \"{}ms\" }} else {{ .default }}\n", s, f);
            }
            _ => {}
        }
    }
    let mut yaml = format!("traffic_shaping:\n  router:\n    request_timeout: {}ms\n    dedupe:\n      enabled: {}\n  all:\n    dedupe_enabled: {}\n{}", router, g.chance(1, 3), g.chance(1, 2), y);
    if !o.is_empty() {
        yaml += &format!("  subgraphs:\n{}", o);
    }
    yaml += "headers:\n  all:\n    request:\n      - propagate:\n          named: x-fast\n      - propagate:\n          named: x-req\n";
    files(kk, &fed.sdl(), 1 + g.below(4), &yaml);
    dns_subs(kk, &fed);
    let w: WRef = Default::default();
    let mut bad: BTreeSet<usize> = BTreeSet::new();
    if let Some(mut r) = item("slow subgraphs") {
        for s in 0..n {
            if r.chance(1, 2) {
                bad.insert(s);
            }
        }
        item_desc(format!("slow subgraphs {:?}", bad));
    }
    let tt = t.clone();
    let b2 = bad.clone();
    subs(&w, &fed, move |g, up, a| {
        let x = if up.headers.get("x-fast").as_deref() == Some("yes") { tt[up.sub].1 } else { tt[up.sub].0 };
        a.delay = g.below(x * MS * 6 / 10 + 1) / if g.chance(1, 2) { 1 } else { 20 };
        if b2.contains(&up.sub) && g.chance(2, 3) {
            match g.below(5) {
                0 => a.fault = Fault::Stall,
                1 => a.fault = Fault::StallBody,
                2 => {
                    a.delay = x * MS * 2 + 500 * MS;
                    k().fault("upstream-too-slow");
                }
                3 => {
                    a.body_delay = x * MS * 2 + 500 * MS;
                    k().fault("upstream-too-slow-body");
                }
                _ => {}
            }
        } else if g.chance(1, 3) {
            // slow in the body, yet in time
            a.delay = a.delay / 2;
            a.body_delay = a.delay;
        }
    });
    let pool = pool(&fed, 1 + g.below(4), 10);
    let nclients = 1 + g.usize(5);
    let mut plans: Vec<Vec<(GenOp, u64, bool)>> = vec![vec![]; nclients];
    for i in 0..(nclients * (1 + g.usize(3))) {
        if let Some(mut r) = item("request") {
            let op = r.pick(&pool).clone();
            let d = if r.chance(1, 2) { 0 } else { r.log_range(1000, 1000 * MS) };
            let fast = r.chance(1, 2);
            item_desc(format!("client {} sends {} after {} us{}", i % nclients, op.body(), d / 1000, if fast { ", x-fast: yes" } else { "" }));
            plans[i % nclients].push((op, d, fast));
        }
    }
    r().sample = pool[0].text.clone();
    const SLACK: u64 = 400 * MS;
    kk.spawn("main", async move {
        ready().await;
        let wg = Wg::new(nclients);
        for (c, plan) in plans.into_iter().enumerate() {
            let (wg, fed, bad, w) = (wg.clone(), fed.clone(), bad.clone(), w.clone());
            k().spawn("client", async move {
                let mut g = stream(500 + c as u64);
                let mut cl = Client::new(fast_net(), g.chance(2, 3));
                for (i, (op, d, fast)) in plan.into_iter().enumerate() {
                    sleep(d).await;
                    let id = if g.chance(1, 3) { "same".to_string() } else { format!("r{}x{}", c, i) };
                    let hd = vec![h("x-req", &id), h("x-fast", if fast { "yes" } else { "no" })];
                    let t0 = k().now;
                    let resp = match until(t0 + router * MS + SLACK, cl.gql(&op.body(), &hd)).await {
                        None => violate("router-timeout-exceeded", format!("{} has no answer {} ms after it was sent, the router request timeout is {} ms", op.body(), (k().now - t0) / MS, router)),
                        Some(r) => must(r, &op.body()),
                    };
                    ok("answered-within-router-timeout");
                    let el = k().now - t0;
                    let j = body_json(&resp);
                    hist!("client {} answered {} after {} ms", c, resp.status, el / MS);
                    if resp.status == 504 {
                        check!("no-early-router-timeout", el + 20 * MS >= router * MS, "{} was answered 504 after {} ms although the router request timeout is {} ms", op.body(), el / MS, router);
                        check!("timeout-is-graphql-error", !errs(&j).is_empty(), "a 504 without GraphQL errors: {}", j.to_string());
                        k().probe("router timeouts");
                    } else {
                        crate::p02::judge_faulty(&fed, &op, &j, &bad);
                        if bad.is_empty() {
                            must_be_right(&fed, &op, &resp);
                            k().probe("in time");
                        } else if !errs(&j).is_empty() {
                            k().probe("subgraph timeouts");
                        }
                    }
                    nontrivial();
                }
                cl.close();
                wg.done();
            });
        }
        wg.wait().await;
        sleep(12 * SEC).await;
        let mut ex = 0;
        for u in w.ups.borrow().iter() {
            let x = if u.headers.get("x-fast").as_deref() == Some("yes") { t[u.sub].1 } else { t[u.sub].0 };
            let end = u.end.get();
            check!("upstream-bounded", end > 0 && end - u.at <= x * MS + SLACK, "an exchange with s{} took {} ms although its timeout is {} ms ({})", u.sub, if end > 0 { (end - u.at) / MS } else { (k().now - u.at) / MS }, x, u.query);
            ex += 1;
        }
        let _ = ex;
        done();
    });
}
