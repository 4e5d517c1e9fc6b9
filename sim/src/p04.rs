//! P04 (router in-flight sharing) and P05 (subgraph in-flight sharing).
use crate::fed::*;
use crate::gen::*;
use crate::json::J;
use crate::kernel::*;
use crate::net::*;
use crate::rng::*;
use crate::run::*;
use crate::world::*;
use crate::{check, hist};
use std::cell::{Cell, RefCell};
use std::collections::BTreeSet;
use std::rc::Rc;

pub fn setup4(kk: &mut Kernel) {
    setup(kk, true)
}
pub fn setup5(kk: &mut Kernel) {
    setup(kk, false)
}
fn names(g: &mut Rng) -> Vec<Vec<String>> {
    // identities: sets of x-who values that a careless key would confuse
    let base: Vec<Vec<&str>> = vec![vec!["a"], vec!["b"], vec!["a", "b"], vec!["c", "b"], vec!["b", "a"], vec!["a, b"], vec!["\u{fc}1"], vec!["\u{fc}2"], vec!["A"], vec![], vec!["aa"], vec!["a", "a"]];
    let mut v: Vec<Vec<String>> = base.into_iter().map(|x| x.into_iter().map(|s| s.to_string()).collect()).collect();
    g.shuffle(&mut v);
    v.truncate(2 + g.usize(3));
    v
}
fn setup(kk: &mut Kernel, router: bool) {
    let mut g = stream(1);
    let cfg = GenCfg { who: true, requires: false, iface: false, union: false, nonnull: 20, ..GenCfg::default() };
    let fed = Rc::new(gen_fed(&mut g, &cfg));
    let n = fed.subs.len();
    // header rule: by name (first value) or by pattern (all values)
    let all_values = g.chance(1, 2);
    let rule = if all_values { "matching: \"^x-who$\"" } else { "named: x-who" };
    // the key: all headers, or the one that matters
    let key = *g.pick(&["all", "include"]);
    let sub_dedupe = if router { g.chance(1, 2) } else { g.chance(5, 6) };
    let mut yaml = format!("headers:\n  all:\n    request:\n      - propagate:\n          {}\ntraffic_shaping:\n  all:\n    request_timeout: 3s\n    dedupe_enabled: {}\n  router:\n    dedupe:\n      enabled: {}\n", rule, sub_dedupe, router);
    if key == "include" {
        yaml += "      headers:\n        include: [\"X-Who\"]\n";
    }
    // one subgraph may differ from the rest
    let mut off: Option<usize> = None;
    if !router && sub_dedupe && g.chance(1, 3) {
        let s = g.usize(n);
        off = Some(s);
        yaml += &format!("  subgraphs:\n    s{}:\n      dedupe_enabled: false\n", s);
    }
    files(kk, &fed.sdl(), 1 + g.below(4), &yaml);
    dns_subs(kk, &fed);
    let w: WRef = Default::default();
    let mut bad: BTreeSet<usize> = BTreeSet::new();
    if g.chance(1, 4) {
        if let Some(mut r) = item("a failing subgraph") {
            bad.insert(r.usize(n));
            item_desc(format!("failing subgraph {:?}", bad));
        }
    }
    let slow = g.chance(1, 2);
    for s in 0..n {
        let mut gg = stream(100 + s as u64);
        let net = rnet(&mut gg);
        let isbad = bad.contains(&s);
        let rg = RefCell::new(gg);
        serve_sub(&w, &fed, s, (sub_ip(s), 80), net, Rc::new(move |_, _| {
            let mut g = rg.borrow_mut();
            let mut a = Act::fine(if slow { g.range(5, 120) * MS } else { rdelay(&mut g) });
            a.chunked = g.chance(1, 3);
            a.close_after = g.chance(1, 10);
            if isbad && g.chance(1, 2) {
                a.fault = crate::p02::rfault(&mut g, true);
            }
            a
        }));
    }
    let ids = names(&mut g);
    // few operations, and variants of them that differ in one aspect only
    let nops = 1 + g.below(2);
    let mut pool: Vec<GenOp> = vec![];
    for i in 0..nops {
        let big = g.chance(1, 4);
        let size = if big { 40 + stream(300 + i).below(60) as i64 } else { 2 + stream(300 + i).below(8) as i64 };
        let op = QGen::new(stream(200 + i), &fed).op("query", size).with_tick(g.usize(n));
        if let J::Obj(v) = &op.vars {
            for j in 0..v.len() {
                // the same text with one variable changed
                let mut o = op.clone();
                if let J::Obj(w) = &mut o.vars {
                    w[j].1 = match &w[j].1 {
                        J::Bool(b) => J::Bool(!b),
                        J::Num(x) => J::Num(x.parse::<i64>().map(|n| (n + 1).to_string()).unwrap_or(x.clone())),
                        J::Str(s) if ["RED", "GREEN", "BLUE"].contains(&s.as_str()) => J::s("GREEN"),
                        J::Str(s) => J::Str(format!("{}x", s)),
                        x => x.clone(),
                    };
                }
                if o.odd().is_none() {
                    pool.push(o);
                }
            }
        }
        // long values that differ only at their end, or in the middle
        if g.chance(1, 2) {
            if let J::Obj(v) = &op.vars {
                for j in 0..v.len() {
                    let plain = op.doc.ops.iter().flat_map(|o| &o.vars).any(|d| d.name == v[j].0 && d.ty.name() == "String" && matches!(v[j].1, J::Str(_)));
                    if plain {
                        let len = *g.pick(&[300usize, 700, 1500, 5000]);
                        for t in ["a", "b", "c"] {
                            let mut o = op.clone();
                            if let J::Obj(w) = &mut o.vars {
                                w[j].1 = J::Str(format!("{}{}{}", "p".repeat(len), t, if t == "c" { "p" } else { "" }));
                            }
                            pool.push(o);
                        }
                    }
                }
            }
        }
        // absent, null and given values of one variable are three different requests
        for d in &op.doc.ops.iter().find(|o| op.opname.is_none() || o.name == op.opname).map(|o| o.vars.clone()).unwrap_or_default() {
            let here = op.vars.get(&d.name).is_some();
            if let J::Obj(v) = &op.vars {
                let rest: Vec<(String, J)> = v.iter().filter(|x| x.0 != d.name).cloned().collect();
                if here && (d.default.is_some() || !d.ty.nn()) {
                    let mut o = op.clone();
                    o.vars = J::Obj(rest.clone());
                    pool.push(o);
                }
                if !d.ty.nn() && d.default.is_none() {
                    let mut o = op.clone();
                    o.vars = J::Obj(rest.into_iter().chain([(d.name.clone(), J::Null)]).collect());
                    if o.vars.to_string() != op.vars.to_string() {
                        pool.push(o);
                    }
                }
            }
        }
        // the same operation under another name
        let mut o = op.clone();
        if o.doc.ops.len() == 1 && o.doc.ops[0].name.is_some() {
            o.doc.ops[0].name = Some("Zz".into());
            o.opname = None;
            o.text = o.doc.print();
            pool.push(o);
        }
        pool.push(op);
    }
    if g.chance(2, 3) {
        // few variants, so that near-identical requests overlap
        g.shuffle(&mut pool);
        pool.truncate(2 + g.usize(2));
    }
    let nclients = 2 + g.usize(6);
    let burst = g.chance(2, 3);
    let nreq = nclients * (1 + g.usize(3));
    let mut plans: Vec<Vec<(GenOp, u64, Vec<String>, Option<u64>)>> = vec![vec![]; nclients];
    for i in 0..nreq {
        let c = i % nclients;
        if let Some(mut r) = item("request") {
            let op = r.pick(&pool).clone();
            let d = if burst && !r.chance(1, 6) { 0 } else { r.log_range(1000, 200 * MS) };
            let id = r.pick(&ids).clone();
            let quit = if r.chance(1, 6) { Some(r.log_range(100_000, 100 * MS)) } else { None };
            item_desc(format!("client {} ({:?}) sends {} after {} us{}", c, id, op.body(), d / 1000, quit.map(|q| format!(", leaves after {} us", q / 1000)).unwrap_or_default()));
            plans[c].push((op, d, id, quit));
        }
    }
    r().sample = pool[0].text.clone();
    let asked = Rc::new(Cell::new(0u64));
    kk.spawn("main", async move {
        ready().await;
        let wg = Wg::new(nclients);
        for (c, plan) in plans.into_iter().enumerate() {
            let (wg, fed, bad, w, asked) = (wg.clone(), fed.clone(), bad.clone(), w.clone(), asked.clone());
            k().spawn("client", async move {
                let mut g = stream(500 + c as u64);
                let mut cl = Client::new(if burst { fast_net() } else { rnet(&mut g) }, g.chance(2, 3));
                for (op, d, id, quit) in plan {
                    sleep(d).await;
                    let who = if all_values { id.join("|") } else { id.first().cloned().unwrap_or_default() };
                    let hd: Vec<(String, String)> = id.iter().map(|v| h("x-who", v)).collect();
                    hist!("client {} ({:?}) asks {}", c, id, op.body());
                    let t0 = k().now;
                    asked.set(asked.get() + 1);
                    let res = match quit {
                        Some(q) => match until(t0 + q, cl.gql(&op.body(), &hd)).await {
                            Some(r) => r,
                            None => {
                                k().fault("client-leaves");
                                if let Some(mut s) = cl.sock.take() {
                                    if g.chance(1, 2) {
                                        s.rst();
                                    } else {
                                        s.close();
                                    }
                                }
                                continue;
                            }
                        },
                        None => match until(t0 + 120 * SEC, cl.gql(&op.body(), &hd)).await {
                            Some(r) => r,
                            None => violate("left-hanging", format!("{} got no answer in 120 s", op.body())),
                        },
                    };
                    let resp = match res {
                        Ok(x) => x,
                        Err(e) => violate("no-response", format!("request {} got no response: {:?}", op.body(), e)),
                    };
                    let j = body_json(&resp);
                    let (j, tk) = strip_tick(j);
                    set_who(&who);
                    if bad.is_empty() {
                        check!("no-errors", j.get("errors").is_none(), "healthy subgraphs, yet {} answered {:?}", op.body(), errs(&j));
                        let got = j.get("data").cloned().unwrap_or(J::Null);
                        let want = strip_tick_data(fed.reference(&op.doc, op.opname.as_deref(), &op.vars, None)).0;
                        if let Err(e) = crate::p02::below(&got, &want, "data", false).and(crate::p02::below(&want, &got, "data", false)) {
                            violate("answer-of-another-request", format!("client {} ({:?}) asked {} and got at {}\n got {}\n want {}", c, id, op.body(), e, got.to_string(), want.to_string()));
                        }
                        ok("own-answer");
                    } else {
                        judge_tickless(&fed, &op, &j, &bad);
                    }
                    if let Some(t) = tk {
                        // an answer finished before this request was sent must not be served again
                        let lag = (t0 / 1000) as i64 - t;
                        let fin = w.ups.borrow().iter().filter(|u| (u.at / 1000) as i64 - 2 <= t && t <= (u.at / 1000) as i64 + 2_000).map(|u| u.end.get().max(u.answered.get())).max().unwrap_or(0);
                        check!("fresh", lag < 0 || fin == 0 || fin + 5 * SEC > t0, "the answer to {} comes from an exchange that ended at {} us, long before the request was sent at {} us", op.body(), fin / 1000, t0 / 1000);
                    }
                    nontrivial();
                }
                cl.close();
                wg.done();
            });
        }
        wg.wait().await;
        // once more after everything is quiet: nothing may be left behind
        sleep(8 * SEC).await;
        let mut cl = Client::new(fast_net(), false);
        for op in pool.iter().take(3) {
            for id in ids.iter().take(2) {
                let hd: Vec<(String, String)> = id.iter().map(|v| h("x-who", v)).collect();
                let t0 = k().now;
                let before = w.ups.borrow().len();
                match until(t0 + 60 * SEC, cl.gql(&op.body(), &hd)).await {
                    None => violate("left-hanging", format!("{} got no answer after all others were done", op.body())),
                    Some(Err(e)) => violate("no-response", format!("{} {:?}", op.body(), e)),
                    Some(Ok(r)) => {
                        let (j, tk) = strip_tick(body_json(&r));
                        if let Some(t) = tk {
                            check!("fresh-when-quiet", t >= (t0 / 1000) as i64, "{} was answered with a value read before it was asked", op.body());
                        }
                        set_who(&if all_values { id.join("|") } else { id.first().cloned().unwrap_or_default() });
                        judge_tickless(&fed, op, &j, &bad);
                        let _ = before;
                    }
                }
            }
        }
        // with sharing off, every fetch is sent
        if bad.is_empty() {
            let op = &pool[pool.len() - 1];
            let hd = vec![h("x-who", "one")];
            let count = |w: &WRef, from: usize| -> Vec<usize> {
                let mut v = vec![0; fed.subs.len()];
                for u in w.ups.borrow().iter().skip(from) {
                    v[u.sub] += 1;
                }
                v
            };
            let a = w.ups.borrow().len();
            let _ = cl.gql(&op.body(), &hd).await;
            sleep(SEC).await;
            let single = count(&w, a);
            let b = w.ups.borrow().len();
            let m = 4;
            let wg = Wg::new(m);
            for _ in 0..m {
                let (wg, body, hd) = (wg.clone(), op.body(), hd.clone());
                k().spawn("twin", async move {
                    let mut c = Client::new(fast_net(), false);
                    let _ = c.gql(&body, &hd).await;
                    wg.done();
                });
            }
            wg.wait().await;
            sleep(SEC).await;
            let many = count(&w, b);
            for s in 0..fed.subs.len() {
                let shared_ok = router || sub_dedupe && off != Some(s);
                if shared_ok {
                    check!("not-more-than-needed", many[s] <= m * single[s], "{} identical requests caused {} fetches to s{}, one causes {}", m, many[s], s, single[s]);
                    if many[s] < m * single[s] {
                        k().probe("shared fetches seen");
                    }
                } else if !router || !sub_dedupe {
                    check!("every-fetch-sent", many[s] == m * single[s], "sharing is off for s{}, yet {} identical requests caused {} fetches instead of {}", s, m, many[s], m * single[s]);
                }
            }
        }
        done();
    });
}
fn judge_tickless(fed: &Fed, op: &GenOp, j: &J, bad: &BTreeSet<usize>) {
    let mut o = op.clone();
    for x in o.doc.ops.iter_mut() {
        x.sels.retain(|s| !matches!(s, crate::gql::Sel::Field(f) if f.alias.as_deref() == Some("tk")));
    }
    crate::p02::judge_faulty(fed, &o, j, bad);
}
pub fn strip_tick_data(d: J) -> (J, Option<i64>) {
    match d {
        J::Obj(mut o) => {
            let mut t = None;
            o.retain(|(k, v)| {
                if k == "tk" {
                    t = v.int().or_else(|| if let J::Num(n) = v { n.parse::<f64>().ok().map(|x| x as i64) } else { None });
                    false
                } else {
                    true
                }
            });
            (J::Obj(o), t)
        }
        x => (x, None),
    }
}
pub fn strip_tick(j: J) -> (J, Option<i64>) {
    match j {
        J::Obj(mut o) => {
            let mut t = None;
            for (k, v) in o.iter_mut() {
                if k == "data" {
                    let (d, x) = strip_tick_data(std::mem::replace(v, J::Null));
                    *v = d;
                    t = x;
                }
            }
            (J::Obj(o), t)
        }
        x => (x, None),
    }
}
