//! P25: progressive overrides decide once per request.
use crate::common::*;
use crate::fed::*;
use crate::gen::*;
use crate::json::J;
use crate::kernel::*;
use crate::net::*;
use crate::rng::*;
use crate::run::*;
use crate::world::*;
use crate::{check, hist};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;

pub fn setup(kk: &mut Kernel) {
    let mut g = stream(1);
    let fed = Rc::new(gen_fed(&mut g, &GenCfg { over: true, requires: false, provides: false, share: 0, ..GenCfg::default() }));
    // what the flags are: None: by header
    let flag = |g: &mut Rng| *g.pick(&[Some(true), Some(false), None, None]);
    let flags = [flag(&mut g), flag(&mut g)];
    let mut yaml = String::from("headers:\n  all:\n    request:\n      - propagate:\n          named: x-req\noverride_labels:\n");
    for (i, f) in flags.iter().enumerate() {
        let n = if i == 0 { "flag-a" } else { "flag-b" };
        match f {
            Some(b) => yaml += &format!("  {}: {}\n", n, b),
            None => yaml += &format!("  {}:\n    expression: '.request.headers.\"x-{}\" == \"on\"'\n", n, n),
        }
    }
    let poll = g.chance(1, 2);
    yaml += &format!("traffic_shaping:\n  all:\n    dedupe_enabled: {}\n  router:\n    dedupe:\n      enabled: {}\n", g.chance(1, 2), g.chance(1, 2));
    if poll {
        files_poll(kk, &fed.sdl(), 1 + g.below(4), 150, &yaml);
    } else {
        files(kk, &fed.sdl(), 1 + g.below(4), &yaml);
    }
    dns_subs(kk, &fed);
    let w: WRef = Default::default();
    healthy_subs(&w, &fed);
    let pool = Rc::new(pool(&fed, 1 + g.below(4), 16));
    r().sample = pool[0].text.clone();
    let nclients = 1 + g.usize(5);
    let mut plans: Vec<Vec<(usize, u64, bool, bool)>> = vec![vec![]; nclients];
    for i in 0..(nclients * (2 + g.usize(6))) {
        if let Some(mut r) = item("request") {
            let x = (r.usize(pool.len()), if r.chance(1, 2) { 0 } else { r.log_range(1000, 30 * MS) }, r.chance(1, 2), r.chance(1, 2));
            item_desc(format!("client {} sends {} after {} us, flag-a {}, flag-b {}", i % nclients, pool[x.0].body(), x.1 / 1000, x.2, x.3));
            plans[i % nclients].push(x);
        }
    }
    let many = g.chance(1, 6);
    kk.spawn("main", async move {
        ready().await;
        let wg = Wg::new(nclients);
        for (c, plan) in plans.into_iter().enumerate() {
            let (wg, fed, w, pool) = (wg.clone(), fed.clone(), w.clone(), pool.clone());
            k().spawn("client", async move {
                let mut g = stream(500 + c as u64);
                let net = rnet(&mut g);
                for (i, (oi, d, a, b)) in plan.into_iter().enumerate() {
                    sleep(d).await;
                    one(&fed, &w, &pool[oi], &format!("q{}x{}", c, i), [flags[0].unwrap_or(a), flags[1].unwrap_or(b)], [a, b], &net).await;
                    nontrivial();
                    if poll && g.chance(1, 8) {
                        hist!("rewriting the supergraph file");
                        k().fault("supergraph-rewritten");
                        k().fs_write("/sim/sg.graphql", format!("{}\n# {}\n", fed.sdl(), k().now).into_bytes());
                    }
                }
                wg.done();
            });
        }
        wg.wait().await;
        // both outcomes of an even percentage must come up in 40 requests
        if many {
            for (oi, op) in pool.iter().enumerate() {
                let mut seen: BTreeMap<String, (u64, u64)> = BTreeMap::new();
                for i in 0..40 {
                    let d = one(&fed, &w, op, &format!("m{}x{}", oi, i), [flags[0].unwrap_or(false), flags[1].unwrap_or(false)], [false, false], &fast_net()).await;
                    for (l, new) in d {
                        let e = seen.entry(l).or_insert((0, 0));
                        if new {
                            e.0 += 1
                        } else {
                            e.1 += 1
                        }
                    }
                }
                for (l, (n, o)) in &seen {
                    if ["percent(50)", "percent(25)", "percent(75)", "percent(30.5)"].contains(&l.as_str()) && n + o >= 40 {
                        check!("both-outcomes", *n > 0 && *o > 0, "{} of {} requests {} took the override labelled {}", n, n + o, op.body(), l);
                    }
                }
            }
        }
        done();
    });
}
/// One request; the decision seen per label.
async fn one(fed: &Rc<Fed>, w: &WRef, op: &GenOp, id: &str, flags: [bool; 2], hdr: [bool; 2], net: &Net) -> BTreeMap<String, bool> {
    let on = |b: bool| if b { "on" } else { "off" };
    let hd = vec![h("x-req", id), h("x-flag-a", on(hdr[0])), h("x-flag-b", on(hdr[1]))];
    let mut cl = Client::new(net.clone(), false);
    let resp = must(cl.gql(&op.body(), &hd).await, &op.body());
    must_be_right(fed, op, &resp);
    let mut dec: BTreeMap<String, (bool, String)> = BTreeMap::new();
    for u in w.ups.borrow().iter().filter(|u| u.req == id) {
        for (ty, f) in &u.fields {
            let fd = match fed.t(ty).and_then(|t| t.field(f)) {
                Some(f) => f,
                None => continue,
            };
            if let Some((new, old, Some(l))) = &fd.over {
                let is_new = u.sub == *new;
                if !is_new && u.sub != *old {
                    violate("field-from-nowhere", format!("{}.{} fetched from s{}", ty, f, u.sub));
                }
                match l.as_str() {
                    "percent(0)" => check!("zero-percent", !is_new, "{} ({}): {}.{} labelled {} was fetched from its new subgraph", id, op.body(), ty, f, l),
                    "percent(100)" => check!("hundred-percent", is_new, "{} ({}): {}.{} labelled {} was fetched from its old subgraph", id, op.body(), ty, f, l),
                    "flag-a" => check!("flag-obeyed", is_new == flags[0], "{} ({}): {}.{} labelled {} was fetched from its {} subgraph", id, op.body(), ty, f, l, if is_new { "new" } else { "old" }),
                    "flag-b" => check!("flag-obeyed", is_new == flags[1], "{} ({}): {}.{} labelled {} was fetched from its {} subgraph", id, op.body(), ty, f, l, if is_new { "new" } else { "old" }),
                    _ => {}
                }
                let e = dec.entry(l.clone()).or_insert((is_new, format!("{}.{}", ty, f)));
                check!("one-decision", e.0 == is_new, "{} ({}) took {} from its {} subgraph but {}.{} from its {} one, both labelled {}", id, op.body(), e.1, if e.0 { "new" } else { "old" }, ty, f, if is_new { "new" } else { "old" }, l);
                k().probe(if is_new { "override taken" } else { "override not taken" });
            }
        }
    }
    // one number per request: a larger share is taken whenever a smaller one is
    let p: Vec<(f64, bool, &String)> = dec.iter().filter_map(|(l, d)| l.strip_prefix("percent(").and_then(|x| x.trim_end_matches(')').parse::<f64>().ok()).map(|x| (x, d.0, l))).collect();
    for a in &p {
        for b in &p {
            if a.0 < b.0 {
                check!("one-number", !a.1 || b.1, "{} ({}) took the override {} but not {}", id, op.body(), a.2, b.2);
            }
        }
    }
    dec.into_iter().map(|(l, d)| (l, d.0)).collect()
}
