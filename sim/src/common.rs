//! Pieces several scenarios share.
use crate::fed::*;
use crate::gen::*;
use crate::json::J;
use crate::kernel::*;
use crate::net::*;
use crate::rng::*;
use crate::run::*;
use crate::world::*;
use crate::{check, hist};
use std::cell::{Cell, RefCell};
use std::collections::BTreeSet;
use std::rc::Rc;

/// Every subgraph of `fed`, healthy, each with its own link and pace.
pub fn healthy_subs(w: &WRef, fed: &Rc<Fed>) {
    subs(w, fed, |_, _, _| {})
}
/// Subgraphs whose actions `tweak(rng, upstream request, action)` may change.
pub fn subs(w: &WRef, fed: &Rc<Fed>, tweak: impl Fn(&mut Rng, &Up, &mut Act) + 'static) {
    let tweak = Rc::new(tweak);
    for s in 0..fed.subs.len() {
        let mut gg = stream(100 + s as u64);
        let net = rnet(&mut gg);
        let rg = RefCell::new(gg);
        let tweak = tweak.clone();
        serve_sub(w, fed, s, (sub_ip(s), 80), net, Rc::new(move |up, _| {
            let mut g = rg.borrow_mut();
            let mut a = Act::fine(rdelay(&mut g));
            a.chunked = g.chance(1, 3);
            a.close_after = g.chance(1, 10);
            tweak(&mut g, up, &mut a);
            a
        }));
    }
}
/// Compares a response with the reference; healthy subgraphs.
pub fn must_be_right(fed: &Fed, op: &GenOp, resp: &Resp) {
    let j = body_json(resp);
    check!("no-errors", j.get("errors").is_none() && resp.status == 200, "healthy subgraphs, yet {} answered status {} errors {:?}", op.body(), resp.status, errs(&j));
    let got = j.get("data").cloned().unwrap_or(J::Null);
    if let Some(d) = fed.judge(&got, &op.doc, op.opname.as_deref(), &op.vars) {
        violate("wrong-answer", format!("{} answered wrongly {}", op.body(), d));
    }
    ok("answer-equals-reference");
}
pub fn must<T>(r: Result<T, End>, what: &str) -> T {
    match r {
        Ok(x) => x,
        Err(e) => violate("no-response", format!("{} got no response: {:?}", what, e)),
    }
}
/// Awaits `f`, at most `d` of simulated time.
pub async fn within<T>(d: u64, what: &str, f: impl std::future::Future<Output = T> + 'static) -> T {
    match until(k().now + d, f).await {
        Some(x) => x,
        None => violate("left-hanging", format!("{}: nothing within {} ms of simulated time", what, d / MS)),
    }
}
pub fn small_fed(g: &mut Rng) -> Rc<Fed> {
    let cfg = GenCfg { subs: (2, 3), entities: (2, 3), requires: false, ..GenCfg::default() };
    Rc::new(gen_fed(g, &cfg))
}
pub fn pool(fed: &Fed, n: u64, max: u64) -> Vec<GenOp> {
    (0..n)
        .map(|i| {
            let size = 2 + stream(300 + i).below(max) as i64;
            QGen::new(stream(200 + i), fed).op("query", size)
        })
        .collect()
}
