//! P02: failing subgraphs cost only their own fields.
use crate::fed::*;
use crate::gen::*;
use crate::gql::*;
use crate::json::J;
use crate::kernel::*;
use crate::rng::*;
use crate::run::*;
use crate::world::*;
use crate::{check, hist};
use std::collections::BTreeSet;
use std::rc::Rc;

pub fn rfault(g: &mut Rng, stall: bool) -> Fault {
    let codes = [400u16, 401, 403, 404, 429, 500, 502, 503, 504];
    match g.below(if stall { 14 } else { 12 }) {
        0 => Fault::Rst,
        1 => Fault::Close,
        2 => Fault::TruncRst,
        3 => Fault::TruncFin,
        4 => Fault::HttpJson(*g.pick(&codes)),
        5 => Fault::HttpText(*g.pick(&codes)),
        6 => Fault::BadJson,
        7 => Fault::NotObject,
        8 => Fault::EmptyBody,
        9 => Fault::ErrorsNoData,
        10 => Fault::DataNull,
        11 => Fault::Partial,
        12 => Fault::Stall,
        _ => Fault::StallBody,
    }
}

pub fn setup(kk: &mut Kernel) {
    let mut g = stream(1);
    // Out of scope (see DESIGN.md): @requires, and abstract fields that have to be fetched from several
    // subgraphs because each knows only some of the possible types.
    let abs = g.chance(2, 3);
    let cfg = GenCfg { requires: false, iface: abs, union: abs, share: if abs { 0 } else { 25 }, ..GenCfg::default() };
    let fed = Rc::new(gen_fed(&mut g, &cfg));
    let dedupe = g.chance(1, 2);
    let tmo = *g.pick(&["500ms", "2s", "30s"]);
    let yaml = format!("traffic_shaping:\n  router:\n    request_timeout: 10m\n  all:\n    dedupe_enabled: {}\n    request_timeout: {}\n", dedupe, tmo);
    files(kk, &fed.sdl(), 1 + g.below(3), &yaml);
    dns_subs(kk, &fed);
    let n = fed.subs.len();
    // the subgraphs that may fail in this run
    let mut bad: BTreeSet<usize> = BTreeSet::new();
    if let Some(mut r) = item("subgraphs that may fail") {
        let k = 1 + r.usize((n - 1).max(1));
        let mut v: Vec<usize> = (0..n).collect();
        r.shuffle(&mut v);
        bad.extend(v.into_iter().take(k));
        item_desc(format!("subgraphs that may fail: {:?}", bad));
    }
    let kinds: Vec<Fault> = (0..1 + g.usize(3)).map(|_| rfault(&mut g, true)).collect();
    let w: WRef = Default::default();
    for s in 0..n {
        let mut gg = stream(100 + s as u64);
        let net = rnet(&mut gg);
        let isbad = bad.contains(&s);
        let pct = *gg.pick(&[20u64, 50, 90, 100]);
        // refused connections and unknown names for whole subgraphs
        if isbad && gg.chance(1, 8) {
            kk.fault("upstream-refused");
            continue;
        }
        if isbad && gg.chance(1, 12) {
            kk.fault("name-resolution-fails");
            kk.dns.remove(&format!("s{}.sub", s));
            continue;
        }
        let rg = std::cell::RefCell::new(gg);
        let kinds = kinds.clone();
        serve_sub(&w, &fed, s, (sub_ip(s), 80), net, Rc::new(move |_, _| {
            let mut g = rg.borrow_mut();
            let mut a = Act::fine(rdelay(&mut g));
            a.chunked = g.chance(1, 3);
            a.close_after = g.chance(1, 10);
            if isbad && g.below(100) < pct {
                a.fault = g.pick(&kinds).clone();
            }
            a
        }));
    }
    let npool = 2 + g.below(5);
    let pool: Vec<GenOp> = (0..npool).map(|i| {
        let size = 3 + stream(300 + i).below(14) as i64;
        QGen::new(stream(200 + i), &fed).op("query", size)
    }).collect();
    let nclients = 1 + g.usize(4);
    let nreq = 3 + g.usize(8);
    let mut plans: Vec<Vec<(GenOp, u64)>> = vec![vec![]; nclients];
    for i in 0..nreq {
        let c = i % nclients;
        if let Some(mut r) = item("request") {
            let op = r.pick(&pool).clone();
            let d = if r.chance(1, 2) { 0 } else { r.log_range(1000, 80 * MS) };
            item_desc(format!("client {} sends {} after {} us", c, op.body(), d / 1000));
            plans[c].push((op, d));
        }
    }
    r().sample = pool[0].text.clone();
    kk.spawn("main", async move {
        ready().await;
        let wg = Wg::new(nclients);
        for (c, plan) in plans.into_iter().enumerate() {
            let (wg, fed, bad) = (wg.clone(), fed.clone(), bad.clone());
            k().spawn("client", async move {
                let mut g = stream(500 + c as u64);
                let mut cl = Client::new(rnet(&mut g), g.chance(2, 3));
                for (op, d) in plan {
                    sleep(d).await;
                    hist!("client {} asks {}", c, op.body());
                    let resp = match cl.gql(&op.body(), &[]).await {
                        Ok(x) => x,
                        Err(e) => violate("no-response", format!("request {} got no response: {:?}", op.body(), e)),
                    };
                    let j = body_json(&resp);
                    judge_faulty(&fed, &op, &j, &bad);
                    check!("status", resp.status == 200, "partial failure answered with status {}: {}", resp.status, j.to_string());
                    nontrivial();
                }
                cl.close();
                wg.done();
            });
        }
        wg.wait().await;
        done();
    });
}

/// May this field be affected by a failure of one of the subgraphs in `bad`?
pub fn exposed(fed: &Fed, ty: &str, f: &FieldDef, bad: &BTreeSet<usize>) -> bool {
    if bad.is_empty() {
        return false;
    }
    let t = fed.t(ty).unwrap();
    if !t.entity() && !is_root(ty) {
        return false; // comes with its parent
    }
    if t.field("sku").is_some() && t.subs.iter().any(|s| bad.contains(&s.0)) {
        return true; // keys may have to be fetched from another subgraph
    }
    f.owners.iter().chain(f.external.iter()).any(|o| bad.contains(o)) && f.name != "id"
        || f.over.as_ref().is_some_and(|o| bad.contains(&o.1))
}

/// The oracle of a response given while some subgraphs were failing.
pub fn judge_faulty(fed: &Fed, op: &GenOp, j: &J, bad: &BTreeSet<usize>) {
    if let Err(e) = wellformed(j) {
        violate("malformed-response", format!("{} answered malformed: {}: {}", op.body(), e, j.to_string()));
    }
    let got = j.get("data").cloned().unwrap_or(J::Null);
    let full = fed.reference(&op.doc, op.opname.as_deref(), &op.vars, None);
    let low = fed.reference(&op.doc, op.opname.as_deref(), &op.vars, Some(&|ty, f| exposed(fed, ty, f, bad)));
    let lossy = lossy_rq(op);
    if let Err(e) = below(&got, &full, "data", lossy) {
        violate("wrong-value", format!("{} answered a value that differs from the fault-free one at {}\n got {}\n fault-free {}", op.body(), e, got.to_string(), full.to_string()));
    }
    ok("non-null-values-are-right");
    if let Err(e) = below(&low, &got, "data", lossy) {
        violate("lost-value", format!("{} lost data of healthy subgraphs (failing: {:?}) at {}\n got {}\n at least {}\n errors {:?}", op.body(), bad, e, got.to_string(), low.to_string(), errs(j)));
    }
    ok("healthy-fields-kept");
    if let Some(o) = op.doc.op(op.opname.as_deref()) {
        if got != J::Null {
            let root = if o.kind == "query" { "Query" } else if o.kind == "mutation" { "Mutation" } else { "Subscription" };
            if let Err(e) = nulls(fed, root, &[&o.sels], &op.doc, &got, "data", &op.vars) {
                violate("null-in-non-null", format!("{} answered null where the schema has a non-null type: {}\n got {}", op.body(), e, got.to_string()));
            }
            ok("nulls-propagated");
        }
    }
    if below(&full, &got, "data", lossy).is_err() {
        if errs(j).is_empty() && !lossy {
            violate("silent-loss", format!("{} lacks data but reports no error\n got {}\n fault-free {}", op.body(), got.to_string(), full.to_string()));
        }
        ok("loss-is-reported");
        k().probe("responses with missing data");
    } else {
        k().probe("complete responses");
    }
}
/// The value of a @requires field may differ when what it requires was lost.
fn lossy_rq(op: &GenOp) -> bool {
    op.text.contains("rq")
}
/// Every non-null value of `a` is in `b`, equal.
pub fn below(a: &J, b: &J, p: &str, lossy: bool) -> Result<(), String> {
    match (a, b) {
        (J::Null, _) => Ok(()),
        (J::Obj(x), J::Obj(y)) => {
            for (k, v) in x {
                if k.contains("__rq") {
                    continue;
                }
                match y.iter().find(|e| e.0 == *k) {
                    Some(e) => below(v, &e.1, &format!("{}.{}", p, k), lossy)?,
                    None => return Err(format!("{}.{} (unexpected key)", p, k)),
                }
            }
            for (k, _) in y {
                if !x.iter().any(|e| e.0 == *k) {
                    return Err(format!("{}.{} (missing key)", p, k));
                }
            }
            Ok(())
        }
        (J::Arr(x), J::Arr(y)) => {
            if x.len() != y.len() {
                return Err(format!("{} (length {} against {})", p, x.len(), y.len()));
            }
            for (i, (u, v)) in x.iter().zip(y).enumerate() {
                below(u, v, &format!("{}[{}]", p, i), lossy)?;
            }
            Ok(())
        }
        (u, v) => {
            if same(u, v) || lossy && !matches!(v, J::Null) {
                Ok(())
            } else {
                Err(format!("{}: {} against {}", p, u.to_string(), v.to_string()))
            }
        }
    }
}
/// No null where the schema says non-null. Types of objects are not known to
/// this walk, so a field must be non-null in every type it may belong to.
pub fn nulls(fed: &Fed, ty: &str, sets: &[&[Sel]], doc: &Doc, v: &J, p: &str, vars: &J) -> Result<(), String> {
    let o = match v.obj() {
        Some(o) => o,
        None => return Ok(()),
    };
    let poss = fed.possible(ty, None);
    let poss: Vec<String> = if poss.is_empty() { vec![ty.to_string()] } else { poss };
    let mut flds: Vec<&Fld> = vec![];
    fn coll<'a>(s: &'a [Sel], doc: &'a Doc, out: &mut Vec<&'a Fld>) {
        for x in s {
            match x {
                Sel::Field(f) => out.push(f),
                Sel::Inline { sels, .. } => coll(sels, doc, out),
                Sel::Spread { name, .. } => {
                    if let Some((_, s)) = doc.frags.get(name) {
                        coll(s, doc, out)
                    }
                }
            }
        }
    }
    for s in sets {
        coll(s, doc, &mut flds);
    }
    for (key, val) in o {
        let fs: Vec<&&Fld> = flds.iter().filter(|f| f.key() == key).collect();
        let name = match fs.first() {
            Some(f) => f.name.clone(),
            None => return Err(format!("{}.{} was not asked for", p, key)),
        };
        if name == "__typename" {
            if *val == J::Null {
                return Err(format!("{}.{}", p, key));
            }
            continue;
        }
        let tys: Vec<&Ty> = poss.iter().filter_map(|t| fed.t(t).and_then(|t| t.field(&name)).map(|f| &f.ty)).collect();
        if tys.is_empty() || tys.iter().any(|t| t.print() != tys[0].print()) {
            continue;
        }
        let sub: Vec<&[Sel]> = fs.iter().map(|f| &f.sels[..]).collect();
        nullt(fed, tys[0], tys.iter().all(|t| t.print() == tys[0].print()), &sub, doc, val, &format!("{}.{}", p, key), vars)?;
    }
    Ok(())
}
fn nullt(fed: &Fed, ty: &Ty, exact: bool, sub: &[&[Sel]], doc: &Doc, v: &J, p: &str, vars: &J) -> Result<(), String> {
    match (ty, v) {
        (Ty::NN(_), J::Null) if exact => Err(p.to_string()),
        (Ty::NN(t), v) => nullt(fed, t, exact, sub, doc, v, p, vars),
        (_, J::Null) => Ok(()),
        (Ty::L(t), J::Arr(a)) => {
            for (i, x) in a.iter().enumerate() {
                nullt(fed, t, exact, sub, doc, x, &format!("{}[{}]", p, i), vars)?;
            }
            Ok(())
        }
        (t, v @ J::Obj(_)) if fed.composite(t.name()) => nulls(fed, t.name(), sub, doc, v, p, vars),
        _ => Ok(()),
    }
}
