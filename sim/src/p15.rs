//! P15: authorization directives under concurrency, caches and sharing.
use crate::common::*;
use crate::fed::*;
use crate::gen::*;
use crate::gql::*;
use crate::json::J;
use crate::jwt;
use crate::kernel::*;
use crate::net::*;
use crate::p02::below;
use crate::rng::*;
use crate::run::*;
use crate::world::*;
use crate::{check, hist};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

const SCOPES: [&str; 4] = ["a:r", "b:w", "c", "a:r:all"];
fn rule(g: &mut Rng) -> Vec<Vec<String>> {
    if g.chance(1, 3) {
        return vec![];
    }
    (0..1 + g.below(2))
        .map(|_| {
            let mut v: Vec<String> = SCOPES.iter().map(|s| s.to_string()).collect();
            g.shuffle(&mut v);
            v.truncate(1 + g.usize(2));
            v
        })
        .collect()
}
/// None: anonymous.
type User = Option<BTreeSet<String>>;
fn allows(a: &Option<Vec<Vec<String>>>, u: &User) -> bool {
    match (a, u) {
        (None, _) => true,
        (Some(_), None) => false,
        (Some(v), Some(s)) => v.is_empty() || v.iter().any(|g| g.iter().all(|x| s.contains(x))),
    }
}
fn denied(fed: &Fed, ty: &str, f: &FieldDef, u: &User) -> bool {
    let t = |n: &str| fed.t(n).map(|t| t.auth.clone()).unwrap_or(None);
    !(allows(&t(ty), u) && allows(&f.auth, u) && allows(&t(f.ty.name()), u))
}
/// Fields and types that may be nulled as a whole: because of a denied non-null field below them, or because
/// nothing is left of their selection.
fn poisoned(fed: &Fed, u: &User, occ: &[((String, String), Vec<(String, String)>)]) -> (BTreeSet<String>, BTreeSet<(String, String)>) {
    let mut p: BTreeSet<String> = BTreeSet::new();
    let mut dead: BTreeSet<(String, String)> = BTreeSet::new();
    loop {
        let n = p.len() + dead.len();
        for t in &fed.types {
            for f in &t.fields {
                let k = (t.name.clone(), f.name.clone());
                if (denied(fed, &t.name, f, u) || p.contains(f.ty.name()) || dead.contains(&k)) && has_nn(&f.ty) {
                    p.insert(t.name.clone());
                }
            }
        }
        for (k, ch) in occ {
            let gone = |c: &(String, String)| match fed.t(&c.0).and_then(|t| t.field(&c.1)) {
                Some(d) => denied(fed, &c.0, d, u) || dead.contains(c) || p.contains(d.ty.name()) || p.contains(&c.0),
                None => true,
            };
            if !ch.is_empty() && ch.iter().all(gone) {
                dead.insert(k.clone());
            }
        }
        if p.len() + dead.len() == n {
            return (p, dead);
        }
    }
}
fn has_nn(t: &Ty) -> bool {
    match t {
        Ty::NN(_) => true,
        Ty::L(t) => has_nn(t),
        _ => false,
    }
}
/// Every (type, field) the text mentions, whatever its conditions say, with the fields selected below it.
fn mentioned(fed: &Fed, ty: &str, s: &[Sel], doc: &Doc, out: &mut Vec<((String, String), Vec<(String, String)>)>) -> Vec<(String, String)> {
    let mut me = vec![];
    for x in s {
        match x {
            Sel::Field(f) => {
                if let Some(d) = fed.t(ty).and_then(|t| t.field(&f.name)) {
                    let k = (ty.to_string(), f.name.clone());
                    let ch = mentioned(fed, d.ty.name(), &f.sels, doc, out);
                    if f.dirs.is_empty() {
                        me.push(k.clone());
                    }
                    out.push((k, if f.sels.is_empty() { vec![] } else { ch.into_iter().chain([(String::new(), String::new())]).collect() }));
                } else if f.name == "__typename" {
                    me.push((ty.into(), f.name.clone()));
                }
            }
            Sel::Inline { sels, dirs, .. } => {
                let c = mentioned(fed, ty, sels, doc, out);
                if dirs.is_empty() {
                    me.extend(c)
                }
            }
            Sel::Spread { name, dirs, .. } => {
                if let Some((_, s)) = doc.frags.get(name) {
                    let c = mentioned(fed, ty, s, doc, out);
                    if dirs.is_empty() {
                        me.extend(c)
                    }
                }
            }
        }
    }
    me
}

pub fn setup(kk: &mut Kernel) {
    let mut g = stream(1);
    // no abstract types: a guard on an implementing object's field need not hold for the interface's field
    let cfg = GenCfg { who: true, requires: false, provides: g.chance(1, 2), iface: false, union: false, nonnull: *g.pick(&[0, 5, 25]), mutation: g.chance(1, 2), ..GenCfg::default() };
    let mut fed = gen_fed(&mut g, &cfg);
    fed.auth = true;
    let pf = *g.pick(&[10u64, 30, 60]);
    for t in fed.types.iter_mut() {
        let kind_obj = matches!(t.kind, Kind::Obj);
        if !kind_obj {
            continue;
        }
        if !is_root(&t.name) && g.chance(1, 6) {
            t.auth = Some(rule(&mut g));
        }
        for f in t.fields.iter_mut() {
            if f.name != "id" && f.name != "sku" && g.below(100) < pf {
                f.auth = Some(rule(&mut g));
            }
        }
    }
    let fed = Rc::new(fed);
    let n = fed.subs.len();
    let key = b"0123456789abcdef0123456789abcdef-sim".to_vec();
    kk.fs_write("/sim/jwks.json", jwt::jwks(&[(Some("k1".into()), key.clone())]).into_bytes());
    let reject = g.chance(1, 4);
    // how upstream requests can be told apart: 0 by a header of each request, 1 by forwarded claims, 2 not at all
    let ident = *g.pick(&[0u8, 0, 1, 2]);
    let claim = *g.pick(&["scope", "scopes", "roles"]);
    let rdedupe = g.chance(2, 3);
    let incl = g.chance(1, 3);
    let sdedupe = g.chance(2, 3);
    let mut yaml = String::new();
    if ident == 0 {
        yaml += "headers:\n  all:\n    request:\n      - propagate:\n          named: x-req\n      - propagate:\n          named: x-who\n";
    } else {
        yaml += "headers:\n  all:\n    request:\n      - propagate:\n          named: x-who\n";
    }
    yaml += &format!("traffic_shaping:\n  all:\n    dedupe_enabled: {}\n  router:\n    dedupe:\n      enabled: {}\n", sdedupe, rdedupe);
    if incl {
        yaml += "      headers:\n        include: [Authorization, x-who]\n";
    }
    yaml += "jwt:\n  enabled: true\n  require_authentication: false\n";
    if claim == "roles" {
        yaml += "  scopes_claim: roles\n";
    }
    yaml += &format!("  forward_claims_to_upstream_extensions:\n    enabled: {}\n    field_name: jwt\n  jwks_providers:\n    - source: file\n      path: /sim/jwks.json\n", ident == 1);
    yaml += &format!("authorization:\n  directives:\n    enabled: true\n    unauthorized:\n      mode: {}\n", if reject { "reject" } else { "filter" });
    files(kk, &fed.sdl(), 1 + g.below(4), &yaml);
    dns_subs(kk, &fed);
    let w: WRef = Default::default();
    healthy_subs(&w, &fed);
    // users: what they may do, and the header they send
    let now = kk.realtime() / SEC;
    let nu = 2 + g.usize(4);
    let mut users: Vec<(String, User, Option<String>)> = vec![];
    for i in 0..nu {
        let mut sc: BTreeSet<String> = BTreeSet::new();
        for s in SCOPES {
            if g.chance(2, 5) {
                sc.insert(s.to_string());
            }
        }
        if i == 0 && g.chance(1, 2) {
            sc = SCOPES.iter().map(|s| s.to_string()).collect();
        }
        let list = if g.chance(1, 2) { J::Arr(sc.iter().map(|s| J::s(s)).collect()) } else { J::s(&sc.iter().cloned().collect::<Vec<_>>().join(" ")) };
        let mut cl = vec![("sub".to_string(), J::s(&format!("u{}", i))), ("exp".to_string(), J::i(now as i64 + 100_000))];
        if !sc.is_empty() || g.chance(1, 2) {
            cl.push((claim.to_string(), list));
        }
        let name = format!("u{}", i);
        match g.below(10) {
            0 | 1 => users.push((name, None, None)),
            2 => {
                // wrong signature: nobody
                let t = jwt::token(&J::Obj(cl), Some("k1"), b"another key another key another key");
                users.push((name, None, Some(format!("Bearer {}", t))));
            }
            3 => {
                cl[1].1 = J::i(now as i64 - 1000);
                let t = jwt::token(&J::Obj(cl), Some("k1"), &key);
                users.push((name, None, Some(format!("Bearer {}", t))));
            }
            4 => {
                // a good signature with other claims
                let t = jwt::token(&J::Obj(cl.clone()), Some("k1"), &key);
                let mut p: Vec<String> = t.split('.').map(|s| s.to_string()).collect();
                cl[0].1 = J::s("forged");
                p[1] = jwt::b64(J::Obj(cl).to_string().as_bytes());
                users.push((name, None, Some(format!("Bearer {}", p.join(".")))));
            }
            _ => {
                let t = jwt::token(&J::Obj(cl), if g.chance(2, 3) { Some("k1") } else { None }, &key);
                users.push((name, Some(sc), Some(format!("Bearer {}", t))));
            }
        }
    }
    let npool = 1 + g.below(4);
    let mut ops = pool(&fed, npool, 16);
    if fed.t("Mutation").is_some() {
        ops.push(QGen::new(stream(290), &fed).op("mutation", 6));
    }
    let pool = Rc::new(ops);
    let nclients = 2 + g.usize(5);
    let burst = g.chance(2, 3);
    let mut plans: Vec<Vec<(usize, usize, u64, u32)>> = vec![vec![]; nclients];
    for i in 0..nclients * (2 + g.usize(4)) {
        if let Some(mut r) = item("request") {
            let (u, o) = (r.usize(nu), r.usize(pool.len()));
            let d = if burst && !r.chance(1, 5) { 0 } else { r.log_range(1000, 100 * MS) };
            let who = r.below(2) as u32;
            item_desc(format!("client {} as {:?} sends {} after {} us", i % nclients, users[u].1, pool[o].body(), d / 1000));
            plans[i % nclients].push((u, o, d, who));
        }
    }
    r().sample = pool[0].text.clone();
    let users = Rc::new(users);
    kk.spawn("main", async move {
        ready().await;
        let wg = Wg::new(nclients);
        for (c, plan) in plans.into_iter().enumerate() {
            let (wg, fed, w, users, pool) = (wg.clone(), fed.clone(), w.clone(), users.clone(), pool.clone());
            k().spawn("client", async move {
                let mut g = stream(500 + c as u64);
                let mut cl = Client::new(if burst { fast_net() } else { rnet(&mut g) }, g.chance(2, 3));
                for (i, (ui, oi, d, who)) in plan.into_iter().enumerate() {
                    sleep(d).await;
                    let (op, (name, user, tok)) = (&pool[oi], &users[ui]);
                    let who = format!("w{}", who);
                    let mut hd = vec![h("x-who", &who)];
                    // equal users may share one execution, so they have the same identity
                    if ident == 0 {
                        hd.push(h("x-req", name));
                    }
                    if let Some(t) = tok {
                        hd.push(h("authorization", t));
                    }
                    let resp = must(cl.gql(&op.body(), &hd).await, &op.body());
                    judge(&fed, op, user, &who, &resp, reject);
                    let _ = i;
                    nontrivial();
                }
                cl.close();
                wg.done();
            });
        }
        wg.wait().await;
        for u in w.ups.borrow().iter() {
            let who = match ident {
                0 => u.req.clone(),
                1 => match u.ext.at(&["jwt", "sub"]).and_then(|x| x.str()) {
                    Some(s) => s.to_string(),
                    None => String::new(),
                },
                _ => "?".into(),
            };
            let cand: Vec<&User> = if ident == 2 {
                users.iter().map(|x| &x.1).collect()
            } else if who.is_empty() {
                vec![&None]
            } else {
                match users.iter().find(|x| x.0 == who) {
                    Some(x) => vec![&x.1],
                    None => violate("identity-upstream", format!("an upstream request names the caller {:?}, whom nobody is: {}", who, u.query)),
                }
            };
            if ident == 1 && !who.is_empty() {
                check!("claims-verified", cand[0].is_some(), "the claims of a token that does not verify were forwarded upstream: {}", u.ext.to_string());
            }
            for (ty, f) in &u.fields {
                let fd = match fed.t(ty).and_then(|t| t.field(f)) {
                    Some(d) => d,
                    None => continue,
                };
                if f == "id" || f == "sku" {
                    continue;
                }
                check!("not-asked-upstream", cand.iter().any(|c| !denied(&fed, ty, fd, c)), "subgraph {} was asked for {}.{} on behalf of {:?} who may not see it: {}", fed.subs[u.sub].0, ty, f, who, u.query);
            }
        }
        let _ = n;
        done();
    });
}

fn judge(fed: &Fed, op: &GenOp, user: &User, who: &str, resp: &Resp, reject: bool) {
    let j = body_json(resp);
    if let Err(e) = wellformed(&j) {
        violate("malformed-response", format!("{} answered malformed: {}: {}", op.body(), e, j.to_string()));
    }
    let name = op.opname.as_deref();
    let o = op.doc.op(name).unwrap();
    let mut m = vec![];
    mentioned(fed, if o.kind == "mutation" { "Mutation" } else { "Query" }, &o.sels, &op.doc, &mut m);
    let bad = |p: &(String, String)| fed.t(&p.0).and_then(|t| t.field(&p.1)).is_some_and(|d| denied(fed, &p.0, d, user));
    set_who(who);
    let touched = fed.touched(&op.doc, name, &op.vars);
    let must_fail: Vec<_> = touched.iter().filter(|p| bad(p)).collect();
    set_who(who);
    if !m.iter().any(|p| bad(&p.0)) {
        k().probe("fully authorised");
        must_be_right(fed, op, resp);
        return;
    }
    let got = j.get("data").cloned().unwrap_or(J::Null);
    if reject && !must_fail.is_empty() {
        check!("rejected", got == J::Null && !errs(&j).is_empty() && resp.status >= 400, "{} touches {:?}, which {:?} may not see, and was not rejected: status {} {}", op.body(), must_fail, user, resp.status, j.to_string());
        k().probe("rejected");
        return;
    }
    if reject && got == J::Null && !errs(&j).is_empty() {
        return; // excluded by a condition, yet mentioned
    }
    let top = fed.reference(&op.doc, name, &op.vars, Some(&|t, f| denied(fed, t, f, user)));
    set_who(who);
    let (poi, dead) = poisoned(fed, user, &m);
    let low = fed.reference(&op.doc, name, &op.vars, Some(&|t, f| denied(fed, t, f, user) || poi.contains(f.ty.name()) || poi.contains(t) || dead.contains(&(t.to_string(), f.name.clone()))));
    if let Err(e) = below(&got, &top, "data", false) {
        violate("unauthorised-or-wrong-value", format!("{} as {:?} got at {}\n got {}\n allowed {}", op.body(), user, e, got.to_string(), top.to_string()));
    }
    ok("nothing-unauthorised");
    if let Err(e) = below(&low, &got, "data", false) {
        violate("authorised-value-lost", format!("{} as {:?} lost at {}\n got {}\n at least {}\n errors {:?}", op.body(), user, e, got.to_string(), low.to_string(), errs(&j)));
    }
    ok("authorised-values-kept");
    if got != J::Null {
        if let Err(e) = crate::p02::nulls(fed, if o.kind == "mutation" { "Mutation" } else { "Query" }, &[&o.sels], &op.doc, &got, "data", &op.vars) {
            violate("null-in-non-null", format!("{} as {:?} answered null where the schema has a non-null type: {}\n got {}", op.body(), user, e, got.to_string()));
        }
    }
    if !must_fail.is_empty() {
        check!("denial-reported", !errs(&j).is_empty(), "{} as {:?} lacks {:?} but reports no error", op.body(), user, must_fail);
        k().probe("filtered");
    }
}
