//! P14: JWT verification while keys rotate and key sources fail.
use crate::common::*;
use crate::fed::*;
use crate::flaky::*;
use crate::gen::*;
use crate::json::J;
use crate::jwt;
use crate::kernel::*;
use crate::net::*;
use crate::rng::*;
use crate::run::*;
use crate::world::*;
use crate::{check, hist};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

#[derive(Clone)]
struct Key {
    kid: Option<String>,
    secret: Vec<u8>,
}
struct Prov {
    interval: u64,
    keys: Vec<Key>,
    cur: RefCell<BTreeSet<usize>>,
    bad: Cell<u8>,
    /// set with the next request; the answer is then due at .1
    pulse: RefCell<(Flag, u64)>,
    asked: RefCell<Vec<u64>>,
    /// (time of delivery, keys)
    got: RefCell<Vec<(u64, BTreeSet<usize>)>>,
}
/// A token as the oracle sees it.
#[derive(Clone, Debug)]
struct Tok {
    text: String,
    sub: String,
    /// the key that signed it, if its signature is any good
    key: Option<(usize, usize)>,
    kid_ok: bool,
    exp: Option<u64>,
    claims_ok: bool,
    what: String,
}
const SLACK: u64 = 300 * MS;
const CACHE: u64 = 6 * SEC;
const LEEWAY: u64 = 60 * SEC;

pub fn setup(kk: &mut Kernel) {
    let mut g = stream(1);
    let fed = Rc::new(gen_fed(&mut g, &GenCfg { who: true, subs: (2, 2), entities: (2, 2), requires: false, iface: false, union: false, ..GenCfg::default() }));
    let require = g.chance(2, 3);
    let np = 1 + g.usize(2);
    let same_kid = g.chance(1, 3);
    let mut provs: Vec<Rc<Prov>> = vec![];
    for p in 0..np {
        let keys: Vec<Key> = (0..3)
            .map(|i| Key { kid: if g.chance(1, 5) { None } else if same_kid { Some(format!("k{}", i)) } else { Some(format!("p{}k{}", p, i)) }, secret: format!("secret of provider {} number {} {:x}", p, i, g.next()).into_bytes() })
            .collect();
        let mut cur: BTreeSet<usize> = BTreeSet::new();
        cur.insert(g.usize(3));
        if g.chance(1, 2) {
            cur.insert(g.usize(3));
        }
        provs.push(Rc::new(Prov { interval: *g.pick(&[2u64, 5, 20]) * SEC, keys, cur: RefCell::new(cur), bad: Cell::new(0), pulse: RefCell::new((Flag::new(), 0)), asked: Default::default(), got: Default::default() }));
    }
    let iss = if g.chance(1, 3) { Some("https://iss.one") } else { None };
    let aud: Option<Vec<&str>> = if g.chance(1, 3) { Some(vec!["app-a", "app-b"]) } else { None };
    let cookie = g.chance(1, 4);
    let mut yaml = String::from("headers:\n  all:\n    request:\n      - propagate:\n          named: x-req\ntraffic_shaping:\n  all:\n    dedupe_enabled: false\n  router:\n    request_timeout: 5m\n    dedupe:\n      enabled: false\n");
    yaml += &format!("jwt:\n  enabled: true\n  require_authentication: {}\n  forward_claims_to_upstream_extensions:\n    enabled: true\n    field_name: jwt\n", require);
    if let Some(i) = iss {
        yaml += &format!("  issuers: [\"{}\"]\n", i);
    }
    if let Some(a) = &aud {
        yaml += &format!("  audiences: {:?}\n", a);
    }
    if cookie {
        yaml += "  lookup_locations:\n    - source: cookies\n      name: tok\n    - source: header\n      name: Authorization\n      prefix: Bearer\n";
    }
    yaml += "  jwks_providers:\n";
    for (i, p) in provs.iter().enumerate() {
        yaml += &format!("    - source: remote\n      url: http://jwks{}.sim/keys\n      polling_interval: {}s\n      prefetch: {}\n", i, p.interval / SEC, g.chance(2, 3));
    }
    files(kk, &fed.sdl(), 1 + g.below(4), &yaml);
    dns_subs(kk, &fed);
    let w: WRef = Default::default();
    healthy_subs(&w, &fed);
    let fault_pct = if let Some(mut r) = item("key source faults") {
        item_desc("the key sources fail at times".into());
        *r.pick(&[0u64, 30, 80])
    } else {
        0
    };
    for (i, p) in provs.iter().enumerate() {
        kk.dns.insert(format!("jwks{}.sim", i), ip(10, 0, 9, i as u8 + 1));
        let p = p.clone();
        let gg = RefCell::new(stream(700 + i as u64));
        http((ip(10, 0, 9, i as u8 + 1), 80), "key source", fast_net(), move |_| {
            let mut g = gg.borrow_mut();
            let cur = p.cur.borrow().clone();
            p.asked.borrow_mut().push(k().now);
            let mut ks: Vec<J> = vec![];
            for x in &cur {
                let mut j = J::parse(jwt::jwks(&[(p.keys[*x].kid.clone(), p.keys[*x].secret.clone())]).as_bytes()).unwrap();
                if let J::Obj(o) = &mut j {
                    if let J::Arr(a) = o.remove(0).1 {
                        ks.extend(a);
                    }
                }
            }
            // a key of another kind, as providers also publish
            if g.chance(1, 3) {
                let alg = *g.pick(&["RS256", "RSA-OAEP"]);
                ks.insert(0, J::parse(format!("{{\"kty\":\"RSA\",\"use\":\"{}\",\"alg\":\"{}\",\"kid\":\"other\",\"n\":\"{}\",\"e\":\"AQAB\"}}", if alg == "RS256" { "sig" } else { "enc" }, alg, jwt::b64(&[0xA5; 256])).as_bytes()).unwrap());
            }
            let mut a = Ans::new(200, "application/json", J::Obj(vec![("keys".into(), J::Arr(ks))]).to_string());
            a.delay = if g.chance(1, 2) { 0 } else { g.log_range(1000, 800 * MS) };
            a.chunked = g.chance(1, 3);
            a.close = g.chance(1, 3);
            // the router must come up first
            if p.bad.get() == 1 && g.below(100) < fault_pct {
                match g.below(10) {
                    0 => {
                        a.status = *g.pick(&[500, 502, 404]);
                        a.body = b"{\"keys\":[]}".to_vec();
                        k().fault("key-source-http-error");
                    }
                    1 => {
                        a.status = 503;
                        a.body = b"unavailable".to_vec();
                        k().fault("key-source-http-error");
                    }
                    2 => {
                        a.body = b"{\"keys\":[{\"kty\"".to_vec();
                        k().fault("key-source-bad-json");
                    }
                    3 => {
                        a.body = vec![];
                        k().fault("key-source-empty");
                    }
                    4 => {
                        a.delay = 3 * SEC;
                        k().fault("key-source-slow");
                    }
                    _ => a.fault = transport_fault(&mut g, true),
                }
            }
            let fl = std::mem::replace(&mut *p.pulse.borrow_mut(), (Flag::new(), k().now + a.delay));
            fl.0.set();
            if a.status == 200 && a.fault == Fault::None && a.body.len() > 40 {
                // recorded once written
                let (p, sent, end) = (p.clone(), a.sent.clone(), a.end.clone());
                k().spawn("note", async move {
                    while end.get() == 0 {
                        sleep(2 * MS).await;
                    }
                    if sent.get() != 0 {
                        p.got.borrow_mut().push((sent.get(), cur));
                    }
                });
            }
            a
        });
    }
    // what happens to the key sets
    let horizon = 20 + g.below(100);
    let mut moves: Vec<(u64, usize, BTreeSet<usize>, u8)> = vec![];
    for _ in 0..g.below(8) {
        if let Some(mut r) = item("rotation") {
            let p = r.usize(np);
            let mut c = BTreeSet::new();
            c.insert(r.usize(3));
            if r.chance(1, 2) {
                c.insert(r.usize(3));
            }
            let (t, b) = (r.below(horizon * SEC), r.chance(1, 2) as u8);
            item_desc(format!("at {} ms provider {} publishes keys {:?}, {}", t / MS, p, c, if b == 1 { "and becomes unreliable" } else { "and is reliable" }));
            moves.push((t, p, c, b));
        }
    }
    moves.sort();
    let nclients = 1 + g.usize(5);
    let mut plans: Vec<Vec<(u64, u64)>> = vec![vec![]; nclients];
    for i in 0..nclients * (2 + g.usize(6)) {
        if let Some(mut r) = item("request") {
            let d = if r.chance(1, 3) { 0 } else { r.log_range(1 * MS, 12 * SEC) };
            item_desc(format!("client {} sends a request after {} ms", i % nclients, d / MS));
            plans[i % nclients].push((d, r.next()));
        }
    }
    let op = GenOp::from_text("{tick0}", J::Obj(vec![]));
    r().sample = op.text.clone();
    let audc = aud.clone();
    kk.spawn("main", async move {
        ready().await;
        let t_start = k().now;
        {
            let provs = provs.clone();
            k().spawn("rotation", async move {
                for (t, p, c, b) in moves {
                    sleep_until(t_start + t).await;
                    hist!("provider {} publishes {:?} bad {}", p, c, b);
                    *provs[p].cur.borrow_mut() = c;
                    provs[p].bad.set(b);
                    k().fault("key-rotation");
                }
            });
        }
        let toks: Rc<RefCell<Vec<Tok>>> = Default::default();
        let wg = Wg::new(nclients);
        for (c, plan) in plans.into_iter().enumerate() {
            let (wg, w, provs, toks, op, aud) = (wg.clone(), w.clone(), provs.clone(), toks.clone(), op.clone(), audc.clone());
            k().spawn("client", async move {
                let mut g = stream(500 + c as u64);
                let mut cl = Client::new(if g.chance(1, 2) { fast_net() } else { rnet(&mut g) }, g.chance(2, 3));
                for (i, (d, sd)) in plan.into_iter().enumerate() {
                    sleep(d).await;
                    let mut r = Rng::new(sd);
                    if r.chance(1, 3) {
                        // just when a key set arrives
                        let p = provs[r.usize(provs.len())].clone();
                        let f = p.pulse.borrow().0.clone();
                        until(k().now + 25 * SEC, async move { f.wait().await }).await;
                        let at = p.pulse.borrow().1;
                        sleep_until(at + r.below(60_000)).await;
                    }
                    let reuse = !toks.borrow().is_empty() && r.chance(2, 3);
                    let tok = if reuse { r.pick(&toks.borrow()).clone() } else { mint(&mut r, &provs, iss, aud.as_deref(), &format!("{}x{}", c, i)) };
                    toks.borrow_mut().push(tok.clone());
                    let id = format!("{}r{}", c, i);
                    let mut hd = vec![h("x-req", &id)];
                    let none = r.chance(1, 12);
                    if !none {
                        if cookie && r.chance(1, 2) {
                            hd.push(h("cookie", &format!("a=b; tok={}; c=d", tok.text)));
                        } else {
                            hd.push(h("authorization", &format!("Bearer {}", tok.text)));
                        }
                    }
                    let t0 = k().now;
                    hist!("client {} sends {} with {}", c, id, if none { "no token" } else { &tok.what });
                    let resp = must(cl.gql(&op.body(), &hd).await, "a request");
                    // nobody may stop them when the sets are known now
                    sleep(50 * MS).await;
                    let t1 = k().now;
                    let ups: Vec<_> = w.ups.borrow().iter().filter(|u| u.req == id).cloned().collect();
                    let j = body_json(&resp);
                    let as_user = ups.iter().any(|u| u.ext.at(&["jwt", "sub"]).is_some());
                    for u in &ups {
                        if let Some(s) = u.ext.at(&["jwt", "sub"]) {
                            check!("claims-of-its-own-token", s.str() == Some(&tok.sub) && !none, "request {} with a token of {} was forwarded with the claims of {}", id, tok.sub, s.to_string());
                        }
                    }
                    let (may, mustbe) = if none { (false, false) } else { expect(&tok, &provs, t0, t1) };
                    let show = || format!("request {} sent at {} ms answered at {} ms with token {:?}\n realtime of sending {} s\n providers {}", id, t0 / MS, t1 / MS, tok, rt(t0) / SEC, provs.iter().map(|p| format!("asked {:?} delivered {:?}", p.asked.borrow().iter().map(|x| x / MS).collect::<Vec<_>>(), p.got.borrow().iter().map(|x| (x.0 / MS, x.1.clone())).collect::<Vec<_>>())).collect::<Vec<_>>().join("; "));
                    if require {
                        if resp.status == 200 && j.get("errors").is_none() {
                            check!("accepted-only-if-valid", may, "an invalid token was accepted: {}", show());
                            check!("claims-forwarded", as_user, "accepted, yet no claims were forwarded: {}", show());
                            k().probe("accepted");
                        } else {
                            check!("valid-is-accepted", !mustbe, "a valid token was refused with status {} {}: {}", resp.status, j.to_string(), show());
                            check!("refused-properly", resp.status >= 400 && resp.status < 500 && j.get("data").map(|d| d.is_null()).unwrap_or(true), "refused with status {} {}", resp.status, j.to_string());
                            check!("refused-before-upstream", ups.is_empty(), "a refused request reached a subgraph: {}", show());
                            k().probe("refused");
                        }
                    } else {
                        check!("answered", resp.status == 200 && j.get("errors").is_none(), "status {} {}: {}", resp.status, j.to_string(), show());
                        if as_user {
                            check!("accepted-only-if-valid", may, "an invalid token was accepted: {}", show());
                            k().probe("accepted");
                        } else {
                            check!("valid-is-accepted", !mustbe, "a valid token was ignored: {}", show());
                            k().probe("ignored");
                        }
                    }
                    nontrivial();
                }
                cl.close();
                wg.done();
            });
        }
        wg.wait().await;
        // polling goes on whatever the source did
        sleep(45 * SEC).await;
        for (i, p) in provs.iter().enumerate() {
            let mut last = t_start;
            let a = p.asked.borrow();
            for t in a.iter().copied().chain([k().now]) {
                check!("keeps-polling", t < last + p.interval + 20 * SEC, "provider {} with interval {} s was not asked between {} ms and {} ms", i, p.interval / SEC, last / MS, t / MS);
                last = last.max(t);
            }
        }
        done();
    });
}
fn rt(t: u64) -> u64 {
    k().realtime() - (k().now - t)
}
/// (may it be accepted, must it be accepted)
fn expect(t: &Tok, provs: &[Rc<Prov>], t0: u64, t1: u64) -> (bool, bool) {
    let (p, ki) = match t.key {
        Some(x) => x,
        None => return (false, false),
    };
    let got = provs[p].got.borrow();
    let (mut may, mut all, mut any) = (false, true, false);
    for (i, (at, set)) in got.iter().enumerate() {
        let until = got.get(i + 1).map(|x| x.0).unwrap_or(u64::MAX - CACHE - SLACK) + SLACK;
        if *at <= t1 && until + CACHE >= t0 && set.contains(&ki) {
            may = true;
        }
        if *at <= t1 && until >= t0 {
            all &= set.contains(&ki);
            any |= *at + SLACK < t0;
        }
    }
    let (mut e0, mut e1) = (true, true);
    match t.exp {
        Some(e) => {
            e0 = rt(t0) < (e + 1) * SEC + LEEWAY + CACHE;
            e1 = rt(t1) < e * SEC;
        }
        None => {
            e0 = false;
            e1 = false;
        }
    }
    (may && t.claims_ok && e0, all && any && t.claims_ok && t.kid_ok && e1)
}
fn mint(r: &mut Rng, provs: &[Rc<Prov>], iss: Option<&str>, aud: Option<&[&str]>, name: &str) -> Tok {
    let p = r.usize(provs.len());
    let cur: Vec<usize> = provs[p].cur.borrow().iter().copied().collect();
    let ki = if r.chance(3, 4) { *r.pick(&cur) } else { r.usize(3) };
    let key = provs[p].keys[ki].clone();
    let now = k().realtime() / SEC;
    let mut what = format!("key {} of provider {}", ki, p);
    let mut c = vec![("sub".to_string(), J::s(name))];
    let exp = match r.below(10) {
        0 => None,
        1 => Some(now.saturating_sub(500)),
        2 => Some(now - 58 + r.below(10)),
        3 => Some(now - 66 + r.below(8)),
        4 => Some(now + r.below(12)),
        _ => Some(now + 10_000),
    };
    if let Some(e) = exp {
        c.push(("exp".into(), J::i(e as i64)));
    }
    what += &format!(", exp {:?}", exp.map(|e| e as i64 - now as i64));
    let mut ok = true;
    match iss {
        Some(i) => match r.below(8) {
            0 => ok = false,
            1 => {
                ok = false;
                c.push(("iss".into(), J::s("https://iss.one.evil")));
            }
            _ => c.push(("iss".into(), J::s(i))),
        },
        None => {
            if r.chance(1, 2) {
                c.push(("iss".into(), J::s("whoever")));
            }
        }
    }
    match aud {
        Some(a) => match r.below(8) {
            0 => ok = false,
            1 => {
                ok = false;
                c.push(("aud".into(), J::s("app")));
            }
            2 => {
                ok = false;
                c.push(("aud".into(), J::Arr(vec![J::s("app-c")])));
            }
            3 => c.push(("aud".into(), J::Arr(vec![J::s(a[0]), J::s(a[1])]))),
            4 => c.push(("aud".into(), J::Arr(vec![J::s(a[1])]))),
            _ => c.push(("aud".into(), J::s(a[0]))),
        },
        None => {
            if r.chance(1, 2) {
                c.push(("aud".into(), J::s("whatever")));
            }
        }
    }
    if !ok {
        what += ", wrong issuer or audience";
    }
    let mut kid_ok = true;
    let kid = match r.below(8) {
        0 => None,
        1 => {
            kid_ok = false;
            Some("nobody".to_string())
        }
        _ => key.kid.clone(),
    };
    let mut sig = Some((p, ki));
    let cl = J::Obj(c.clone());
    let mut text = jwt::token(&cl, kid.as_deref(), &key.secret);
    match r.below(14) {
        0 => {
            sig = None;
            text = jwt::token(&cl, kid.as_deref(), b"a key nobody published, long enough to be one");
            what += ", signed by a stranger";
        }
        1 => {
            sig = None;
            let mut q: Vec<String> = text.split('.').map(|s| s.to_string()).collect();
            c[0].1 = J::s("admin");
            q[1] = jwt::b64(J::Obj(c).to_string().as_bytes());
            text = q.join(".");
            what += ", forged claims";
        }
        2 => {
            sig = None;
            text = format!("{}.{}.", jwt::b64(b"{\"alg\":\"none\",\"typ\":\"JWT\"}"), jwt::b64(cl.to_string().as_bytes()));
            what += ", unsigned";
        }
        3 => {
            sig = None;
            text = text[..text.len() / 2].to_string();
            what += ", truncated";
        }
        _ => {}
    }
    Tok { text, sub: name.into(), key: sig, kid_ok, exp, claims_ok: ok, what }
}
