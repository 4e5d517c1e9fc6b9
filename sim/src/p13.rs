//! P13: subscriptions over the HTTP callback protocol.
use crate::common::*;
use crate::fed::*;
use crate::gen::*;
use crate::json::J;
use crate::kernel::*;
use crate::net::*;
use crate::rng::*;
use crate::run::*;
use crate::stream::*;
use crate::world::*;
use crate::{check, hist, obj};
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::rc::Rc;

/// One subscription as its subgraph knows it.
struct Cb {
    f: Rc<Feed>,
    url: String,
    verifier: String,
    /// checks: (sent, answered)
    checks: RefCell<Vec<(u64, u64)>>,
    /// some check was sent whose fate is unknown
    unsure: Cell<bool>,
    /// a complete was acknowledged or the subscription is otherwise gone for the router
    over: Cell<u64>,
    /// an end was sent whose fate is unknown
    maybe_over: Cell<u64>,
    /// the POST that asked for it was not answered with success
    refused: Cell<u64>,
    /// 404 to a valid message
    unknown: Cell<u64>,
}
struct Cx {
    fed: Rc<Fed>,
    feeds: Feeds,
    seen: Rc<RefCell<Vec<Rc<Seen>>>>,
    cbs: RefCell<Vec<Rc<Cb>>>,
    interval: u64,
    addr: (u32, u16),
    lim: u64,
    faulty: bool,
    dedupe: bool,
    reloaded: Cell<u64>,
}
const GRACE: u64 = 1 * SEC;
impl Cx {
    /// Whether the router may have found the heartbeat missing by `t`.
    fn lapsed(&self, c: &Cb, t: u64) -> bool {
        if self.interval == 0 {
            return false;
        }
        let mut lo = c.f.at.saturating_sub(SEC);
        for (s, a) in c.checks.borrow().iter() {
            if *a > 0 && *a <= t {
                if a - lo > self.interval + GRACE {
                    return true;
                }
                lo = *s;
            }
        }
        t > lo && t - lo > self.interval + GRACE
    }
    /// The latest time at which the router must have ended it for its missing heartbeat.
    fn deadline(&self, c: &Cb) -> Option<u64> {
        if self.interval == 0 || c.unsure.get() {
            return None;
        }
        let hi = c.checks.borrow().iter().map(|x| x.1).max().unwrap_or(0).max(c.f.at);
        Some(hi + 2 * self.interval + GRACE + SEC)
    }
    /// Why the router may not know `c` at `t`.
    fn may_be_unknown(&self, c: &Cb, t: u64) -> bool {
        c.over.get() > 0
            || c.maybe_over.get() > 0
            || c.refused.get() > 0
            || c.unknown.get() > 0
            || self.reloaded.get() > 0
            || self.lapsed(c, t)
            || self.seen.borrow().iter().any(|m| m.who == c.f.who && (m.left.get() > 0 || m.ended.get() > 0))
    }
}

pub fn setup(kk: &mut Kernel) {
    let mut g = stream(1);
    let cfg = GenCfg { subscription: true, mutation: false, requires: false, iface: false, union: false, who: true, ..GenCfg::default() };
    let mut fed0 = gen_fed(&mut g, &cfg);
    add_notes(&mut fed0);
    let fed = Rc::new(fed0);
    let n = fed.subs.len();
    let cap = *g.pick(&[2u64, 8, 32]);
    let dedupe = g.chance(1, 2);
    let interval = *g.pick(&[0u64, 1, 2, 5, 5, 10]) * SEC;
    let own = g.chance(1, 3);
    let addr = if own { (0x7f000001, 4001) } else { ROUTER };
    let public = format!("http://router.test:{}/callback{}", addr.1, if g.chance(1, 4) { "/" } else { "" });
    let mut yaml = format!(
        "headers:\n  all:\n    request:\n      - propagate:\n          named: x-who\nsubscriptions:\n  enabled: true\n  broadcast_capacity: {}\n  callback:\n    public_url: {}\n    path: /callback\n    heartbeat_interval: {}s\n    subgraphs: [{}]\n",
        cap,
        public,
        interval / SEC,
        (0..n).map(|s| format!("s{}", s)).collect::<Vec<_>>().join(", ")
    );
    if own {
        yaml += "    listen: 127.0.0.1:4001\n";
    }
    yaml += &format!("traffic_shaping:\n  all:\n    request_timeout: 4s\n  router:\n    request_timeout: 20s\n    dedupe:\n      enabled: {}\n", dedupe);
    if dedupe {
        yaml += "      headers:\n        include: [\"X-Who\"]\n";
    }
    let workers = 1 + g.below(3);
    let reload = g.chance(1, 5);
    if reload {
        files_poll(kk, &fed.sdl(), workers, 500, &yaml);
    } else {
        files(kk, &fed.sdl(), workers, &yaml);
    }
    dns_subs(kk, &fed);
    let faulty = g.chance(2, 3) && item("subgraphs fail").is_some();
    let cx = Rc::new(Cx { fed: fed.clone(), feeds: Default::default(), seen: Default::default(), cbs: Default::default(), interval, addr, lim: cap.min(16), faulty, dedupe, reloaded: Cell::new(0) });
    for s in 0..n {
        let mut gg = stream(100 + s as u64);
        let net = rnet(&mut gg);
        let rg = Rc::new(RefCell::new(gg));
        let cx = cx.clone();
        serve((sub_ip(s), 80), "subgraph", net, move |sock| upstream(cx.clone(), s, sock, rg.clone()));
    }
    let npool = 1 + g.below(2);
    let pool: Vec<GenOp> = (0..npool).map(|i| noted(&fed, QGen::new(stream(200 + i), &fed).op("subscription", 1 + stream(300 + i).below(5) as i64))).collect();
    r().sample = pool[0].text.clone();
    let nc = 1 + g.usize(5);
    let reload_at = if reload && item("supergraph reload").is_some() { Some(g.log_range(100 * MS, 8 * SEC)) } else { None };
    kk.spawn("main", async move {
        ready().await;
        if let Some(t) = reload_at {
            let cx = cx.clone();
            k().spawn("publisher", async move {
                sleep(t).await;
                hist!("a new supergraph is published");
                k().fs_write("/sim/sg.graphql", format!("# version 2\n{}\n", cx.fed.sdl().replace("type Query", "type Zz @join__type(graph: S0) {\n  zz: Int\n}\n\ntype Query")).into_bytes());
                k().fault("supergraph-reload");
                cx.reloaded.set(k().now);
            });
        }
        let wg = Wg::new(nc);
        for i in 0..nc {
            let (wg, cx, pool) = (wg.clone(), cx.clone(), pool.clone());
            k().spawn("subscriber", async move {
                if let Some(mut r) = item(&format!("subscriber {}", i)) {
                    let op = r.pick(&pool).clone();
                    let who = if r.chance(2, 3) { "a" } else { "b" };
                    sleep(if r.chance(1, 3) { 0 } else { r.log_range(1 * MS, 4 * SEC) }).await;
                    subscribe(&cx, i, who, &op, &mut r).await;
                }
                wg.done();
            });
        }
        let _ = until(k().now + 70 * SEC, wg.wait()).await;
        sleep(2 * SEC).await;
        judge(&cx);
        for m in cx.seen.borrow().iter() {
            if m.ended.get() == 0 && m.left.get() == 0 {
                m.left.set(k().now);
                if let Some(c) = m.conn.get() {
                    Sock::new(c).close();
                }
            }
        }
        sleep(30 * SEC).await;
        // nobody listens any more: every subscription is unknown
        let mut g = stream(3);
        let cbs = cx.cbs.borrow().clone();
        for c in cbs {
            let net = rnet(&mut g);
            let mut s = Sock::connect(cx.addr, net).unwrap_or_else(|| violate("no-response", "the callback endpoint refuses connections"));
            let m = message(&c, "next", Some(obj! {"data" => J::Null}), None);
            s.write(&bytes(&c.url, &m.to_string())).await;
            match reply(&mut s).await {
                Ok(r) => check!("released", r.status == 404, "nobody listens to f{} for 30 s, a message for it is answered {}", c.f.id, r.status),
                Err(e) => violate("no-response", format!("callback message got no response: {:?}", e)),
            }
            s.close();
        }
        done();
    });
}
fn message(c: &Cb, action: &str, payload: Option<J>, errors: Option<J>) -> J {
    let mut m = vec![("kind".to_string(), J::s("subscription")), ("action".to_string(), J::s(action)), ("id".to_string(), J::s(&c.f.opid)), ("verifier".to_string(), J::s(&c.verifier))];
    if let Some(p) = payload {
        m.push(("payload".into(), p));
    }
    if let Some(e) = errors {
        m.push(("errors".into(), e));
    }
    J::Obj(m)
}
fn bytes(path: &str, body: &str) -> Vec<u8> {
    request_bytes("POST", path, "router.test", &[h("content-type", "application/json"), h("subscription-protocol", "callback/1.0")], Some(body.as_bytes()))
}
/// The subgraph's connection for callbacks of one subscription.
struct Line {
    s: Option<Sock>,
    net: Net,
    keep: bool,
}
impl Line {
    /// Sends one request; the status, or None when the connection failed.
    async fn send(&mut self, cx: &Cx, b: &[u8], cut: Option<usize>, forged: bool) -> Option<u16> {
        let old = self.s.is_some();
        let mut s = match self.s.take() {
            // its idle time may be over: 408 without being asked
            Some(s) => s,
            None => Sock::connect(cx.addr, self.net.clone()).unwrap_or_else(|| violate("no-response", "the callback endpoint refuses connections")),
        };
        if let Some(c) = cut {
            k().fault("callback-connection-lost");
            s.write(&b[..c]).await;
            sleep(1 * MS).await;
            s.rst();
            return None;
        }
        s.write(b).await;
        match reply(&mut s).await {
            Ok(r) if !(old && r.status == 408) => {
                // (a request refused before it was read costs the connection)
                if self.keep && !forged {
                    self.s = Some(s);
                } else {
                    s.close();
                }
                Some(r.status)
            }
            _ => {
                s.close();
                // an idle connection may be closed by the router: once more on a new one
                let mut s = Sock::connect(cx.addr, self.net.clone()).unwrap_or_else(|| violate("no-response", "the callback endpoint refuses connections"));
                s.write(b).await;
                match reply(&mut s).await {
                    Ok(r) => {
                        s.close();
                        Some(r.status)
                    }
                    // refused before it was read
                    Err(_) if forged => None,
                    Err(e) => violate("no-response", format!("callback message got no response: {:?}", e)),
                }
            }
        }
    }
}
async fn upstream(cx: Rc<Cx>, s: usize, sock: Sock, rg: Rc<RefCell<Rng>>) {
    let mut sock = sock;
    while let Ok(req) = sock.http_request().await {
        let up = match parse_up(s, sock.c, &req) {
            Ok(u) => Rc::new(u),
            Err(e) => violate("bad-upstream-request", format!("subgraph {} got {}", s, e)),
        };
        if !up.query.trim_start().starts_with("subscription") {
            let d = rdelay(&mut rg.borrow_mut());
            set_who(&who_of(&up.headers));
            let (data, _) = match sub_answer(&cx.fed, &up) {
                Ok(x) => x,
                Err(e) => violate("bad-upstream-request", format!("subgraph {} cannot execute {:?}: {}", s, up.query, e)),
            };
            if !answer(&mut sock, &up, data, &Act::fine(d)).await {
                return;
            }
            continue;
        }
        let e = up.ext.get("subscription").cloned().unwrap_or(J::Null);
        let field = |n: &str| e.get(n).and_then(|x| x.str()).unwrap_or("").to_string();
        let (url, id, verifier) = (field("callbackUrl"), field("subscriptionId"), field("verifier"));
        check!("callback-protocol", req.headers.get("accept").map(|a| a.contains("callbackSpec=1.0")).unwrap_or(false), "s{} is asked to subscribe without accept: callbackSpec=1.0", s);
        check!("callback-protocol", !id.is_empty() && verifier.len() >= 16 && url == format!("http://router.test:{}/callback/{}", cx.addr.1, id), "subscription extension {}", e.to_string());
        check!("callback-protocol", e.get("heartbeatIntervalMs").map(|x| x.to_string()) == Some((cx.interval / MS).to_string()), "subscription extension {}, the interval is {} ms", e.to_string(), cx.interval / MS);
        check!("fresh-secrets", cx.cbs.borrow().iter().all(|c| c.f.opid != id && c.verifier != verifier && c.f.opid != verifier), "id or verifier used twice");
        let f = Feed::new(&cx.feeds, &up, &id);
        let c = Rc::new(Cb { f: f.clone(), url: format!("/callback/{}", id), verifier, checks: Default::default(), unsure: Cell::new(false), over: Cell::new(0), maybe_over: Cell::new(0), refused: Cell::new(0), unknown: Cell::new(0) });
        cx.cbs.borrow_mut().push(c.clone());
        let mut g = stream(700 + f.id as u64);
        let fail = cx.faulty && g.chance(1, 4);
        let early = g.chance(1, 2);
        let d = rdelay(&mut g);
        if early {
            // the first check precedes the response
            let mut l = Line { s: None, net: rnet(&mut g), keep: false };
            check(&cx, &c, &mut l).await;
        }
        if fail {
            sleep(d).await;
            // known to the router until the response arrives there
            c.refused.set(k().now.max(1));
            k().fault("subscription-refused");
            f.over("failed");
            hist!("f{} is refused", f.id);
            match g.below(5) {
                0 => {
                    sock.respond(*g.pick(&[400u16, 404, 500, 503]), &[("content-type", "application/json")], b"{\"errors\":[{\"message\":\"no\"}]}").await;
                    continue;
                }
                1 => {
                    sock.respond(500, &[], b"").await;
                    continue;
                }
                2 => {
                    // the error's body never ends
                    k().fault("stalled-error-body");
                    sock.write(b"HTTP/1.1 502 Bad Gateway\r\ncontent-length: 100\r\n\r\noh").await;
                    sock.gone().await;
                    sock.close();
                }
                3 => sock.rst(),
                _ => {
                    k().fault("stalled-response");
                    sock.gone().await;
                    sock.close();
                }
            }
            return;
        }
        k().spawn("callback feed", feed(cx.clone(), c, g.clone(), early));
        if g.chance(1, 2) {
            sleep(d).await;
        }
        let ok = match g.below(3) {
            0 => sock.respond(200, &[("content-type", "application/json")], b"{\"data\":null}").await,
            1 => sock.respond(204, &[], b"").await,
            _ => sock.respond(200, &[("content-type", "application/json"), ("subscription-protocol", "callback")], b"").await,
        };
        if !ok {
            return;
        }
    }
    sock.close();
}
/// A valid message was answered.
fn judge_answer(cx: &Cx, c: &Cb, what: &str, sent: u64, st: u16) {
    let now = k().now;
    hist!("{} for f{} is answered {}", what, c.f.id, st);
    match st {
        204 => {
            check!("gone-is-gone", c.over.get() == 0 || c.over.get() >= sent, "f{} was completed {} ms ago, {} for it is answered 204", c.f.id, (now - c.over.get()) / MS, what);
            check!("gone-is-gone", c.unknown.get() == 0 || c.unknown.get() >= sent, "f{} was unknown {} ms ago, {} for it is answered 204", c.f.id, (now - c.unknown.get()) / MS, what);
        }
        404 => {
            check!("known-while-live", cx.may_be_unknown(c, now), "{} for f{} is answered 404 although it is live", what, c.f.id);
            if c.unknown.get() == 0 {
                c.unknown.set(now);
                c.f.let_go();
            }
        }
        x => violate("valid-accepted", format!("{} for f{} is answered {}", what, c.f.id, x)),
    }
}
async fn check(cx: &Cx, c: &Rc<Cb>, l: &mut Line) {
    let sent = k().now;
    let dead = cx.deadline(c);
    let b = bytes(&c.url, &message(c, "check", None, None).to_string());
    // an unanswered check may count
    c.unsure.set(true);
    if let Some(st) = l.send(cx, &b, None, false).await {
        c.unsure.set(false);
        k().probe("heartbeats");
        if st == 204 {
            if let Some(d) = dead {
                check!("missed-heartbeat-ends", sent <= d, "f{} sent no heartbeat until {} ms ago, it is still known", c.f.id, (k().now - d) / MS);
            }
            c.checks.borrow_mut().push((sent, k().now));
        }
        judge_answer(cx, c, "a check", sent, st);
    }
}
/// A message that must not be believed.
async fn forge(cx: &Cx, c: &Rc<Cb>, l: &mut Line, g: &mut Rng) {
    let fake = obj! {"data" => obj!{"x" => J::s("forged")}};
    let act = *g.pick(&["next", "next", "complete", "check"]);
    let payload = if act == "next" { Some(fake) } else { None };
    let good = message(c, act, payload, if act == "complete" && g.chance(1, 2) { Some(J::Arr(vec![obj! {"message" => J::s("forged")}])) } else { None });
    let set = |m: &J, key: &str, v: Option<J>| match m {
        J::Obj(o) => J::Obj(o.iter().filter(|x| x.0 != key).cloned().chain(v.map(|v| (key.to_string(), v))).collect()),
        _ => unreachable!(),
    };
    let mut path = c.url.clone();
    let mut hd = vec![h("content-type", "application/json"), h("subscription-protocol", "callback/1.0")];
    let mut method = "POST";
    let other = cx.cbs.borrow().iter().filter(|o| o.f.opid != c.f.opid).last().cloned();
    let mut want: &[u16] = &[400];
    let (what, body) = match g.below(13) {
        0 => ("another verifier", set(&good, "verifier", Some(J::s("01ARZ3NDEKTSV4RRFFQ69G5FAV"))).to_string()),
        1 => ("an empty verifier", set(&good, "verifier", Some(J::s(""))).to_string()),
        2 => ("half a verifier", set(&good, "verifier", Some(J::s(&c.verifier[..c.verifier.len() - 1 - g.usize(20)]))).to_string()),
        3 => ("no verifier", set(&good, "verifier", None).to_string()),
        4 => match &other {
            Some(o) => ("another subscription's verifier", set(&good, "verifier", Some(J::s(&o.verifier))).to_string()),
            None => ("the id as verifier", set(&good, "verifier", Some(J::s(&c.f.opid))).to_string()),
        },
        5 => {
            want = &[404];
            ("another id in the body", set(&good, "id", Some(J::s(other.map(|o| o.f.opid.clone()).unwrap_or("01ARZ3NDEKTSV4RRFFQ69G5FAV".into()).as_str()))).to_string())
        }
        6 => {
            want = &[404];
            path = "/callback/01ARZ3NDEKTSV4RRFFQ69G5FAV".into();
            ("another id in the path", good.to_string())
        }
        7 => {
            hd.pop();
            ("no protocol header", good.to_string())
        }
        8 => {
            hd[1] = h("subscription-protocol", *g.pick(&["callback/2.0", "callback", "", "graphql-ws"]));
            ("another protocol", good.to_string())
        }
        9 => {
            let b = good.to_string();
            ("half a message", b[..g.usize(b.len())].to_string())
        }
        10 => {
            let m = set(&good, *g.pick(&["kind", "action", "id"]), if g.chance(1, 2) { None } else { Some(J::s(*g.pick(&["query", "start", ""]))) });
            want = &[400, 404];
            ("a wrong field", m.to_string())
        }
        11 => ("an event without payload", set(&message(c, "next", None, None), "x", None).to_string()),
        _ => {
            method = *g.pick(&["GET", "PUT", "DELETE"]);
            // (what is not known is answered by the landing page)
            want = &[200, 404, 405];
            ("another method", good.to_string())
        }
    };
    k().fault("forged-callback");
    hist!("a {} for f{} with {}", act, c.f.id, what);
    let b = request_bytes(method, &path, "router.test", &hd, Some(body.as_bytes()));
    if let Some(st) = l.send(cx, &b, None, true).await {
        hist!("a {} for f{} with {} is answered {}", act, c.f.id, what, st);
        check!("forged-refused", want.contains(&st) || (st == 404 && cx.may_be_unknown(c, k().now)), "a {} for f{} with {} is answered {}", act, c.f.id, what, st);
    }
}
/// Heartbeats until told to stop.
async fn beats(cx: Rc<Cx>, c: Rc<Cb>, mut g: Rng, until: u64, early: bool) {
    let mut l = Line { s: None, net: rnet(&mut g), keep: g.chance(1, 2) };
    let mut at = k().now + if early { cx.interval * (2 + g.below(6)) / 10 } else { 0 };
    let rate = 3 + g.below(7);
    while at < until && c.over.get() == 0 && c.unknown.get() == 0 {
        sleep(at.saturating_sub(k().now)).await;
        if c.over.get() > 0 || c.unknown.get() > 0 {
            break;
        }
        check(&cx, &c, &mut l).await;
        at = k().now + cx.interval * rate / 10;
    }
    if let Some(mut s) = l.s {
        s.close();
    }
}
async fn settle(cx: &Cx, f: &Feed) {
    crate::p10::settle(&cx.feeds, &cx.seen, f).await
}
async fn feed(cx: Rc<Cx>, c: Rc<Cb>, mut g: Rng, early: bool) {
    let f = c.f.clone();
    let stop = if cx.interval == 0 {
        0
    } else if cx.faulty && g.chance(1, 3) {
        k().fault("heartbeats-stop");
        k().now + g.log_range(1 * MS, 20 * SEC)
    } else {
        u64::MAX
    };
    if cx.interval > 0 || g.chance(1, 3) {
        let (cx, c, g) = (cx.clone(), c.clone(), stream(750 + f.id as u64));
        k().spawn("heartbeat", beats(cx.clone(), c, g, if cx.interval == 0 { 1 } else { stop }, early));
    }
    let end = if g.chance(1, 3) {
        "never"
    } else if cx.faulty && g.chance(1, 2) {
        *g.pick(&["errors", "errors", "garbage"])
    } else {
        "complete"
    };
    let quiet = g.chance(1, 6);
    let bursts = if quiet { 0 } else { 1 + g.below(5) };
    let flood = g.chance(1, 6);
    let burst = if flood { cx.lim + 1 + g.below(3 * cx.lim) } else { 1 + g.below(cx.lim) };
    f.flood.set(flood);
    let big = *g.pick(&[50usize, 3000, 30000]);
    hist!("f{}: bursts {}x{} end {}, heartbeats stop at {} ms", f.id, bursts, burst, end, if stop == u64::MAX { 0 } else { stop / MS });
    let mut l = Line { s: None, net: rnet(&mut g), keep: g.chance(1, 2) };
    let mut first = true;
    for _ in 0..bursts {
        if !first || g.chance(2, 3) {
            settle(&cx, &f).await;
            if g.chance(1, 2) {
                sleep(g.log_range(1 * MS, 3 * SEC)).await;
            }
        }
        let n = if first { burst.min(16) } else { burst };
        first = false;
        for _ in 0..n {
            if g.chance(1, 6) && cx.faulty {
                forge(&cx, &c, &mut l, &mut g).await;
            }
            if c.unknown.get() > 0 {
                break;
            }
            let jk = junk(&mut g, big);
            let ev = f.event(&cx.fed, &jk);
            hist!("f{} emits #{} {}", f.id, f.emitted.borrow().len() - 1, short(&ev.to_string()));
            let b = bytes(&c.url, &message(&c, "next", Some(ev), None).to_string());
            if cx.faulty && g.chance(1, 12) {
                if g.chance(1, 2) {
                    // never complete: must not be delivered
                    f.emitted.borrow_mut().pop();
                    let cut = 1 + g.usize(b.len() - 1);
                    l.send(&cx, &b, Some(cut), false).await;
                } else {
                    // may be delivered
                    f.flood.set(true);
                    l.send(&cx, &b, Some(b.len()), false).await;
                }
                continue;
            }
            let sent = k().now;
            let st = l.send(&cx, &b, None, false).await.unwrap();
            judge_answer(&cx, &c, "an event", sent, st);
            if st == 204 {
                f.wrote();
            }
        }
    }
    settle(&cx, &f).await;
    if end != "never" {
        sleep(g.log_range(1 * MS, 2 * SEC)).await;
    }
    if c.unknown.get() == 0 && end != "never" {
        let m = match end {
            "complete" => message(&c, "complete", None, if g.chance(1, 3) { Some(J::Arr(vec![])) } else { None }),
            "errors" => {
                k().fault("completed-with-errors");
                message(&c, "complete", None, Some(J::Arr(vec![obj! {"message" => J::s(&format!("boom{}", f.id)), "extensions" => obj!{"code" => J::s("BOOM")}}])))
            }
            _ => {
                k().fault("garbage-event");
                message(&c, "next", Some(match g.below(3) {
                    0 => J::Num("5".into()),
                    1 => J::s("garbage"),
                    _ => J::Arr(vec![]),
                }), None)
            }
        };
        hist!("f{} sends {}", f.id, short(&m.to_string()));
        let b = bytes(&c.url, &m.to_string());
        let sent = k().now;
        c.maybe_over.set(sent.max(1));
        let how = match end {
            "complete" => "complete",
            "errors" => "errors",
            _ => "garbage",
        };
        f.over(how);
        let st = l.send(&cx, &b, None, false).await.unwrap();
        judge_answer(&cx, &c, end, sent, st);
        if st == 204 && end != "garbage" {
            c.over.set(k().now);
            k().probe("subscriptions completed");
            // nothing is accepted any more
            if g.chance(1, 2) {
                if g.chance(1, 2) {
                    sleep(g.log_range(1 * MS, 1 * SEC)).await;
                }
                let act = *g.pick(&["next", "complete", "check"]);
                let b = bytes(&c.url, &message(&c, act, if act == "next" { Some(obj! {"data" => J::Null}) } else { None }, None).to_string());
                let sent = k().now;
                k().fault("message-after-complete");
                if let Some(st) = l.send(&cx, &b, None, false).await {
                    check!("gone-is-gone", st == 404, "a {} after the acknowledged complete of f{} is answered {}", act, f.id, st);
                }
                let _ = sent;
            }
        }
    } else if end == "never" {
        for _ in 0..g.below(3) {
            sleep(g.log_range(100 * MS, 10 * SEC)).await;
            if cx.faulty {
                forge(&cx, &c, &mut l, &mut g).await;
            }
        }
    }
    if let Some(mut s) = l.s {
        s.close();
    }
}
async fn subscribe(cx: &Rc<Cx>, id: usize, who: &str, op: &GenOp, g: &mut Rng) {
    let me = Seen::new(id, op, who, *g.pick(&[Via::Sse, Via::Multi, Via::Incr]));
    cx.seen.borrow_mut().push(me.clone());
    hist!("subscriber {} ({}) {:?} asks {}", id, who, me.via, op.body());
    let s = Sock::connect(ROUTER, rnet(g)).unwrap_or_else(|| violate("no-response", "connection refused"));
    let c = s.c;
    me.conn.set(Some(c));
    let leave = if g.chance(1, 3) { Some(g.log_range(1 * MS, 12 * SEC)) } else { None };
    let (me2, cx2) = (me.clone(), cx.clone());
    let fut = async move {
        let (me, cx) = (me2, cx2);
        let mut s = match HttpSub::open(s, &me.op.body(), me.via, &[h("x-who", &me.who)]).await {
            Ok(s) => s,
            Err(Ok(r)) => {
                me.ended.set(k().now);
                *me.error.borrow_mut() = Some(errs(&body_json(&r)).join(" "));
                *me.how.borrow_mut() = "refused".into();
                hist!("subscriber {} is answered {} {}", me.id, r.status, short(&String::from_utf8_lossy(&r.body)));
                return;
            }
            Err(Err(e)) => violate("no-response", format!("subscriber {} got no response: {:?}", me.id, e)),
        };
        me.head.set(k().now);
        loop {
            match s.next().await {
                SEv::Next(j) => {
                    hist!("subscriber {} got {}", me.id, short(&j.to_string()));
                    me.take(&cx.fed, &cx.feeds, &j);
                }
                SEv::Beat => {}
                SEv::Complete => {
                    hist!("subscriber {} was completed", me.id);
                    me.ended.set(k().now);
                    *me.how.borrow_mut() = "complete".into();
                    s.close();
                    return;
                }
                SEv::Cut(_) if me.left.get() > 0 => return,
                SEv::Cut(e) => violate("no-proper-end", format!("the stream of subscriber {} was cut: {:?}", me.id, e)),
            }
        }
    };
    match leave {
        Some(t) => {
            if until(k().now + t, fut).await.is_none() {
                me.left.set(k().now);
                k().fault("subscriber-leaves");
                hist!("subscriber {} leaves", id);
                if id % 2 == 0 {
                    Sock::new(c).close();
                } else {
                    Sock::new(c).rst();
                }
            }
        }
        None => fut.await,
    }
}
fn judge(cx: &Cx) {
    let now = k().now;
    let cbs = cx.cbs.borrow();
    let reloaded = cx.reloaded.get();
    let mut users: BTreeMap<usize, usize> = BTreeMap::new();
    for m in cx.seen.borrow().iter() {
        let err = m.error.borrow().clone();
        let has = |t: &str| err.as_ref().map(|e| e.contains(t)).unwrap_or(false);
        let fail_of = |c: &Cb, t: u64| c.refused.get() > 0 || (cx.lapsed(c, t)) || matches!(*c.f.how.borrow(), "errors" | "garbage");
        if has("SUBSCRIPTION_SCHEMA_RELOAD") {
            check!("no-spurious-reload-error", reloaded > 0 && m.ended.get() >= reloaded, "subscriber {} was ended with {:?} although nothing was reloaded", m.id, err);
            continue;
        }
        if m.left.get() == 0 && m.head.get() == 0 && m.ended.get() == 0 {
            check!("answered-in-time", m.asked.get() + 15 * SEC > now, "subscriber {} has no response after {} ms", m.id, (now - m.asked.get()) / MS);
        }
        let answered = if m.head.get() > 0 { m.head.get() } else { m.ended.get() };
        if answered > 0 {
            // (sharing requests may wait for several upstream requests, one after the other)
            let most = if cx.dedupe { 22 } else { 6 };
            check!("answered-in-time", answered - m.asked.get() <= most * SEC, "subscriber {} got its response after {} ms, a subgraph may take 4 s", m.id, (answered - m.asked.get()) / MS);
        }
        match m.feed.get() {
            Some(fi) => {
                let c = cbs.iter().find(|c| c.f.id == fi).unwrap();
                let f = &c.f;
                if !cx.dedupe {
                    if let Some(o) = users.insert(fi, m.id) {
                        violate("operations-mixed", format!("subscribers {} and {} both got events of f{}", o, m.id, fi));
                    }
                }
                check!("own-identity", f.who == m.who, "subscriber {} of {} got an event of f{} of {}", m.id, m.who, f.id, f.who);
                let how = *f.how.borrow();
                if m.ended.get() > 0 {
                    let lapsed = cx.lapsed(c, m.ended.get());
                    let over = f.ended.get() > 0 && f.ended.get() <= m.ended.get();
                    check!("ends-only-with-upstream", over || lapsed, "subscriber {} was ended ({}, {:?}) although f{} {}", m.id, m.how.borrow(), err, f.id, if f.ended.get() > 0 { "ended later" } else { "goes on and sends its heartbeats" });
                    if has("SUBGRAPH_GONE") {
                        check!("heartbeat-error-only-when-missed", lapsed, "subscriber {} was ended with {:?} although f{} sent its heartbeats", m.id, err, f.id);
                        k().probe("ended for missed heartbeats");
                    } else if over && how == "errors" {
                        check!("error-delivered", has(&format!("boom{}", fi)) || (lapsed && f.flood.get()) || f.flood.get(), "f{} ended with the error boom{}, subscriber {} was ended with {:?}", fi, fi, m.id, err);
                        k().probe("errors delivered");
                    } else if over && how == "garbage" {
                        check!("error-delivered", err.is_some() || f.flood.get(), "f{} ended with garbage, subscriber {} was ended with {:?}", fi, m.id, err);
                    } else if over {
                        check!("no-error-without-failure", err.is_none(), "subscriber {} was ended with {:?} although f{} completed", m.id, err, fi);
                    } else {
                        check!("error-delivered", f.flood.get(), "the heartbeat of f{} was missed, subscriber {} was ended with {:?}", fi, m.id, err);
                    }
                } else if m.left.get() == 0 {
                    check!("ends-with-upstream", f.ended.get() == 0 || f.ended.get() + 15 * SEC > now || c.unknown.get() > 0 && c.unknown.get() <= f.ended.get(), "f{} of subscriber {} ended ({}) {} ms ago, the subscriber is still waiting", f.id, m.id, how, (now - f.ended.get()) / MS);
                    check!("not-released-while-used", c.unknown.get() == 0 || c.over.get() > 0 || c.unknown.get() + 15 * SEC > now, "f{} of subscriber {} is unknown to the router, the subscriber is still there", f.id, m.id);
                    check!("ends-with-reload", reloaded == 0 || m.head.get() > reloaded || reloaded + 15 * SEC > now, "subscriber {} was not ended {} ms after the supergraph was replaced", m.id, (now - reloaded) / MS);
                    if let Some(d) = cx.deadline(c) {
                        if f.ended.get() == 0 {
                            check!("missed-heartbeat-ends", d + SEC > now, "f{} sent no heartbeat, it had to be ended {} ms ago, subscriber {} is still waiting", f.id, (now - d) / MS, m.id);
                        }
                    }
                }
                if m.left.get() == 0 && !f.flood.get() {
                    let last = f.emitted.borrow().iter().enumerate().filter(|(_, e)| e.2.get() > 0).map(|x| x.0).last();
                    check!("no-loss-at-end", m.last.get() >= last, "subscriber {} got events of f{} up to {:?}, the last one acknowledged is {:?}", m.id, f.id, m.last.get(), last);
                    if !cx.dedupe {
                        check!("no-loss-from-start", m.first.get() == Some(0), "subscriber {} is the only one of f{}, the first event it got is {:?}", m.id, f.id, m.first.get());
                    }
                    k().probe("complete streams judged");
                }
            }
            None if m.left.get() == 0 => {
                let mine: Vec<&Rc<Cb>> = cbs.iter().filter(|c| c.f.who == m.who && (cx.dedupe || c.f.at >= m.asked.get())).collect();
                if m.ended.get() > 0 {
                    let e = m.ended.get();
                    let good = mine.iter().any(|c| if err.is_some() { fail_of(c, e) } else { (c.f.ended.get() > 0 && c.f.ended.get() <= e && *c.f.how.borrow() == "complete") || (c.f.flood.get() && fail_of(c, e)) });
                    check!("error-iff-failed", good, "subscriber {} was ended ({}, {:?}) without any event, no subscription of {} ended like that", m.id, m.how.borrow(), err, m.who);
                } else {
                    let waiting = mine.iter().any(|c| c.f.ended.get() == 0 || c.f.ended.get() + 15 * SEC > now);
                    check!("left-hanging", waiting, "subscriber {} waits for {} ms, every subscription of {} is over", m.id, (now - m.asked.get()) / MS, m.who);
                    let silent = mine.iter().any(|c| c.f.flood.get() || c.f.emitted.borrow().iter().all(|e| e.2.get() == 0 || e.2.get() <= m.head.get() || cx.dedupe));
                    check!("events-arrive", silent, "subscriber {} waits without an event, no subscription of {} is silent", m.id, m.who);
                    let alive = mine.iter().any(|c| cx.deadline(c).map(|d| d + SEC > now).unwrap_or(true));
                    check!("missed-heartbeat-ends", alive, "subscriber {} waits although no subscription of {} sends heartbeats", m.id, m.who);
                }
            }
            None => {}
        }
    }
}
async fn reply(s: &mut Sock) -> Result<Resp, End> {
    match until(k().now + 15 * SEC, s.http_response()).await {
        Some(x) => x,
        None => violate("left-hanging", "a callback message is not answered within 15 s"),
    }
}
