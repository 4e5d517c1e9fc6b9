//! P12: operations that share a pooled WebSocket connection to a subgraph stay apart.
use crate::common::*;
use crate::fed::*;
use crate::gen::*;
use crate::json::J;
use crate::kernel::*;
use crate::net::*;
use crate::p02;
use crate::rng::*;
use crate::run::*;
use crate::stream::*;
use crate::world::*;
use crate::{check, hist, obj};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

/// A time during which a subgraph's WebSocket endpoint misbehaved.
struct Trouble {
    sub: usize,
    from: u64,
    to: Cell<u64>,
}
/// One WebSocket connection at a subgraph.
struct Conn {
    sub: usize,
    c: usize,
    open: u64,
    closed: Cell<u64>,
    who: RefCell<String>,
    ops: Cell<u64>,
    live: RefCell<BTreeMap<String, Rc<Feed>>>,
    busy: Cell<u64>,
    /// since when nothing runs on it
    idle: Cell<u64>,
    silent: Cell<bool>,
}
struct Cx {
    fed: Rc<Fed>,
    feeds: Feeds,
    seen: RefCell<Vec<Rc<Seen>>>,
    trouble: RefCell<Vec<Rc<Trouble>>>,
    conns: RefCell<Vec<Rc<Conn>>>,
    faulty: bool,
    calm: Cell<bool>,
    dedupe: bool,
    reuse: bool,
    idle: u64,
}
impl Cx {
    fn trouble(&self, s: usize) -> Rc<Trouble> {
        let t = Rc::new(Trouble { sub: s, from: k().now, to: Cell::new(k().now) });
        self.trouble.borrow_mut().push(t.clone());
        t
    }
    /// Subgraphs that misbehaved at some time between the two.
    fn bad(&self, from: u64, to: u64) -> BTreeSet<usize> {
        self.trouble.borrow().iter().filter(|t| t.from <= to && t.to.get() + 3 * SEC >= from).map(|t| t.sub).collect()
    }
}

pub fn setup(kk: &mut Kernel) {
    let mut g = stream(1);
    let cfg = GenCfg { subs: (2, 3), entities: (2, 3), subscription: true, mutation: false, requires: false, iface: false, union: false, who: true, ..GenCfg::default() };
    let mut fed0 = gen_fed(&mut g, &cfg);
    add_notes(&mut fed0);
    let fed = Rc::new(fed0);
    let n = fed.subs.len();
    let dedupe = g.chance(1, 3);
    let reuse = g.chance(5, 6);
    let mode = *g.pick(&["http", "reuse_existing", "reuse_existing", "websocket", "websocket"]);
    let idle = *g.pick(&[300 * MS, 1 * SEC, 2 * SEC, 5 * SEC]);
    let mut yaml = String::from("headers:\n  all:\n    request:\n      - propagate:\n          named: x-who\nsubscriptions:\n  enabled: true\n  websocket:\n    subgraphs:\n");
    let ws: Vec<bool> = (0..n).map(|s| s == 0 || g.chance(3, 4)).collect();
    for s in 0..n {
        if ws[s] {
            yaml += &format!("      s{}:\n        path: /stream\n", s);
        }
    }
    yaml += &format!("traffic_shaping:\n  all:\n    request_timeout: 5s\n    pool_idle_timeout: {}ms\n    websocket:\n      reuse_connections: {}\n      execute_mode: {}\n  router:\n    request_timeout: 30s\n    dedupe:\n      enabled: {}\n", idle / MS, reuse, mode, dedupe);
    if g.chance(1, 2) {
        yaml += "      headers:\n        include: [\"X-Who\"]\n";
    }
    files(kk, &fed.sdl(), 1 + g.below(3), &yaml);
    dns_subs(kk, &fed);
    let mut faulty = g.chance(1, 2) && item("subgraph connections fail").is_some();
    // operations
    let mut subs: Vec<GenOp> = vec![];
    for i in 0..40u64 {
        let op = noted(&fed, QGen::new(stream(200 + i), &fed).op("subscription", 1 + stream(300 + i).below(4) as i64));
        let single = fed.touched(&op.doc, op.opname.as_deref(), &op.vars).iter().all(|(_, f)| f != "id" || true) && one_subgraph(&fed, &op);
        if single || (!faulty && subs.is_empty()) {
            subs.push(op);
        }
        if subs.len() == 3 {
            break;
        }
    }
    if subs.is_empty() {
        subs.push(noted(&fed, QGen::new(stream(200), &fed).op("subscription", 1)));
        faulty = false;
    }
    let queries: Vec<GenOp> = (0..3u64).map(|i| QGen::new(stream(240 + i), &fed).op("query", 1 + stream(340 + i).below(5) as i64)).collect();
    r().sample = format!("{} | {}", subs[0].text, queries[0].text);
    let cx = Rc::new(Cx { fed: fed.clone(), feeds: Default::default(), seen: Default::default(), trouble: Default::default(), conns: Default::default(), faulty, calm: Cell::new(false), dedupe, reuse, idle });
    for s in 0..n {
        let mut gg = stream(100 + s as u64);
        let net = rnet(&mut gg);
        let rg = Rc::new(RefCell::new(gg));
        let cx = cx.clone();
        serve((sub_ip(s), 80), "subgraph", net, move |sock| upstream(cx.clone(), s, sock, rg.clone()));
    }
    let nc = 2 + g.usize(6);
    kk.spawn("main", async move {
        ready().await;
        let wg = Wg::new(nc);
        for i in 0..nc {
            let (wg, cx, subs, queries) = (wg.clone(), cx.clone(), subs.clone(), queries.clone());
            k().spawn("client", async move {
                let mut g = stream(500 + i as u64);
                let who = *g.pick(&["a", "b", "a|b"]);
                sleep(if g.chance(1, 3) { 0 } else { g.log_range(1 * MS, 4 * SEC) }).await;
                let m = 1 + g.below(5);
                for j in 0..m {
                    let mut r = match item(&format!("client {} does {}", i, j)) {
                        Some(r) => r,
                        None => continue,
                    };
                    if r.chance(1, 2) {
                        let op = r.pick(&queries).clone();
                        query(&cx, who, &op, &mut r).await;
                    } else {
                        let op = r.pick(&subs).clone();
                        let id = i * 10 + j as usize;
                        subscribe(&cx, id, who, &op, &mut r, j + 1 == m).await;
                    }
                    // around the time an unused connection is given up
                    let p = match r.below(4) {
                        0 => 0,
                        1 => r.log_range(1 * MS, 3 * SEC),
                        2 => cx.idle - r.below(40) * MS.min(cx.idle / 50),
                        _ => (cx.idle + r.below(4000) * 1000).saturating_sub(2 * MS),
                    };
                    sleep(p).await;
                }
                wg.done();
            });
        }
        let _ = until(k().now + 100 * SEC, wg.wait()).await;
        cx.calm.set(true);
        sleep(20 * SEC).await;
        judge(&cx);
        // everyone leaves
        for m in cx.seen.borrow().iter() {
            if m.ended.get() == 0 && m.left.get() == 0 {
                m.left.set(k().now);
                for c in m.conn.get() {
                    Sock::new(c).close();
                }
            }
        }
        sleep(10 * SEC).await;
        // with nothing wrong any more, everything works
        for who in ["a", "b"] {
            let mut g = stream(460);
            for op in queries.iter() {
                query(&cx, who, op, &mut g).await;
            }
        }
        sleep(cx.idle + 20 * SEC).await;
        for c in cx.conns.borrow().iter() {
            check!("idle-closed", c.closed.get() > 0, "nothing runs on connection {} to s{} for {} ms, pool_idle_timeout is {} ms, yet it is still open", c.c, c.sub, (k().now - c.idle.get()) / MS, cx.idle / MS);
            if c.ops.get() > 1 {
                k().probe("shared connections");
                nontrivial();
            }
        }
        for f in cx.feeds.borrow().iter() {
            check!("released", f.ended.get() > 0 || f.released.get() > 0, "all subscribers are gone, yet the subscription f{} to s{} is still held", f.id, f.sub);
        }
        done();
    });
}
/// Whether every field of the operation can be, and is, fetched with the subscription itself.
fn one_subgraph(fed: &Fed, op: &GenOp) -> bool {
    let t = fed.touched(&op.doc, op.opname.as_deref(), &op.vars);
    let root = match t.iter().find(|(ty, _)| ty == "Subscription") {
        Some((ty, f)) => fed.t(ty).unwrap().fields.iter().find(|x| &x.name == f).unwrap().owners[0],
        None => return false,
    };
    t.iter().all(|(ty, f)| match fed.t(ty) {
        Some(td) => td.fields.iter().find(|x| &x.name == f).map(|x| x.owners.contains(&root)).unwrap_or(true),
        None => true,
    })
}
async fn query(cx: &Rc<Cx>, who: &str, op: &GenOp, g: &mut Rng) {
    let s = match Sock::connect(ROUTER, rnet(g)) {
        Some(s) => s,
        None => violate("no-response", "connection refused"),
    };
    let mut s = s;
    let mut hd = vec![h("content-type", "application/json"), h("accept", "application/json"), h("x-who", who)];
    if g.chance(1, 4) {
        hd.push(h("x-extra", "1"));
    }
    let at = k().now;
    hist!("{} asks {}", who, op.body());
    s.write(&request_bytes("POST", "/graphql", "router.test", &hd, Some(op.body().as_bytes()))).await;
    let r = must(within(40 * SEC, "query", async move {
        let r = s.http_response().await;
        s.close();
        r
    })
    .await, "query");
    // it may share what was asked before
    let bad = cx.bad(if cx.dedupe { at.saturating_sub(15 * SEC) } else { at }, k().now);
    hist!("{} is answered {} {}", who, r.status, short(&String::from_utf8_lossy(&r.body)));
    set_who(who);
    if bad.is_empty() {
        must_be_right(&cx.fed, op, &r);
    } else {
        p02::judge_faulty(&cx.fed, op, &body_json(&r), &bad);
        k().probe("queries during trouble");
    }
}
async fn subscribe(cx: &Rc<Cx>, id: usize, who: &str, op: &GenOp, g: &mut Rng, last: bool) {
    let me = Seen::new(id, op, who, if g.chance(1, 2) { Via::Sse } else { Via::Multi });
    cx.seen.borrow_mut().push(me.clone());
    hist!("subscriber {} ({}) asks {}", id, who, op.body());
    let s = match Sock::connect(ROUTER, rnet(g)) {
        Some(s) => s,
        None => violate("no-response", "connection refused"),
    };
    let c = s.c;
    me.conn.set(Some(c));
    let mut hd = vec![h("x-who", who)];
    if g.chance(1, 4) {
        hd.push(h("x-extra", "1"));
    }
    let stay = if last && g.chance(1, 2) { 80 * SEC } else { g.log_range(1 * MS, 8 * SEC) };
    let (me2, cx2) = (me.clone(), cx.clone());
    let end = until(k().now + stay, async move {
        let (me, cx) = (me2, cx2);
        let mut s = match HttpSub::open(s, &me.op.body(), me.via, &hd).await {
            Ok(s) => s,
            Err(Ok(r)) => {
                me.ended.set(k().now);
                *me.error.borrow_mut() = Some(errs(&body_json(&r)).join(" "));
                *me.how.borrow_mut() = "refused".into();
                hist!("subscriber {} is answered {} {}", me.id, r.status, short(&String::from_utf8_lossy(&r.body)));
                check!("no-refusal", !cx.bad(me.asked.get(), k().now).is_empty(), "subscriber {} is refused with {} {}", me.id, r.status, short(&String::from_utf8_lossy(&r.body)));
                return;
            }
            Err(Err(e)) => violate("no-response", format!("subscriber {} got no response: {:?}", me.id, e)),
        };
        me.head.set(k().now);
        let mut perhaps: Option<String> = None;
        loop {
            match s.next().await {
                SEv::Next(j) => {
                    hist!("subscriber {} got {}", me.id, short(&j.to_string()));
                    if perhaps.take().is_some() {
                        // that was an event
                        me.last.set(me.last.get().map(|l| l + 1));
                    }
                    match note_of(&j) {
                        // entities of a subgraph in trouble are missing
                        Some((f, n, _)) if j.get("errors").is_some() && !cx.bad(me.asked.get(), k().now).is_empty() => {
                            check!("no-duplicate-no-reorder", me.last.get().map(|l| l < n).unwrap_or(true), "subscriber {} got event {} of f{} after event {:?}", me.id, n, f, me.last.get());
                            me.feed.set(Some(f));
                            me.last.set(Some(n));
                            me.at.set(k().now);
                            k().probe("events with missing entities");
                        }
                        // either that, with a null that reaches the top, or the last word
                        None if j.get("errors").is_some() && !cx.bad(me.asked.get(), k().now).is_empty() => {
                            perhaps = Some(errs(&j).join(" "));
                            continue;
                        }
                        _ => me.take(&cx.fed, &cx.feeds, &j),
                    }
                    if let Some(f) = me.feed.get() {
                        let f = cx.feeds.borrow()[f].clone();
                        check!("own-identity", f.who == me.who, "subscriber {} of {} got an event of f{}, which runs on the connection of {}", me.id, me.who, f.id, f.who);
                    }
                }
                SEv::Beat => {}
                SEv::Complete => {
                    hist!("subscriber {} was completed", me.id);
                    if me.error.borrow().is_none() {
                        *me.error.borrow_mut() = perhaps.take();
                    }
                    me.ended.set(k().now);
                    *me.how.borrow_mut() = "complete".into();
                    s.close();
                    return;
                }
                SEv::Cut(_) if me.left.get() > 0 => return,
                SEv::Cut(e) => violate("no-proper-end", format!("the stream of subscriber {} was cut: {:?}", me.id, e)),
            }
        }
    })
    .await;
    if end.is_none() && me.left.get() == 0 {
        if stay == 80 * SEC {
            return;
        }
        me.left.set(k().now);
        k().fault("subscriber-leaves");
        hist!("subscriber {} leaves", id);
        if id % 2 == 0 {
            Sock::new(c).close();
        } else {
            Sock::new(c).rst();
        }
    }
}
fn judge(cx: &Cx) {
    let feeds = cx.feeds.borrow();
    let now = k().now;
    let mut users: BTreeMap<usize, usize> = BTreeMap::new();
    for m in cx.seen.borrow().iter() {
        let err = m.error.borrow().clone();
        match m.feed.get() {
            Some(fi) => {
                let f = &feeds[fi];
                if !cx.dedupe {
                    if let Some(o) = users.insert(fi, m.id) {
                        violate("operations-mixed", format!("subscribers {} and {} both got events of f{}", o, m.id, fi));
                    }
                }
                let how = *f.how.borrow();
                if m.ended.get() > 0 {
                    check!("ends-only-with-upstream", f.ended.get() > 0 && f.ended.get() <= m.ended.get(), "subscriber {} was ended ({}, {:?}) although f{} {}", m.id, m.how.borrow(), err, f.id, if f.ended.get() > 0 { "ended later" } else { "goes on" });
                    // errors without data just before the end may be those of an event lost to another subgraph's trouble
                    let lost = how == "complete" && err.is_some() && !cx.bad(m.asked.get(), m.ended.get()).is_empty();
                    check!("error-iff-failed", lost || err.is_some() == (how == "failed"), "subscriber {} was ended with {:?}, its upstream f{}: {}", m.id, err, f.id, how);
                } else if m.left.get() == 0 {
                    check!("ends-with-upstream", f.ended.get() == 0 || f.ended.get() + 15 * SEC > now, "f{} of subscriber {} ended ({}) {} ms ago, the subscriber is still waiting", f.id, m.id, how, (now - f.ended.get()) / MS);
                    check!("not-released-while-used", f.ended.get() > 0 || f.released.get() == 0, "f{} of subscriber {} was released, the subscriber is still there", f.id, m.id);
                }
                if m.left.get() == 0 {
                    let last = f.emitted.borrow().iter().enumerate().filter(|(_, e)| e.2.get() > 0 && (f.ended.get() == 0 || how == "complete")).map(|x| x.0).last();
                    check!("no-loss-at-end", m.last.get() >= last, "subscriber {} got events of f{} up to {:?}, the last one sent is {:?}", m.id, f.id, m.last.get(), last);
                }
            }
            None if m.left.get() == 0 => {
                if m.ended.get() > 0 {
                    let bad = cx.bad(m.asked.get(), m.ended.get());
                    // its upstream may have ended before it joined
                    let shared = cx.dedupe && feeds.iter().any(|f| f.ended.get() > 0 && f.ended.get() >= m.asked.get() && f.who == m.who && (*f.how.borrow() == "failed") == err.is_some());
                    check!("error-iff-failed", !bad.is_empty() || shared, "subscriber {} was ended ({}, {:?}) without any event although nothing failed", m.id, m.how.borrow(), err);
                } else if !(cx.dedupe && feeds.iter().any(|f| f.who == m.who && f.at < now && f.released.get() == 0 && f.ended.get() == 0)) {
                    // (it may have joined after the last event)
                    violate("left-hanging", format!("subscriber {} got neither an event nor an end in {} ms", m.id, (now - m.asked.get()) / MS));
                }
            }
            None => {}
        }
    }
}
async fn upstream(cx: Rc<Cx>, s: usize, sock: Sock, rg: Rc<RefCell<Rng>>) {
    let mut sock = sock;
    while let Ok(req) = sock.http_request().await {
        if req.headers.get("upgrade").is_some() {
            ws(cx, s, sock, req, rg).await;
            return;
        }
        let up = match parse_up(s, sock.c, &req) {
            Ok(u) => Rc::new(u),
            Err(e) => violate("bad-upstream-request", format!("subgraph {} got {}", s, e)),
        };
        let d = rdelay(&mut rg.borrow_mut());
        k().probe("fetches over http");
        set_who(&who_of(&up.headers));
        let (data, _) = match sub_answer(&cx.fed, &up) {
            Ok(x) => x,
            Err(e) => violate("bad-upstream-request", format!("subgraph {} cannot execute {:?}: {}", s, up.query, e)),
        };
        if up.query.trim_start().starts_with("subscription") {
            // not a WebSocket subgraph
            let f = Feed::new(&cx.feeds, &up, "");
            let mut g = stream(700 + f.id as u64);
            let mut fmt = rfmt(&mut g);
            while fmt.late() {
                fmt = rfmt(&mut g);
            }
            sock.write(fmt.head().as_bytes()).await;
            let b = fmt.start();
            if !b.is_empty() {
                put(&mut sock, &fmt, &mut g, &b).await;
            }
            let w = f.clone();
            let c = sock.c;
            k().spawn("feed watch", async move {
                Sock::new(c).gone().await;
                w.let_go();
            });
            let ev = f.event(&cx.fed, "");
            let b = fmt.next(&ev);
            if put(&mut sock, &fmt, &mut g, &b).await {
                f.wrote();
            }
            f.gone.wait().await;
            sock.close();
            return;
        }
        if !answer(&mut sock, &up, data, &Act::fine(d)).await {
            return;
        }
    }
    sock.close();
}
async fn ws(cx: Rc<Cx>, s: usize, sock: Sock, req: Req, rg: Rc<RefCell<Rng>>) {
    let mut sock = sock;
    let c = sock.c;
    let me = Rc::new(Conn { sub: s, c, open: k().now, closed: Cell::new(0), who: Default::default(), ops: Cell::new(0), live: Default::default(), busy: Cell::new(0), idle: Cell::new(k().now), silent: Cell::new(false) });
    let no = cx.conns.borrow().len() as u64;
    let mut g = stream(800 + no);
    cx.conns.borrow_mut().push(me.clone());
    hist!("connection {} to s{}", c, s);
    k().probe("websocket connections");
    check!("stream-protocol", req.target == "/stream" && req.headers.get("sec-websocket-protocol").map(|p| p.contains("graphql-transport-ws")).unwrap_or(false), "a WebSocket request to {} of s{}", req.target, s);
    let bad = cx.faulty && !cx.calm.get();
    sleep(if g.chance(1, 2) { 0 } else { g.log_range(1 * MS, 2 * SEC) }).await;
    if bad && g.chance(1, 8) {
        cx.trouble(s);
        me.closed.set(k().now);
        if g.chance(1, 2) {
            k().fault("upgrade-refused");
            sock.respond(*g.pick(&[400u16, 403, 500, 200]), &[("content-type", "text/plain")], b"no").await;
            sock.close();
        } else {
            k().fault("upgrade-reset");
            sock.rst();
        }
        return;
    }
    let key = req.headers.get("sec-websocket-key").unwrap_or_default();
    let head = format!("HTTP/1.1 101 Switching Protocols\r\nupgrade: websocket\r\nconnection: Upgrade\r\nsec-websocket-accept: {}\r\nsec-websocket-protocol: graphql-transport-ws\r\n\r\n", ws_accept(&key));
    sock.write(head.as_bytes()).await;
    let mut ws = Ws::new(sock, false, stream(900 + no));
    ws.tx.frag.set(if g.chance(1, 3) { 6 } else { 0 });
    // what goes wrong with an established connection
    if bad && g.chance(1, 3) {
        let how = *g.pick(&["rst", "fin", "close", "garbage", "silent", "half"]);
        let t = g.log_range(1 * MS, 6 * SEC);
        let (cx, me, tx) = (cx.clone(), me.clone(), ws.tx.clone());
        k().spawn("breaker", async move {
            sleep(t).await;
            if me.closed.get() > 0 || cx.calm.get() {
                return;
            }
            hist!("connection {} breaks: {}", me.c, how);
            k().fault(match how {
                "rst" => "websocket-rst",
                "fin" => "websocket-fin",
                "close" => "websocket-close",
                "garbage" => "websocket-garbage",
                "half" => "websocket-half-frame",
                _ => "websocket-silent",
            });
            let tr = cx.trouble(me.sub);
            for (_, f) in me.live.borrow().iter() {
                f.over("failed");
            }
            me.silent.set(true);
            match how {
                "rst" => tx.rst(),
                "fin" => tx.fin(),
                "close" => {
                    tx.close(1011);
                    tx.fin();
                }
                "garbage" => tx.text("{\"type\":\"nex"),
                "half" => {
                    tx.bytes(vec![0x81, 60, b'{', b'"']);
                    tx.fin();
                }
                _ => {}
            }
            for _ in 0..60 {
                tr.to.set(k().now);
                if me.closed.get() > 0 {
                    return;
                }
                sleep(1 * SEC).await;
            }
            violate("dead-connection-kept", format!("connection {} to s{} is dead ({}) for 60 s, the router still holds it", me.c, me.sub, how));
        });
    }
    ws.pong = false;
    let mut init = false;
    let mut payload = J::Null;
    loop {
        match ws.read().await {
            // a silent peer does not even answer pings
            Ok(Wf::Ping(p)) => {
                if !me.silent.get() {
                    ws.tx.raw(true, 10, &p);
                }
            }
            Ok(Wf::Text(_)) if me.silent.get() => {}
            Ok(Wf::Text(t)) => {
                hist!("ws subgraph {} conn {} got {}", s, c, short(&t));
                let j = match J::parse(t.as_bytes()) {
                    Ok(j) => j,
                    Err(e) => violate("bad-upstream-request", format!("no JSON over websocket: {}", e)),
                };
                match j.get("type").and_then(|t| t.str()).unwrap_or("") {
                    "connection_init" => {
                        check!("one-init", !init, "connection_init twice");
                        init = true;
                        payload = j.get("payload").cloned().unwrap_or(J::Null);
                        *me.who.borrow_mut() = payload.get("x-who").and_then(|x| x.str()).unwrap_or("").to_string();
                        sleep(if g.chance(1, 2) { 0 } else { g.log_range(1 * MS, 2 * SEC) }).await;
                        if bad && g.chance(1, 8) {
                            let tr = cx.trouble(s);
                            match g.below(4) {
                                0 => {
                                    k().fault("no-ack");
                                    let me = me.clone();
                                    k().spawn("no ack", async move {
                                        for _ in 0..60 {
                                            tr.to.set(k().now);
                                            if me.closed.get() > 0 {
                                                return;
                                            }
                                            sleep(1 * SEC).await;
                                        }
                                        violate("dead-connection-kept", format!("connection {} to s{} was never acknowledged, the router holds it for 60 s", me.c, me.sub));
                                    });
                                    continue;
                                }
                                1 => {
                                    k().fault("early-next");
                                    ws.tx.json(&obj! {"type" => J::s("next"), "id" => J::s("1"), "payload" => obj!{"data" => J::Null}});
                                }
                                2 => {
                                    k().fault("init-forbidden");
                                    ws.tx.close(4403);
                                    ws.tx.fin();
                                }
                                _ => {
                                    k().fault("init-garbage");
                                    ws.tx.text("what");
                                }
                            }
                            me.silent.set(true);
                            continue;
                        }
                        ws.tx.json(&obj! {"type" => J::s("connection_ack")});
                    }
                    "ping" => ws.tx.json(&obj! {"type" => J::s("pong")}),
                    "pong" => {}
                    "subscribe" => {
                        check!("acknowledged-first", init, "subscribe before connection_init");
                        let id = j.get("id").and_then(|x| x.str()).unwrap_or("").to_string();
                        let p = j.get("payload").cloned().unwrap_or(J::Null);
                        let mut up = match parse_up(s, c, &Req { method: "WS".into(), target: req.target.clone(), headers: req.headers.clone(), body: p.to_string().into_bytes(), at: k().now, seq: 0 }) {
                            Ok(u) => u,
                            Err(e) => violate("bad-upstream-request", format!("{}: {}", e, t)),
                        };
                        if let J::Obj(m) = &payload {
                            up.headers.0.extend(m.iter().filter_map(|(k, v)| v.str().map(|s| (k.to_string(), s.as_bytes().to_vec()))));
                        }
                        check!("operation-id-unused", !me.live.borrow().contains_key(&id), "operation id {} is used twice on connection {}", id, c);
                        me.ops.set(me.ops.get() + 1);
                        check!("not-shared", cx.reuse || me.ops.get() == 1, "connection {} carries a second operation although connections are not reused", c);
                        let f = Feed::new(&cx.feeds, &up, &id);
                        me.live.borrow_mut().insert(id.clone(), f.clone());
                        me.busy.set(me.busy.get() + 1);
                        let (tx, cx, me) = (ws.tx.clone(), cx.clone(), me.clone());
                        let d = rdelay(&mut rg.borrow_mut());
                        k().spawn("ws operation", async move {
                            sleep(d).await;
                            if up.query.trim_start().starts_with("subscription") {
                                feed(&cx, &me, &f, &tx).await;
                            } else {
                                k().probe("fetches over websocket");
                                single(&cx, &me, &f, &tx, &up).await;
                            }
                            me.live.borrow_mut().remove(&f.opid);
                            me.busy.set(me.busy.get() - 1);
                            me.idle.set(k().now);
                        });
                    }
                    "complete" => {
                        let id = j.get("id").and_then(|x| x.str()).unwrap_or("").to_string();
                        if let Some(f) = me.live.borrow_mut().remove(&id) {
                            f.let_go();
                        }
                    }
                    _ => violate("bad-upstream-request", format!("unknown websocket message {}", t)),
                }
            }
            Ok(Wf::Close(..)) | Err(_) => {
                hist!("connection {} to s{} ends", c, s);
                me.closed.set(k().now);
                for (_, f) in me.live.borrow().iter() {
                    f.let_go();
                }
                ws.tx.fin();
                return;
            }
            Ok(_) => {}
        }
    }
}
/// A query or mutation over a WebSocket.
async fn single(cx: &Cx, me: &Conn, f: &Feed, tx: &WsTx, up: &Up) {
    let mut g = stream(700 + f.id as u64);
    if f.released.get() > 0 || me.silent.get() {
        f.over("failed");
        return;
    }
    set_who(&f.who);
    let (data, _) = match sub_answer(&cx.fed, up) {
        Ok(x) => x,
        Err(e) => violate("bad-upstream-request", format!("subgraph {} cannot execute {:?}: {}", f.sub, up.query, e)),
    };
    f.over("complete");
    tx.json(&obj! {"type" => J::s("next"), "id" => J::s(&f.opid), "payload" => obj!{"data" => data}});
    if g.chance(1, 3) {
        sleep(g.log_range(1 * MS, 1 * SEC)).await;
    }
    if f.released.get() == 0 && !me.silent.get() {
        tx.json(&obj! {"type" => J::s("complete"), "id" => J::s(&f.opid)});
    }
}
async fn feed(cx: &Cx, me: &Conn, f: &Rc<Feed>, tx: &WsTx) {
    let mut g = stream(700 + f.id as u64);
    let big = *g.pick(&[50usize, 3000, 30000]);
    for _ in 0..(1 + g.below(4)) {
        for _ in 0..(1 + g.below(4)) {
            if f.released.get() > 0 || me.silent.get() {
                f.over("failed");
                return;
            }
            let jk = junk(&mut g, big);
            let ev = f.event(&cx.fed, &jk);
            tx.json(&obj! {"type" => J::s("next"), "id" => J::s(&f.opid), "payload" => ev});
            f.wrote();
            if g.chance(1, 12) {
                // for nobody
                k().fault("message-for-unknown-id");
                let m = match g.below(3) {
                    0 => obj! {"type" => J::s("next"), "id" => J::s("99999"), "payload" => obj!{"data" => J::Null}},
                    1 => obj! {"type" => J::s("error"), "id" => J::s("99999"), "payload" => J::Arr(vec![obj!{"message" => J::s("not yours")}])},
                    _ => obj! {"type" => J::s("complete"), "id" => J::s("99999")},
                };
                tx.json(&m);
            }
        }
        sleep(50 * MS + g.log_range(1 * MS, 2 * SEC)).await;
    }
    if f.released.get() > 0 || me.silent.get() {
        f.over("failed");
        return;
    }
    match g.below(4) {
        0 => {
            f.over("complete");
            tx.json(&obj! {"type" => J::s("complete"), "id" => J::s(&f.opid)});
        }
        1 if cx.faulty => {
            k().fault("operation-error");
            f.over("failed");
            tx.json(&obj! {"type" => J::s("error"), "id" => J::s(&f.opid), "payload" => J::Arr(vec![obj!{"message" => J::s("boom")}])});
        }
        _ => {
            f.gone.wait().await;
        }
    }
}
