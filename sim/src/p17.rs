//! P17: the limit of long-lived clients is exact, its slots always return.
use crate::common::*;
use crate::fed::*;
use crate::gen::*;
use crate::json::J;
use crate::kernel::*;
use crate::net::*;
use crate::rng::*;
use crate::run::*;
use crate::stream::*;
use crate::world::*;
use crate::{check, hist, obj};
use std::cell::{Cell, RefCell};
use std::rc::Rc;

/// One client that wants a slot.
struct Cl {
    n: usize,
    what: String,
    sent: u64,
    /// answered; 0: not yet
    at: Cell<u64>,
    admitted: Cell<bool>,
    /// it got something to hold
    held: Cell<bool>,
    /// it no longer uses its slot since
    over: Cell<u64>,
    /// how long the router may take to notice
    grace: Cell<u64>,
}
type Cls = Rc<RefCell<Vec<Rc<Cl>>>>;

pub fn setup(kk: &mut Kernel) {
    let mut g = stream(1);
    let cfg = GenCfg { subs: (2, 2), entities: (2, 3), subscription: true, requires: false, iface: false, union: false, who: true, ..GenCfg::default() };
    let mut fed0 = gen_fed(&mut g, &cfg);
    add_notes(&mut fed0);
    let fed = Rc::new(fed0);
    let max = 1 + g.usize(3);
    let dedupe = g.chance(1, 2);
    let reload = g.chance(1, 4);
    let yaml = format!("headers:\n  all:\n    request:\n      - propagate:\n          named: x-who\nsubscriptions:\n  enabled: true\nwebsocket:\n  enabled: true\n  path: /ws\ntraffic_shaping:\n  all:\n    request_timeout: 5s\n  router:\n    max_long_lived_clients: {}\n    request_timeout: 20s\n    dedupe:\n      enabled: {}\n", max, dedupe);
    let workers = 1 + g.below(3);
    if reload {
        files_poll(kk, &fed.sdl(), workers, 500, &yaml);
    } else {
        files(kk, &fed.sdl(), workers, &yaml);
    }
    dns_subs(kk, &fed);
    let feeds: Feeds = Default::default();
    let quiet = Rc::new(Cell::new(false));
    for s in 0..fed.subs.len() {
        let mut gg = stream(100 + s as u64);
        let net = rnet(&mut gg);
        let rg = Rc::new(RefCell::new(gg));
        let (fed, feeds, quiet) = (fed.clone(), feeds.clone(), quiet.clone());
        serve((sub_ip(s), 80), "subgraph", net, move |sock| upstream(fed.clone(), feeds.clone(), s, sock, rg.clone(), quiet.clone()));
    }
    let subs: Vec<GenOp> = (0..2u64).map(|i| noted(&fed, QGen::new(stream(200 + i), &fed).op("subscription", 1 + stream(300 + i).below(3) as i64))).collect();
    let query = QGen::new(stream(220), &fed).op("query", 3);
    r().sample = subs[0].text.clone();
    let n = 2 + g.usize(9);
    let reload_at = if reload { Some(g.log_range(100 * MS, 6 * SEC)) } else { None };
    kk.spawn("main", async move {
        ready().await;
        if let Some(t) = reload_at {
            let fed = fed.clone();
            k().spawn("publisher", async move {
                sleep(t).await;
                k().fs_write("/sim/sg.graphql", format!("# version 2\n{}\n", fed.sdl().replace("type Query", "type Zz @join__type(graph: S0) {\n  zz: Int\n}\n\ntype Query")).into_bytes());
                k().fault("supergraph-reload");
            });
        }
        let cls: Cls = Default::default();
        let wg = Wg::new(n + 1);
        for i in 0..n {
            let (wg, cls, subs, fed) = (wg.clone(), cls.clone(), subs.clone(), fed.clone());
            let it = item(&format!("client {}", i)).is_some();
            k().spawn("client", async move {
                let mut g = stream(500 + i as u64);
                if it {
                    sleep(if g.chance(1, 3) { 0 } else { g.log_range(1 * MS, 12 * SEC) }).await;
                    client(i, g, &cls, &subs, &fed, max).await;
                }
                wg.done();
            });
        }
        {
            // ordinary requests are never counted, whatever they accept
            let (wg, fed, query) = (wg.clone(), fed.clone(), query.clone());
            k().spawn("ordinary client", async move {
                let mut g = stream(450);
                for _ in 0..3 {
                    sleep(g.log_range(10 * MS, 5 * SEC)).await;
                    ordinary(&fed, &query, &mut g).await;
                }
                wg.done();
            });
        }
        wg.wait().await;
        for me in cls.borrow().iter().filter(|c| c.held.get()) {
            // those who hold a slot during the whole exchange and beyond it
            let sure: Vec<String> = cls.borrow().iter().filter(|o| o.n != me.n && o.held.get() && o.at.get() <= me.sent && o.over.get() > me.at.get() + 3 * SEC).map(|o| o.n.to_string()).collect();
            check!("limit-holds", sure.len() < max, "client {} ({}) is admitted at {:.3} although {} hold a slot until at least 3 s later, the limit is {}", me.n, me.what, me.at.get() as f64 / 1e9, sure.join(", "), max);
            if sure.len() + 1 == max {
                k().probe("admitted to the last slot");
            }
        }
        quiet.set(true);
        sleep(60 * SEC).await;
        // everyone is gone: exactly `max` fit in again, however they come
        let mut g = stream(400);
        let late: Cls = Default::default();
        let hold = Rc::new(RefCell::new(vec![]));
        let mut inn = 0;
        let wg = Wg::new(max);
        let together = g.chance(1, 2);
        for i in 0..max {
            let (wg, subs, late, hold) = (wg.clone(), subs.clone(), late.clone(), hold.clone());
            let mut gg = stream(420 + i as u64);
            let f = async move {
                let (c, s) = enter(1000 + i, &mut gg, &late, &subs, true).await;
                if let Some(s) = s {
                    hold.borrow_mut().push(s);
                }
                check!("slots-return", c.admitted.get(), "all clients are gone for 60 s, yet client {} of {} allowed was refused ({})", i + 1, max, c.what);
                wg.done();
            };
            if together {
                k().spawn("late client", f);
            } else {
                f.await;
            }
            inn += 1;
        }
        within(20 * SEC, "admitting", async move { wg.wait().await }).await;
        sleep(100 * MS).await;
        let (c, s) = enter(2000, &mut g, &late, &subs, true).await;
        check!("limit-holds", !c.admitted.get(), "{} clients are admitted, the limit is {}, yet another one ({}) is let in", inn, max, c.what);
        drop(s);
        ordinary(&fed, &query, &mut g).await;
        let _ = inn;
        nontrivial();
        done();
    });
}
async fn ordinary(fed: &Rc<Fed>, query: &GenOp, g: &mut Rng) {
    let acc = *g.pick(&["application/json", "text/event-stream, application/json", "multipart/mixed;subscriptionSpec=\"1.0\", application/json"]);
    let mut s = match Sock::connect(ROUTER, rnet(g)) {
        Some(s) => s,
        None => violate("no-response", "connection refused"),
    };
    set_who("a");
    let hd = vec![h("content-type", "application/json"), h("accept", acc), h("x-who", "a")];
    s.write(&request_bytes("POST", "/graphql", "router.test", &hd, Some(query.body().as_bytes()))).await;
    let r = must(within(30 * SEC, "ordinary request", async move { s.http_response().await }).await, "ordinary request");
    check!("ordinary-never-refused", r.status == 200, "an ordinary request is answered {} {}", r.status, String::from_utf8_lossy(&r.body));
    let _ = fed;
}
enum Held {
    Http(HttpSub),
    Ws(Ws),
}
/// Asks for a slot.
async fn enter(n: usize, g: &mut Rng, cls: &Cls, subs: &[GenOp], simple: bool) -> (Rc<Cl>, Option<Held>) {
    let kind = match g.below(if simple { 4 } else { 7 }) {
        0 | 1 => "ws",
        2 => "sse",
        3 => "multi",
        4 => "ws-no-protocol",
        5 => "ws-bad-handshake",
        _ => "invalid-subscription",
    };
    let s = match Sock::connect(ROUTER, rnet(g)) {
        Some(s) => s,
        None => violate("no-response", "connection refused"),
    };
    let c = Rc::new(Cl { n, what: kind.into(), sent: k().now, at: Cell::new(0), admitted: Cell::new(false), held: Cell::new(false), over: Cell::new(0), grace: Cell::new(4 * SEC) });
    cls.borrow_mut().push(c.clone());
    hist!("client {} asks: {}", n, kind);
    let hd = vec![h("x-who", "a")];
    let answer = match kind {
        "ws" | "ws-no-protocol" => match ws_open(s, "/ws", if kind == "ws" { Some("graphql-transport-ws") } else { None }, &[], stream(900 + n as u64)).await {
            Ok(w) => Ok(Held::Ws(w)),
            Err(e) => Err(e),
        },
        "ws-bad-handshake" => {
            let mut s = s;
            let hd = vec![h("connection", "Upgrade"), h("upgrade", "websocket"), h("sec-websocket-version", "12")];
            s.write(&request_bytes("GET", "/ws", "router.test", &hd, None)).await;
            Err(s.http_response().await.map_err(|e| e))
        }
        _ => {
            let mut op = g.pick(subs).body();
            if kind == "invalid-subscription" {
                op = obj! {"query" => J::s("subscription { nosuch__field }")}.to_string();
            }
            match HttpSub::open(s, &op, if kind == "multi" { Via::Multi } else { Via::Sse }, &hd).await {
                Ok(x) => Ok(Held::Http(x)),
                Err(e) => Err(e),
            }
        }
    };
    c.at.set(k().now);
    match answer {
        Ok(h) => {
            c.admitted.set(true);
            c.held.set(kind != "invalid-subscription");
            hist!("client {} is admitted", n);
            (c, Some(h))
        }
        Err(Ok(r)) => {
            hist!("client {} is answered {} {}", n, r.status, String::from_utf8_lossy(&r.body));
            c.over.set(k().now);
            if r.status == 503 && String::from_utf8_lossy(&r.body).contains("long-lived") {
                check!("retry-later", r.headers.get("retry-after").is_some(), "a refusal without retry-after");
            } else {
                // admitted, but failed for another reason
                c.admitted.set(true);
                k().probe("slots of failed requests");
                check!("refused-with-503", kind != "ws" && kind != "ws-no-protocol", "client {} ({}) is answered {} {}", n, kind, r.status, String::from_utf8_lossy(&r.body));
            }
            (c, None)
        }
        Err(Err(e)) => violate("no-response", format!("client {} ({}) got no response: {:?}", n, kind, e)),
    }
}
async fn client(n: usize, g: Rng, cls: &Cls, subs: &[GenOp], fed: &Rc<Fed>, max: usize) {
    let mut g = g;
    let (me, held) = enter(n, &mut g, cls, subs, false).await;
    let now = k().now;
    // against everybody else
    {
        let v = cls.borrow();
        if me.admitted.get() {
            k().probe("admitted");
        } else {
            let may = v.iter().filter(|o| o.n != me.n && (o.at.get() == 0 || o.admitted.get()) && (o.over.get() == 0 || o.over.get() + o.grace.get() >= me.sent)).count();
            check!("no-refusal-below-limit", may >= max, "client {} ({}) is refused although at most {} others hold a slot, the limit is {}", n, me.what, may, max);
            k().probe("refused");
            nontrivial();
        }
    }
    let _ = (now, fed);
    let held = match held {
        Some(h) => h,
        None => return,
    };
    let stay = if g.chance(1, 6) { 40 * SEC } else { g.log_range(1 * MS, 10 * SEC) };
    let how = g.below(5);
    match held {
        Held::Http(mut s) => {
            let c = s.s.c;
            let me2 = me.clone();
            let end = until(k().now + stay, async move {
                loop {
                    match s.next().await {
                        SEv::Next(_) | SEv::Beat => {}
                        SEv::Complete | SEv::Cut(_) => {
                            me2.over.set(k().now);
                            s.close();
                            return;
                        }
                    }
                }
            })
            .await;
            if end.is_none() {
                leave(&me, c, how);
            } else {
                k().probe("streams ended by the router");
            }
        }
        Held::Ws(ws) => {
            let c = ws.s.c;
            let tx = ws.tx.clone();
            let mut ws = ws;
            let silent = g.chance(1, 8);
            ws.pong = !silent;
            if me.what == "ws" && g.chance(4, 5) {
                tx.json(&obj! {"type" => J::s("connection_init"), "payload" => obj!{"headers" => obj!{"x-who" => J::s("a")}}});
                for i in 0..g.below(3) {
                    tx.json(&obj! {"type" => J::s("subscribe"), "id" => J::s(&format!("o{}", i)), "payload" => J::parse(g.pick(subs).body().as_bytes()).unwrap()});
                }
                if g.chance(1, 6) {
                    tx.text("nonsense");
                }
            }
            let me2 = me.clone();
            let tx2 = tx.clone();
            let end = until(k().now + stay, async move {
                loop {
                    match ws.read().await {
                        Ok(Wf::Close(c, _)) => {
                            // the slot counts until the connection is gone
                            hist!("client {} got close {}", me2.n, c);
                            tx2.close(c);
                            me2.grace.set(8 * SEC);
                            me2.over.set(k().now);
                        }
                        Ok(_) => {}
                        Err(_) => {
                            me2.over.set(k().now);
                            tx2.fin();
                            return;
                        }
                    }
                }
            })
            .await;
            if end.is_none() {
                if how == 4 {
                    // vanishes: the heartbeat finds out
                    k().fault("client-vanishes");
                    hist!("client {} vanishes", n);
                    me.grace.set(30 * SEC);
                    me.over.set(k().now);
                    sleep(40 * SEC).await;
                    Sock::new(c).close();
                } else {
                    leave(&me, c, how);
                }
            } else {
                k().probe("connections ended by the router");
            }
        }
    }
}
fn leave(me: &Rc<Cl>, c: usize, how: u64) {
    hist!("client {} leaves", me.n);
    k().fault("client-leaves");
    if me.over.get() == 0 {
        me.over.set(k().now);
    }
    if how % 2 == 0 {
        Sock::new(c).close();
    } else {
        Sock::new(c).rst();
    }
}
async fn upstream(fed: Rc<Fed>, feeds: Feeds, s: usize, sock: Sock, rg: Rc<RefCell<Rng>>, quiet: Rc<Cell<bool>>) {
    let mut sock = sock;
    while let Ok(req) = sock.http_request().await {
        let up = match parse_up(s, sock.c, &req) {
            Ok(u) => u,
            Err(e) => violate("bad-upstream-request", format!("subgraph {} got {}", s, e)),
        };
        let d = rdelay(&mut rg.borrow_mut());
        sleep(d).await;
        if up.query.trim_start().starts_with("subscription") {
            let fd = Feed::new(&feeds, &up, "");
            let mut g = stream(700 + fd.id as u64);
            let fine = quiet.get();
            if !fine && g.chance(1, 5) {
                k().fault("upstream-refuses-subscription");
                let b = obj! {"errors" => J::Arr(vec![obj!{"message" => J::s("no")}])}.to_string();
                sock.respond(500, &[("content-type", "application/json")], b.as_bytes()).await;
                continue;
            }
            if !fine && g.chance(1, 8) {
                k().fault("upstream-stream-reset");
                sock.rst();
                return;
            }
            let fmt = rfmt(&mut g);
            let w = fd.clone();
            let c = sock.c;
            k().spawn("feed watch", async move {
                Sock::new(c).gone().await;
                w.let_go();
            });
            sock.write(fmt.head().as_bytes()).await;
            let st = fmt.start();
            if !st.is_empty() {
                put(&mut sock, &fmt, &mut g, &st).await;
            }
            for _ in 0..g.below(4) {
                sleep(g.log_range(1 * MS, 2 * SEC)).await;
                if sock.peer_gone() {
                    break;
                }
                let ev = fd.event(&fed, "");
                let b = fmt.next(&ev);
                if !put(&mut sock, &fmt, &mut g, &b).await {
                    break;
                }
            }
            match g.below(4) {
                0 if !fine => {
                    let b = fmt.end();
                    put(&mut sock, &fmt, &mut g, &b).await;
                    if fmt.chunked {
                        sock.write(b"0\r\n\r\n").await;
                        continue;
                    }
                    sock.close();
                }
                1 if !fine => {
                    k().fault("upstream-stream-reset");
                    sock.rst();
                }
                _ => {
                    fd.gone.wait().await;
                    sock.close();
                }
            }
            return;
        }
        set_who(&who_of(&up.headers));
        let (data, _) = match sub_answer(&fed, &up) {
            Ok(x) => x,
            Err(e) => violate("bad-upstream-request", format!("subgraph {} cannot execute {:?}: {}", s, up.query, e)),
        };
        let up = Rc::new(up);
        if !answer(&mut sock, &up, data, &Act::fine(0)).await {
            return;
        }
    }
    sock.close();
}
