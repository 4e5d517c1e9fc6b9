//! P10: subscribers get every event once, in order, then a proper end.
use crate::common::*;
use crate::fed::*;
use crate::gen::*;
use crate::gql;
use crate::json::J;
use crate::kernel::*;
use crate::net::*;
use crate::rng::*;
use crate::run::*;
use crate::stream::*;
use crate::world::*;
use crate::{check, hist, obj};
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::rc::Rc;

pub struct Script {
    pub bursts: u64,
    pub burst: u64,
    pub quiet: bool,
    pub end: &'static str,
    pub big: usize,
    /// more events at once than the buffers hold
    pub flood: bool,
}
pub const ENDS: [&str; 6] = ["complete", "fin", "rst", "cut-rst", "cut-fin", "garbage"];

pub fn setup(kk: &mut Kernel) {
    let mut g = stream(1);
    let cfg = GenCfg { subscription: true, requires: false, iface: false, union: false, who: true, ..GenCfg::default() };
    let mut fed0 = gen_fed(&mut g, &cfg);
    add_notes(&mut fed0);
    let fed = Rc::new(fed0);
    let n = fed.subs.len();
    let cap = *g.pick(&[2u64, 4, 32]);
    let buf = *g.pick(&[2u64, 8, 1024]);
    let dedupe = g.chance(1, 2);
    let ws_client = g.chance(1, 2);
    let mut yaml = format!("headers:\n  all:\n    request:\n      - propagate:\n          named: x-who\nsubscriptions:\n  enabled: true\n  broadcast_capacity: {}\n  subgraph_buffer_capacity: {}\n", cap, buf);
    // how each subgraph streams: 0 HTTP, 1 WebSocket
    let proto: Vec<u64> = (0..n).map(|_| if g.chance(1, 3) { 1 } else { 0 }).collect();
    if proto.iter().any(|p| *p == 1) {
        yaml += "  websocket:\n    subgraphs:\n";
        for s in 0..n {
            if proto[s] == 1 {
                yaml += &format!("      s{}:\n        path: /stream\n", s);
            }
        }
    }
    yaml += &format!("traffic_shaping:\n  all:\n    request_timeout: 5s\n  router:\n    request_timeout: 20s\n    dedupe:\n      enabled: {}\n", dedupe);
    if dedupe {
        yaml += "      headers:\n        include: [\"X-Who\"]\n";
    }
    if ws_client {
        yaml += "websocket:\n  enabled: true\n  path: /ws\n";
    }
    let workers = 1 + g.below(3);
    let reload = g.chance(1, 4);
    if reload {
        files_poll(kk, &fed.sdl(), workers, 500, &yaml);
    } else {
        files(kk, &fed.sdl(), workers, &yaml);
    }
    dns_subs(kk, &fed);
    let faulty = g.chance(1, 2) && item("upstream streams fail").is_some();
    let w: WRef = Default::default();
    let feeds: Feeds = Default::default();
    let seen: Rc<RefCell<Vec<Rc<Seen>>>> = Default::default();
    let over = Flag::new();
    for s in 0..n {
        let mut gg = stream(100 + s as u64);
        let net = rnet(&mut gg);
        let rg = Rc::new(RefCell::new(gg));
        let (w, fed, feeds, seen, over) = (w.clone(), fed.clone(), feeds.clone(), seen.clone(), over.clone());
        let lim = cap.min(buf);
        serve((sub_ip(s), 80), "subgraph", net, move |sock| {
            let (w, fed, feeds, seen, rg, over) = (w.clone(), fed.clone(), feeds.clone(), seen.clone(), rg.clone(), over.clone());
            async move {
                let mut sock = sock;
                // the first request decides what the connection is for
                let req = match sock.http_request().await {
                    Ok(q) => q,
                    Err(_) => {
                        sock.close();
                        return;
                    }
                };
                let rg2 = rg.clone();
                let script: Rc<dyn Fn(&Feed) -> (Script, Rng)> = Rc::new(move |f| {
                    let mut g = stream(700 + f.id as u64);
                    let quiet = g.chance(1, 5);
                    let end = if g.chance(1, 3) {
                        "never"
                    } else if faulty && g.chance(1, 2) {
                        *g.pick(&ENDS)
                    } else {
                        "complete"
                    };
                    let _ = &rg2;
                    let flood = g.chance(1, 5);
                    let burst = if flood { lim + 1 + g.below(4 * lim.min(20)) } else { 1 + g.below(lim) };
                    f.flood.set(flood);
                    (Script { bursts: if quiet { g.below(2) } else { 1 + g.below(5) }, burst, quiet, end, big: *g.pick(&[50usize, 3000, 30000]), flood }, g)
                });
                if req.headers.get("upgrade").is_some() {
                    check!("stream-protocol", proto_is_ws(&req), "a WebSocket request to {} of s{}", req.target, s);
                    ws_upstream(w, fed, feeds, seen, s, sock, req, script, over, rg).await;
                } else {
                    http_upstream(w, fed, feeds, seen, s, sock, req, script, over, rg).await;
                }
            }
        });
    }
    // subscribers
    let npool = 1 + g.below(2);
    let pool: Vec<GenOp> = (0..npool)
        .map(|i| {
            let size = 1 + stream(300 + i).below(6) as i64;
            noted(&fed, QGen::new(stream(200 + i), &fed).op("subscription", size))
        })
        .collect();
    r().sample = pool[0].text.clone();
    let whos = ["a", "b"];
    let mut plans: Vec<(GenOp, String, Via, u64, Option<u64>, bool)> = vec![];
    for i in 0..(1 + g.usize(5)) {
        if let Some(mut r) = item("subscriber") {
            let op = r.pick(&pool).clone();
            let who = if r.chance(2, 3) { whos[0] } else { whos[1] };
            let via = match r.below(if ws_client { 4 } else { 3 }) {
                0 => Via::Sse,
                1 => Via::Multi,
                2 => Via::Incr,
                _ => Via::Ws,
            };
            let d = if r.chance(1, 3) { 0 } else { r.log_range(1000, 3 * SEC) };
            let leave = if r.chance(1, 3) { Some(r.log_range(1 * MS, 8 * SEC)) } else { None };
            let slow = r.chance(1, 6);
            item_desc(format!("subscriber {} ({}) over {:?} after {} us{}{}: {}", i, who, via, d / 1000, leave.map(|q| format!(", leaves {} ms later", q / MS)).unwrap_or_default(), if slow { ", reads slowly" } else { "" }, op.body()));
            plans.push((op, who.into(), via, d, leave, slow));
        }
    }
    let reload_at = if reload && item("supergraph reload").is_some() { Some(g.log_range(100 * MS, 6 * SEC)) } else { None };
    kk.spawn("main", async move {
        ready().await;
        let reloaded = Rc::new(Cell::new((0u64, 0u64)));
        if let Some(t) = reload_at {
            let (fed, reloaded) = (fed.clone(), reloaded.clone());
            k().spawn("publisher", async move {
                sleep(t).await;
                hist!("a new supergraph is published");
                // a different document with the same meaning
                k().fs_write("/sim/sg.graphql", format!("# version 2\n{}\n", fed.sdl().replace("type Query", "type Zz @join__type(graph: S0) {\n  zz: Int\n}\n\ntype Query")).into_bytes());
                k().fault("supergraph-reload");
                reloaded.set((k().now, 0));
            });
        }
        let wg = Wg::new(plans.len());
        for (i, (op, who, via, d, leave, slow)) in plans.into_iter().enumerate() {
            let (wg, fed, feeds, seen, over) = (wg.clone(), fed.clone(), feeds.clone(), seen.clone(), over.clone());
            let reloaded = reloaded.clone();
            k().spawn("subscriber", async move {
                let mut g = stream(500 + i as u64);
                sleep(d).await;
                let net = rnet(&mut g);
                let me = Seen::new(i, &op, &who, via);
                seen.borrow_mut().push(me.clone());
                me.slow.set(slow);
                hist!("subscriber {} ({}) {:?} asks {}", i, who, via, op.body());
                let fut = subscriber(me.clone(), fed, feeds, net, g, over.clone(), slow);
                match leave {
                    Some(t) => {
                        if until(k().now + t, fut).await.is_none() {
                            // the future owned the connection: it closed on drop
                            me.left.set(k().now);
                            k().fault("subscriber-leaves");
                            hist!("subscriber {} left", i);
                            for c in me_conn(&me) {
                                let mut s = Sock::new(c);
                                if i % 2 == 0 {
                                    s.close();
                                } else {
                                    s.rst();
                                }
                            }
                        }
                    }
                    None => fut.await,
                }
                let _ = reloaded;
                wg.done();
            });
        }
        // all feeds with an end reach it within the time their scripts take; the rest stay open
        let t_end = k().now + 60 * SEC;
        let _ = until(t_end, wg.wait()).await;
        over.set();
        sleep(2 * SEC).await;
        judge(&fed, &feeds, &seen, reloaded.get().0, dedupe, cap.min(buf));
        // everyone leaves: everything is released
        for m in seen.borrow().iter() {
            if m.ended.get() == 0 && m.left.get() == 0 {
                m.left.set(k().now);
                for c in me_conn(m) {
                    Sock::new(c).close();
                }
            }
        }
        sleep(30 * SEC).await;
        for f in feeds.borrow().iter() {
            check!("released", f.ended.get() > 0 || f.released.get() > 0, "all subscribers are gone for 30 s, yet the subscription f{} to s{} is still held", f.id, f.sub);
        }
        done();
    });
}
/// Whether the supergraph is replaced in this run.
fn reloading() -> bool {
    k().probes.contains_key("supergraph-reload") || k().faults.contains_key("supergraph-reload")
}
fn proto_is_ws(r: &Req) -> bool {
    r.target == "/stream" && r.headers.get("sec-websocket-protocol").map(|p| p.contains("graphql-transport-ws")).unwrap_or(false)
}
fn me_conn(m: &Seen) -> Vec<usize> {
    m.conn.get().into_iter().collect()
}
/// One subscriber from opening to the end the router gives it.
pub async fn subscriber(me: Rc<Seen>, fed: Rc<Fed>, feeds: Feeds, net: Net, mut g: Rng, over: Flag, slow: bool) {
    let hd = vec![h("x-who", &me.who)];
    let s = match Sock::connect(ROUTER, net) {
        Some(s) => s,
        None => violate("no-stream", "connection refused"),
    };
    me.conn.set(Some(s.c));
    if me.via == Via::Ws {
        let mut ws = match ws_open(s, "/ws", Some("graphql-transport-ws"), &[], stream(900 + me.id as u64)).await {
            Ok(w) => w,
            Err(e) => violate("no-stream", format!("websocket refused: {:?}", e)),
        };
        ws.tx.json(&obj! {"type" => J::s("connection_init"), "payload" => obj!{"headers" => obj!{"x-who" => J::s(&me.who)}}});
        match ws.read().await {
            Ok(Wf::Text(t)) if t.contains("connection_ack") => {}
            x => violate("no-stream", format!("no connection_ack but {:?}", x)),
        }
        let body = J::parse(me.op.body().as_bytes()).unwrap();
        ws.tx.json(&obj! {"type" => J::s("subscribe"), "id" => J::s("op1"), "payload" => body});
        loop {
            if slow && g.chance(1, 3) {
                sleep(g.log_range(10 * MS, 3 * SEC)).await;
            }
            match ws.read().await {
                Ok(Wf::Text(t)) => {
                    let j = J::parse(t.as_bytes()).unwrap_or(J::Null);
                    let ty = j.get("type").and_then(|t| t.str()).unwrap_or("").to_string();
                    if me.head.get() == 0 {
                        me.head.set(k().now);
                    }
                    match ty.as_str() {
                        "next" => {
                            hist!("subscriber {} got {}", me.id, short(&t));
                            me.take(&fed, &feeds, j.get("payload").unwrap_or(&J::Null));
                        }
                        "error" => {
                            hist!("subscriber {} got {}", me.id, short(&t));
                            *me.error.borrow_mut() = Some(j.get("payload").map(|p| p.to_string()).unwrap_or_default());
                            me.ended.set(k().now);
                            *me.how.borrow_mut() = "error".into();
                            ws.tx.fin();
                            return;
                        }
                        "complete" => {
                            hist!("subscriber {} was completed", me.id);
                            me.ended.set(k().now);
                            *me.how.borrow_mut() = "complete".into();
                            ws.tx.fin();
                            return;
                        }
                        _ => violate("corrupt-event", format!("subscriber {} got {}", me.id, short(&t))),
                    }
                }
                _ if me.left.get() > 0 => return,
                // pongs stuck behind the unread events come too late
                Ok(Wf::Close(1002, _)) if slow => {
                    me.left.set(k().now);
                    ws.tx.fin();
                    return;
                }
                Err(_) if slow => {
                    me.left.set(k().now);
                    return;
                }
                Ok(x) => violate("no-proper-end", format!("subscriber {} got {:?}", me.id, x)),
                Err(e) => violate("no-proper-end", format!("the connection of subscriber {} ended: {:?}", me.id, e)),
            }
        }
    }
    let mut s = match HttpSub::open(s, &me.op.body(), me.via, &hd).await {
        Ok(s) => s,
        Err(Ok(r)) => {
            hist!("subscriber {} got no stream but {} {}", me.id, r.status, String::from_utf8_lossy(&r.body));
            me.ended.set(k().now);
            let j = body_json(&r);
            check!("no-refusal", reloading(), "subscriber {} is refused with {}: {:?}", me.id, r.status, errs(&j));
            *me.error.borrow_mut() = Some(errs(&j).join(" "));
            *me.how.borrow_mut() = "refused".into();
            return;
        }
        Err(Err(e)) => violate("no-stream", format!("subscriber {} got no response: {:?}", me.id, e)),
    };
    me.head.set(k().now);
    hist!("subscriber {} has its stream", me.id);
    loop {
        if slow && g.chance(1, 3) {
            sleep(g.log_range(10 * MS, 3 * SEC)).await;
        }
        match s.next().await {
            SEv::Next(j) => {
                hist!("subscriber {} got {}", me.id, short(&j.to_string()));
                me.take(&fed, &feeds, &j);
            }
            SEv::Beat => {
                hist!("subscriber {} got a heartbeat", me.id);
                k().probe("heartbeats");
            }
            SEv::Complete => {
                hist!("subscriber {} was completed", me.id);
                me.ended.set(k().now);
                *me.how.borrow_mut() = "complete".into();
                // nothing may follow
                match until(k().now + 5 * SEC, s.next()).await {
                    Some(SEv::Cut(_)) => {}
                    Some(x) => violate("nothing-after-end", format!("subscriber {} got {:?} after the end", me.id, x)),
                    None => violate("no-proper-end", format!("the response of subscriber {} does not end", me.id)),
                }
                s.close();
                return;
            }
            SEv::Cut(_) if me.left.get() > 0 => return,
            // a connection whose client does not read is given up at some point
            SEv::Cut(_) if slow => {
                me.left.set(k().now);
                return;
            }
            SEv::Cut(e) => violate("no-proper-end", format!("the stream of subscriber {} was cut: {:?}", me.id, e)),
        }
    }
}
/// Waits until every subscriber of feed `f` that reads has the events written so far, at most 3 s.
pub async fn settle(feeds: &Feeds, seen: &Rc<RefCell<Vec<Rc<Seen>>>>, f: &Feed) {
    let end = k().now + 3 * SEC;
    loop {
        sleep(20 * MS).await;
        let n = f.emitted.borrow().iter().filter(|e| e.2.get() > 0).count();
        let sent = f.emitted.borrow().iter().map(|e| e.2.get()).max().unwrap_or(0);
        let behind = seen.borrow().iter().any(|m| {
            if m.ended.get() > 0 || m.left.get() > 0 || m.slow.get() {
                return false;
            }
            match m.feed.get() {
                Some(x) => x == f.id && m.last.get().unwrap_or(0) + 1 < n,
                None => m.who == f.who && (m.head.get() == 0 || m.head.get() <= sent),
            }
        });
        if behind && k().now > end && n > 0 {
            f.flood.set(true);
        }
        if !behind && k().now > f.at + 300 * MS || k().now > end {
            // a slow reader alone may leave the feed ahead of everything
            let lag = seen.borrow().iter().any(|m| m.slow.get() && m.left.get() == 0 && m.ended.get() == 0 && m.who == f.who && (m.feed.get().is_none() || m.feed.get() == Some(f.id)) && m.last.get().map(|l| l + 1).unwrap_or(0) < n);
            if lag {
                f.flood.set(true);
            }
            return;
        }
    }
}
async fn http_upstream(w: WRef, fed: Rc<Fed>, feeds: Feeds, seen: Rc<RefCell<Vec<Rc<Seen>>>>, s: usize, sock: Sock, first: Req, script: Rc<dyn Fn(&Feed) -> (Script, Rng)>, over: Flag, rg: Rc<RefCell<Rng>>) {
    let mut sock = sock;
    let mut req = first;
    loop {
        let mut up = match parse_up(s, sock.c, &req) {
            Ok(u) => u,
            Err(e) => violate("bad-upstream-request", format!("subgraph {} got {}: {:?}", s, e, String::from_utf8_lossy(&req.body))),
        };
        let is_sub = up.query.trim_start().starts_with("subscription");
        if is_sub {
            let f = Feed::new(&feeds, &up, "");
            w.ups.borrow_mut().push(Rc::new(up));
            let (sc, mut g) = script(&f);
            let fmt = rfmt(&mut g);
            hist!("f{}: {:?} bursts {}x{} end {}", f.id, fmt, sc.bursts, sc.burst, sc.end);
            if g.chance(1, 2) {
                sleep(rdelay(&mut g)).await;
            }
            let gone = f.clone();
            let c = sock.c;
            k().spawn("feed watch", async move {
                Sock::new(c).gone().await;
                gone.let_go();
            });
            sock.write(fmt.head().as_bytes()).await;
            let st = fmt.start();
            if !st.is_empty() {
                put(&mut sock, &fmt, &mut g, &st).await;
            }
            for b in 0..sc.bursts {
                settle(&feeds, &seen, &f).await;
                if g.chance(1, 2) {
                    sleep(g.log_range(1 * MS, 2 * SEC)).await;
                }
                let nn = sc.burst;
                for x in 0..nn {
                    if sock.peer_gone() {
                        break;
                    }
                    let jk = junk(&mut g, sc.big);
                    let ev = f.event(&fed, &jk);
                    hist!("f{} emits #{} {}", f.id, f.emitted.borrow().len() - 1, short(&ev.to_string()));
                    let bytes = fmt.next(&ev);
                    let done = put(&mut sock, &fmt, &mut g, &bytes).await;
                    if done {
                        mark(&f, fmt.late());
                    }
                    let _ = x;
                }
                if fmt.late() || g.chance(1, 3) {
                    let bt = fmt.beat();
                    if put(&mut sock, &fmt, &mut g, &bt).await {
                        mark(&f, false);
                    }
                }
                let _ = b;
            }
            if !finish_http(&mut sock, &fmt, &mut g, &f, &fed, &feeds, &seen, &sc, &over).await {
                return;
            }
            req = match sock.http_request().await {
                Ok(q) => q,
                Err(_) => {
                    sock.close();
                    return;
                }
            };
            continue;
        }
        let (data, kind) = {
            set_who(&who_of(&up.headers));
            match sub_answer(&fed, &up) {
                Ok(x) => x,
                Err(e) => violate("bad-upstream-request", format!("subgraph {} cannot execute {:?}: {}", s, up.query, e)),
            }
        };
        up.kind = kind;
        up.fields = last_touched();
        let up = Rc::new(up);
        w.ups.borrow_mut().push(up.clone());
        hist!("subgraph {} request {} {}", s, up.query, up.vars.to_string());
        let act = {
            let mut g = rg.borrow_mut();
            Act::fine(rdelay(&mut g))
        };
        let more = answer(&mut sock, &up, data, &act).await;
        up.end.set(k().now);
        if !more {
            return;
        }
        req = match sock.http_request().await {
            Ok(q) => q,
            Err(_) => {
                sock.close();
                return;
            }
        };
    }
}
/// The events written are complete for the reader (all but the last if `late`).
fn mark(f: &Feed, late: bool) {
    let e = f.emitted.borrow();
    let n = e.len() - if late && !e.is_empty() { 1 } else { 0 };
    for x in e.iter().take(n) {
        if x.2.get() == 0 {
            x.2.set(k().now);
        }
    }
}
async fn finish_http(sock: &mut Sock, fmt: &Fmt, g: &mut Rng, f: &Rc<Feed>, fed: &Fed, feeds: &Feeds, seen: &Rc<RefCell<Vec<Rc<Seen>>>>, sc: &Script, over: &Flag) -> bool {
    settle(feeds, seen, f).await;
    if f.released.get() > 0 {
        sock.close();
        return false;
    }
    match sc.end {
        "never" => {
            f.gone.wait().await;
            sock.close();
        }
        "complete" => {
            f.over("complete");
            let b = fmt.end();
            put(sock, fmt, g, &b).await;
            let last = fmt.chunked && g.chance(2, 3);
            if last {
                sock.write(b"0\r\n\r\n").await;
            }
            if last {
                // the connection serves further requests
                return true;
            }
            if !fmt.chunked || g.chance(1, 2) {
                sock.close();
            } else {
                // the subgraph keeps its side open: the end marker ends the stream
                f.gone.wait().await;
                sock.close();
            }
        }
        how => {
            k().fault(match how {
                "fin" => "upstream-stream-closed",
                "rst" => "upstream-stream-reset",
                "garbage" => "upstream-stream-garbage",
                _ => "upstream-stream-cut",
            });
            f.over(match how {
                "fin" => "fin",
                "cut-fin" if !fmt.chunked => "fin",
                "garbage" => "garbage",
                _ => "failed",
            });
            match how {
                "garbage" => {
                    let b = String::from_utf8_lossy(&fmt.next(&obj! {"data" => J::s("@@")})).replace("\"@@\"", "{\"broken\": ");
                    put(sock, fmt, g, b.as_bytes()).await;
                    if fmt.late() {
                        let b = fmt.beat();
                        put(sock, fmt, g, &b).await;
                    }
                    f.gone.wait().await;
                }
                "cut-rst" | "cut-fin" => {
                    // in the middle of an event
                    let jk = junk(g, sc.big);
                    let ev = f.event(fed, &jk);
                    f.emitted.borrow_mut().pop();
                    let b = fmt.next(&ev);
                    let cut = 1 + g.usize(b.len() - 1);
                    put(sock, fmt, g, &b[..cut]).await;
                }
                _ => {}
            }
            if how.ends_with("rst") {
                sock.rst();
            } else {
                sock.close();
            }
        }
    }
    let _ = over;
    false
}
async fn ws_upstream(w: WRef, fed: Rc<Fed>, feeds: Feeds, seen: Rc<RefCell<Vec<Rc<Seen>>>>, s: usize, sock: Sock, req: Req, script: Rc<dyn Fn(&Feed) -> (Script, Rng)>, over: Flag, rg: Rc<RefCell<Rng>>) {
    let mut sock = sock;
    let key = req.headers.get("sec-websocket-key").unwrap_or_default();
    let head = format!("HTTP/1.1 101 Switching Protocols\r\nupgrade: websocket\r\nconnection: Upgrade\r\nsec-websocket-accept: {}\r\nsec-websocket-protocol: graphql-transport-ws\r\n\r\n", ws_accept(&key));
    sock.write(head.as_bytes()).await;
    let c = sock.c;
    let frag = if rg.borrow_mut().chance(1, 3) { 6 } else { 0 };
    let mut ws = Ws::new(sock, false, stream(800 + c as u64));
    ws.tx.frag.set(frag);
    let live: Rc<RefCell<BTreeMap<String, Rc<Feed>>>> = Default::default();
    let mut init = false;
    let mut payload = J::Null;
    loop {
        match ws.read().await {
            Ok(Wf::Text(t)) => {
                hist!("ws subgraph {} conn {} got {}", s, c, short(&t));
                let j = match J::parse(t.as_bytes()) {
                    Ok(j) => j,
                    Err(e) => violate("bad-upstream-request", format!("no JSON over websocket: {}", e)),
                };
                match j.get("type").and_then(|t| t.str()).unwrap_or("") {
                    "connection_init" => {
                        init = true;
                        payload = j.get("payload").cloned().unwrap_or(J::Null);
                        ws.tx.json(&obj! {"type" => J::s("connection_ack")});
                    }
                    "ping" => ws.tx.json(&obj! {"type" => J::s("pong")}),
                    "pong" => {}
                    "subscribe" => {
                        check!("acknowledged-first", init, "subscribe before connection_init");
                        let id = j.get("id").and_then(|x| x.str()).unwrap_or("").to_string();
                        let p = j.get("payload").cloned().unwrap_or(J::Null);
                        let mut up = match parse_up(s, c, &Req { method: "WS".into(), target: req.target.clone(), headers: req.headers.clone(), body: p.to_string().into_bytes(), at: k().now, seq: 0 }) {
                            Ok(u) => u,
                            Err(e) => violate("bad-upstream-request", format!("{}: {}", e, t)),
                        };
                        up.headers.0.extend(init_headers(&payload));
                        check!("operation-id-unused", !live.borrow().contains_key(&id), "operation id {} is used twice on one connection", id);
                        let f = Feed::new(&feeds, &up, &id);
                        w.ups.borrow_mut().push(Rc::new(up));
                        live.borrow_mut().insert(id.clone(), f.clone());
                        let (tx, fed, feeds, seen, script, live, over) = (ws.tx.clone(), fed.clone(), feeds.clone(), seen.clone(), script.clone(), live.clone(), over.clone());
                        k().spawn("ws feed", async move {
                            ws_feed(fed, feeds, seen, f, tx, script, live, over).await;
                        });
                    }
                    "complete" => {
                        let id = j.get("id").and_then(|x| x.str()).unwrap_or("").to_string();
                        if let Some(f) = live.borrow_mut().remove(&id) {
                            f.let_go();
                        }
                    }
                    _ => violate("bad-upstream-request", format!("unknown websocket message {}", t)),
                }
            }
            Ok(Wf::Close(..)) | Err(_) => {
                for (_, f) in live.borrow_mut().iter() {
                    f.let_go();
                }
                ws.tx.fin();
                return;
            }
            Ok(_) => {}
        }
    }
}
/// The headers the router forwards over a WebSocket: the payload of connection_init.
fn init_headers(p: &J) -> Vec<(String, Vec<u8>)> {
    match p {
        J::Obj(m) => m.iter().filter_map(|(k, v)| v.str().map(|s| (k.to_string(), s.as_bytes().to_vec()))).collect(),
        _ => vec![],
    }
}
async fn ws_feed(fed: Rc<Fed>, feeds: Feeds, seen: Rc<RefCell<Vec<Rc<Seen>>>>, f: Rc<Feed>, tx: WsTx, script: Rc<dyn Fn(&Feed) -> (Script, Rng)>, live: Rc<RefCell<BTreeMap<String, Rc<Feed>>>>, _over: Flag) {
    let (sc, mut g) = script(&f);
    hist!("f{} over websocket: bursts {}x{} end {}", f.id, sc.bursts, sc.burst, sc.end);
    for _ in 0..sc.bursts {
        settle(&feeds, &seen, &f).await;
        if g.chance(1, 2) {
            sleep(g.log_range(1 * MS, 2 * SEC)).await;
        }
        for _ in 0..sc.burst {
            if f.released.get() > 0 {
                return;
            }
            let jk = junk(&mut g, sc.big);
            let ev = f.event(&fed, &jk);
            tx.json(&obj! {"type" => J::s("next"), "id" => J::s(&f.opid), "payload" => ev});
            mark(&f, false);
        }
    }
    settle(&feeds, &seen, &f).await;
    if f.released.get() > 0 {
        return;
    }
    match sc.end {
        "never" => {}
        "complete" => {
            f.over("complete");
            live.borrow_mut().remove(&f.opid);
            tx.json(&obj! {"type" => J::s("complete"), "id" => J::s(&f.opid)});
        }
        "garbage" => {
            k().fault("upstream-stream-garbage");
            f.over("failed");
            live.borrow_mut().remove(&f.opid);
            tx.json(&obj! {"type" => J::s("error"), "id" => J::s(&f.opid), "payload" => J::Arr(vec![obj!{"message" => J::s("boom")}])});
        }
        how => {
            k().fault(if how.ends_with("rst") { "upstream-stream-reset" } else { "upstream-stream-closed" });
            for (_, x) in live.borrow_mut().iter() {
                x.over("failed");
            }
            f.over("failed");
            if how.ends_with("rst") {
                tx.rst();
            } else {
                if how == "fin" {
                    tx.close(1011);
                }
                tx.fin();
            }
        }
    }
}
/// The whole history.
fn judge(fed: &Fed, feeds: &Feeds, seen: &Rc<RefCell<Vec<Rc<Seen>>>>, reloaded: u64, dedupe: bool, lim: u64) {
    let _ = (fed, lim);
    let feeds = feeds.borrow();
    let now = k().now;
    for m in seen.borrow().iter() {
        // the end
        let err = m.error.borrow().clone();
        let reload_err = err.as_ref().map(|e| e.contains("SUBSCRIPTION_SCHEMA_RELOAD")).unwrap_or(false);
        if reload_err {
            check!("no-spurious-reload-error", reloaded > 0 && m.at.get().max(m.ended.get()) >= reloaded, "subscriber {} was ended with {} although nothing was reloaded", m.id, err.clone().unwrap());
        }
        if let Some(fi) = m.feed.get() {
            let f = &feeds[fi];
            let how = *f.how.borrow();
            if m.ended.get() > 0 {
                let by_feed = f.ended.get() > 0 && f.ended.get() <= m.ended.get();
                check!("ends-only-with-upstream", by_feed || reload_err, "subscriber {} was ended ({}) at {} us although its upstream f{} {} and nothing was reloaded ({:?})", m.id, m.how.borrow(), m.ended.get() / 1000, f.id, if f.ended.get() > 0 { "ended only later" } else { "goes on" }, err);
                if how == "failed" && !reload_err && f.ended.get() <= m.ended.get() {
                    check!("failure-reported", err.is_some(), "the upstream f{} of subscriber {} failed, the stream was ended without an error", f.id, m.id);
                    k().probe("failures reported");
                }
                if (how == "complete" || how == "") && !reload_err {
                    check!("no-error-without-failure", err.is_none(), "subscriber {} got the error {:?} although f{} {}", m.id, err, f.id, how);
                }
            } else if m.left.get() == 0 && !(m.slow.get() && m.at.get() + 15 * SEC > now) {
                check!("ends-with-upstream", f.ended.get() == 0 || f.ended.get() + 15 * SEC > now, "the upstream f{} of subscriber {} ended ({}) {} ms ago, the subscriber is still waiting", f.id, m.id, how, (now - f.ended.get()) / MS);
                check!("ends-with-reload", reloaded == 0 || m.head.get() == 0 || m.head.get() > reloaded || reloaded + 15 * SEC > now, "subscriber {} was not ended {} ms after the supergraph was replaced", m.id, (now - reloaded) / MS);
            }
            // no event is missed at the end: all written between joining and the end
            if !m.slow.get() && !f.flood.get() && m.left.get() == 0 && !reload_err {
                let em = f.emitted.borrow();
                let last = em.iter().enumerate().filter(|(_, e)| e.2.get() > 0).map(|x| x.0).last();
                check!("no-loss-at-end", m.last.get() >= last || f.released.get() > 0, "subscriber {} got events of f{} up to {:?}, the last one sent is {:?}", m.id, f.id, m.last.get(), last);
                if let Some(n) = em.iter().position(|e| e.2.get() > m.head.get()) {
                    check!("no-loss-at-start", m.first.get().unwrap() <= n, "subscriber {} has its stream since {} us, event {} of f{} was sent at {} us, yet the first event it got is {}", m.id, m.head.get() / 1000, n, f.id, em[n].2.get() / 1000, m.first.get().unwrap());
                }
                // the only subscriber its upstream was opened for gets everything
                let alone = seen.borrow().iter().filter(|o| o.feed.get() == Some(fi) || o.feed.get().is_none()).count() == 1;
                if alone || !dedupe {
                    check!("no-loss-from-start", m.first.get() == Some(0), "subscriber {} is the only one of f{}, the first event it got is {:?}", m.id, f.id, m.first.get());
                }
                k().probe("complete streams judged");
            }
        } else if m.ended.get() == 0 && m.left.get() == 0 && m.head.get() > 0 && !dedupe {
            // a stream without events: its upstream, if it can be told, sent none after it began
            let cand: Vec<&Rc<Feed>> = feeds.iter().filter(|f| f.at >= m.asked.get() && f.who == m.who && !seen.borrow().iter().any(|o| o.feed.get() == Some(f.id))).collect();
            let silent = cand.iter().any(|f| f.emitted.borrow().iter().all(|e| e.2.get() == 0) && (f.ended.get() == 0 || f.ended.get() + 15 * SEC > now));
            check!("events-arrive", silent, "subscriber {} waits without an event, no upstream is silent", m.id);
        }
    }
    // released when nobody listens
    for f in feeds.iter() {
        if f.ended.get() > 0 || f.released.get() > 0 {
            continue;
        }
        let s = seen.borrow();
        let users: Vec<&Rc<Seen>> = s.iter().filter(|m| m.feed.get() == Some(f.id)).collect();
        let unknown = s.iter().any(|m| m.feed.get().is_none() && m.ended.get() == 0 && m.left.get() == 0);
        if !unknown && users.iter().all(|m| m.left.get() > 0 || m.ended.get() > 0) {
            let last = s.iter().map(|m| m.left.get().max(m.ended.get())).max().unwrap_or(0);
            check!("released", last + 30 * SEC > now, "nobody listens to f{} since {} ms, it is still held", f.id, (now - last) / MS);
        }
    }
}
