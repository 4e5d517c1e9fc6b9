//! P11: the client WebSocket endpoint follows graphql-transport-ws.
use crate::common::*;
use crate::fed::*;
use crate::gen::*;
use crate::json::J;
use crate::kernel::*;
use crate::net::*;
use crate::rng::*;
use crate::run::*;
use crate::stream::*;
use crate::world::*;
use crate::{check, hist, obj};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, VecDeque};
use std::rc::Rc;

/// One upstream request of a use.
struct Flight {
    start: u64,
    /// when its answer is due
    due: u64,
    over: Cell<u64>,
    aborted: Cell<bool>,
}
/// One operation a client sent.
struct Use {
    key: String,
    id: String,
    kind: &'static str,
    op: GenOp,
    slow: u64,
    /// may be executed
    allowed: bool,
    sent: u64,
    nexts: Cell<u64>,
    end: Cell<u64>,
    how: RefCell<String>,
    /// the client completed it, or its connection is over
    dropped: Cell<u64>,
    seen: Rc<Seen>,
    flights: RefCell<Vec<Rc<Flight>>>,
}
type Uses = Rc<RefCell<BTreeMap<String, Rc<Use>>>>;
struct Conn {
    n: usize,
    init: Cell<u64>,
    ack: Cell<u64>,
    pings: Cell<u64>,
    pongs: Cell<u64>,
    /// per id the uses whose messages may still come, in order
    cur: RefCell<BTreeMap<String, VecDeque<Rc<Use>>>>,
    /// (the number of the ping that follows the client's complete, the use)
    fences: RefCell<VecDeque<(u64, Rc<Use>)>>,
    uses: RefCell<Vec<Rc<Use>>>,
    /// codes, earliest, latest
    due: RefCell<Option<(Vec<u16>, u64, u64)>>,
    closed: Cell<u64>,
    code: Cell<u16>,
    gone: Cell<u64>,
    /// the client ended it
    left: Cell<u64>,
    news: Flag,
}
impl Conn {
    /// From here on nothing of this connection may be executed.
    fn over(&self) {
        for u in self.uses.borrow().iter() {
            if u.dropped.get() == 0 {
                u.dropped.set(k().now);
            }
        }
    }
}

pub fn setup(kk: &mut Kernel) {
    let mut g = stream(1);
    let cfg = GenCfg { subscription: true, requires: false, iface: false, union: false, who: true, ..GenCfg::default() };
    let mut fed0 = gen_fed(&mut g, &cfg);
    add_notes(&mut fed0);
    let fed = Rc::new(fed0);
    let src = *g.pick(&["operation", "both"]);
    let yaml = format!("headers:\n  all:\n    request:\n      - propagate:\n          named: x-who\n      - propagate:\n          named: x-use\nsubscriptions:\n  enabled: true\n  broadcast_capacity: 64\nwebsocket:\n  enabled: true\n  path: /ws\n  headers:\n    source: {}\ntraffic_shaping:\n  all:\n    request_timeout: 30s\n    dedupe_enabled: false\n  router:\n    request_timeout: 60s\n    dedupe:\n      enabled: false\n", src);
    files(kk, &fed.sdl(), 1 + g.below(2), &yaml);
    dns_subs(kk, &fed);
    let uses: Uses = Default::default();
    let feeds: Feeds = Default::default();
    for s in 0..fed.subs.len() {
        let mut gg = stream(100 + s as u64);
        let net = rnet(&mut gg);
        let rg = Rc::new(RefCell::new(gg));
        let (fed, feeds, uses) = (fed.clone(), feeds.clone(), uses.clone());
        serve((sub_ip(s), 80), "subgraph", net, move |sock| upstream(fed.clone(), feeds.clone(), uses.clone(), s, sock, rg.clone()));
    }
    let subs: Vec<GenOp> = (0..2u64).map(|i| noted(&fed, QGen::new(stream(200 + i), &fed).op("subscription", 1 + stream(300 + i).below(4) as i64))).collect();
    let queries: Vec<GenOp> = (0..2u64).map(|i| QGen::new(stream(220 + i), &fed).op("query", 1 + stream(320 + i).below(5) as i64)).collect();
    r().sample = subs[0].text.clone();
    let ncon = 1 + g.usize(3);
    kk.spawn("main", async move {
        ready().await;
        let wg = Wg::new(ncon);
        let conns: Rc<RefCell<Vec<Rc<Conn>>>> = Default::default();
        for n in 0..ncon {
            let (wg, fed, feeds, uses, subs, queries, conns) = (wg.clone(), fed.clone(), feeds.clone(), uses.clone(), subs.clone(), queries.clone(), conns.clone());
            k().spawn("ws client", async move {
                client(n, fed, feeds, uses, subs, queries, conns).await;
                wg.done();
            });
        }
        wg.wait().await;
        sleep(45 * SEC).await;
        for c in conns.borrow().iter() {
            judge(c, &feeds);
        }
        done();
    });
}
fn use_of(h: &Headers, uses: &Uses) -> Option<Rc<Use>> {
    let key = h.get("x-use")?;
    uses.borrow().get(&key).cloned()
}
async fn upstream(fed: Rc<Fed>, feeds: Feeds, uses: Uses, s: usize, sock: Sock, rg: Rc<RefCell<Rng>>) {
    let mut sock = sock;
    while let Ok(req) = sock.http_request().await {
        let up = match parse_up(s, sock.c, &req) {
            Ok(u) => u,
            Err(e) => violate("bad-upstream-request", format!("subgraph {} got {}", s, e)),
        };
        let u = match use_of(&up.headers, &uses) {
            Some(u) => u,
            None => violate("header-of-operation", format!("an upstream request without the headers of its operation: {}", up.query)),
        };
        hist!("subgraph {} request of {}: {}", s, u.key, short(&up.query));
        check!("nothing-executed-unacknowledged", u.allowed, "{} was sent on a connection that was not acknowledged or already at fault, yet subgraph {} got {}", u.key, s, up.query);
        if u.dropped.get() > 0 {
            check!("no-work-after-complete", u.dropped.get() + 2 * SEC > k().now, "{} was over {} ms ago, yet subgraph {} now got {}", u.key, (k().now - u.dropped.get()) / MS, s, up.query);
        }
        let f = Rc::new(Flight { start: k().now, due: 0, over: Cell::new(0), aborted: Cell::new(false) });
        let delay = if u.flights.borrow().is_empty() { u.slow } else { 0 } + rdelay(&mut rg.borrow_mut());
        let f = Rc::new(Flight { due: k().now + delay, ..Rc::try_unwrap(f).ok().unwrap() });
        u.flights.borrow_mut().push(f.clone());
        let is_sub = up.query.trim_start().starts_with("subscription");
        let c = sock.c;
        let mut gone = false;
        if delay > 0 {
            gone = until(k().now + delay, async move { Sock::new(c).gone().await }).await.is_some();
        }
        f.over.set(k().now);
        if gone {
            f.aborted.set(true);
            hist!("subgraph {} request of {} was aborted", s, u.key);
            k().probe("upstream work released early");
            sock.close();
            return;
        }
        if is_sub {
            let fd = Feed::new(&feeds, &up, "");
            let mut g = stream(700 + fd.id as u64);
            let fmt = rfmt(&mut g);
            let w = fd.clone();
            k().spawn("feed watch", async move {
                Sock::new(c).gone().await;
                w.let_go();
            });
            let mut g = g;
            sock.write(fmt.head().as_bytes()).await;
            let st = fmt.start();
            if !st.is_empty() {
                put(&mut sock, &fmt, &mut g, &st).await;
            }
            let n = g.below(6);
            for _ in 0..n {
                if g.chance(2, 3) {
                    sleep(g.log_range(1 * MS, 3 * SEC)).await;
                }
                if sock.peer_gone() {
                    break;
                }
                let jk = junk(&mut g, 200);
                let ev = fd.event(&fed, &jk);
                let b = fmt.next(&ev);
                if !put(&mut sock, &fmt, &mut g, &b).await {
                    break;
                }
            }
            if fmt.late() {
                let b = fmt.beat();
                put(&mut sock, &fmt, &mut g, &b).await;
            }
            match g.below(4) {
                0 | 1 if u.op.text.len() % 2 == 0 || g.chance(1, 2) => {
                    sleep(g.log_range(1 * MS, 2 * SEC)).await;
                    fd.over("complete");
                    let b = fmt.end();
                    put(&mut sock, &fmt, &mut g, &b).await;
                    if fmt.chunked {
                        // the connection serves further requests
                        sock.write(b"0\r\n\r\n").await;
                        continue;
                    }
                    sock.close();
                }
                2 => {
                    k().fault("upstream-stream-reset");
                    fd.over("failed");
                    sock.rst();
                }
                _ => {
                    fd.gone.wait().await;
                    sock.close();
                }
            }
            return;
        }
        set_who(&who_of(&up.headers));
        let (data, _) = match sub_answer(&fed, &up) {
            Ok(x) => x,
            Err(e) => violate("bad-upstream-request", format!("subgraph {} cannot execute {:?}: {}", s, up.query, e)),
        };
        let up = Rc::new(up);
        if !answer(&mut sock, &up, data, &Act::fine(0)).await {
            return;
        }
    }
    sock.close();
}
async fn client(n: usize, fed: Rc<Fed>, feeds: Feeds, uses: Uses, subs: Vec<GenOp>, queries: Vec<GenOp>, conns: Rc<RefCell<Vec<Rc<Conn>>>>) {
    let mut g = stream(500 + n as u64);
    let me = Rc::new(Conn {
        n,
        init: Cell::new(0),
        ack: Cell::new(0),
        pings: Cell::new(0),
        pongs: Cell::new(0),
        cur: Default::default(),
        fences: Default::default(),
        uses: Default::default(),
        due: Default::default(),
        closed: Cell::new(0),
        code: Cell::new(0),
        gone: Cell::new(0),
        left: Cell::new(0),
        news: Flag::new(),
    });
    if g.chance(1, 2) {
        sleep(g.log_range(1 * MS, 3 * SEC)).await;
    }
    let s = match Sock::connect(ROUTER, rnet(&mut g)) {
        Some(s) => s,
        None => violate("no-connection", "connection refused"),
    };
    let proto = match g.below(12) {
        0 => None,
        1 => Some("graphql-ws"),
        2 => Some("chat, graphql-transport-ws"),
        _ => Some("graphql-transport-ws"),
    };
    let ws = match ws_open(s, "/ws", proto, &[], stream(900 + n as u64)).await {
        Ok(w) => w,
        Err(e) => violate("no-connection", format!("websocket refused: {:?}", e)),
    };
    conns.borrow_mut().push(me.clone());
    let open = k().now;
    let tx = ws.tx.clone();
    if g.chance(1, 4) {
        tx.frag.set(4);
    }
    // what the client does wrong at the end, if anything
    let bad_proto = proto.is_none() || proto == Some("graphql-ws");
    let mut offence = if bad_proto {
        "protocol"
    } else {
        *g.pick(&["", "", "", "fin", "rst", "close", "fin", "rst", "close", "json", "type", "noid", "nopayload", "binary", "utf8", "init", "double", "silent", "noinit", "early-subscribe", "early-complete"])
    };
    let stubborn = g.chance(1, 2);
    if item(&format!("client {} ends otherwise than just staying", n)).is_none() && !bad_proto {
        offence = "";
    }
    item_desc(format!("client {}: {} {}", n, if offence == "" { "stays" } else { offence }, if stubborn { "(ignores the close)" } else { "" }));
    let mut ws = ws;
    ws.pong = offence != "silent";
    if offence == "silent" {
        // pings between the fragments would count as a sign of life
        tx.frag.set(0);
    }
    {
        let (me, fed, feeds, tx) = (me.clone(), fed.clone(), feeds.clone(), tx.clone());
        k().spawn("ws reader", async move {
            read(me, ws, fed, feeds, tx, stubborn).await;
        });
    }
    let silent_due = (vec![1002], open + 8 * SEC, open + 22 * SEC);
    if offence == "silent" {
        *me.due.borrow_mut() = Some(silent_due.clone());
    }
    let fault = |codes: &[u16]| {
        let was = me.due.borrow().clone();
        if offence != "silent" || was.is_none() {
            *me.due.borrow_mut() = Some((codes.to_vec(), k().now, k().now + 3 * SEC));
        }
        me.over();
    };
    let mut seq = 0u64;
    // sends an operation
    let mut send = |g: &mut Rng, me: &Rc<Conn>, id: &str, allowed: bool, long: bool| -> Rc<Use> {
        let key = format!("c{}u{}", n, seq);
        seq += 1;
        let kind = if long { *g.pick(&["query", "sub"]) } else { *g.pick(&["query", "query", "sub", "sub", "sub", "invalid"]) };
        let op = match kind {
            "query" => g.pick(&queries).clone(),
            "sub" => g.pick(&subs).clone(),
            _ => GenOp::from_text("{ nosuchfield__x }", J::Null),
        };
        let slow = if long { 8 * SEC } else if g.chance(1, 3) { g.log_range(100 * MS, 8 * SEC) } else { 0 };
        let who = if g.chance(1, 2) { "a" } else { "b" };
        let u = Rc::new(Use {
            seen: Seen::new(n * 100 + seq as usize, &op, who, Via::Ws),
            key: key.clone(),
            id: id.to_string(),
            kind,
            op,
            slow,
            allowed,
            sent: k().now,
            nexts: Cell::new(0),
            end: Cell::new(0),
            how: Default::default(),
            dropped: Cell::new(0),
            flights: Default::default(),
        });
        uses.borrow_mut().insert(key.clone(), u.clone());
        me.uses.borrow_mut().push(u.clone());
        let mut body = J::parse(u.op.body().as_bytes()).unwrap();
        if let J::Obj(m) = &mut body {
            m.retain(|(k, _)| k != "extensions");
            m.push(("extensions".into(), obj! {"headers" => obj!{"x-use" => J::s(&key), "x-who" => J::s(who)}}));
        }
        if allowed {
            me.cur.borrow_mut().entry(id.to_string()).or_default().push_back(u.clone());
        }
        hist!("client {} subscribes {} ({}{}) as {}", n, key, kind, if slow > 0 { format!(", {} ms", slow / MS) } else { String::new() }, id);
        tx.json(&obj! {"type" => J::s("subscribe"), "id" => J::s(id), "payload" => body});
        u
    };
    let ping = |me: &Rc<Conn>| {
        me.pings.set(me.pings.get() + 1);
        tx.json(&obj! {"type" => J::s("ping")});
    };
    let init = || tx.json(&obj! {"type" => J::s("connection_init"), "payload" => obj!{"x-use" => J::s("nobody"), "x-who" => J::s("nobody")}});
    // the handshake
    if g.chance(1, 4) {
        ping(&me);
    }
    let mut go = true;
    match offence {
        "protocol" => {
            fault(&[4406]);
            *me.due.borrow_mut() = Some((vec![4406], open, open + 3 * SEC));
            go = false;
            if g.chance(1, 2) {
                init();
                send(&mut g, &me, "a", false, false);
            }
        }
        "noinit" => {
            *me.due.borrow_mut() = Some((vec![4408], open + 8 * SEC, open + 13 * SEC));
            go = false;
        }
        "early-subscribe" => {
            fault(&[4401]);
            send(&mut g, &me, "a", false, false);
            go = false;
            if g.chance(1, 2) {
                init();
                send(&mut g, &me, "b", false, false);
            }
        }
        "early-complete" => {
            fault(&[4401]);
            tx.json(&obj! {"type" => J::s("complete"), "id" => J::s("a")});
            go = false;
        }
        _ => {
            if g.chance(1, 3) {
                sleep(g.log_range(1 * MS, 8 * SEC)).await;
            }
            me.init.set(k().now);
            init();
            if g.chance(2, 3) {
                let end = k().now + 3 * SEC;
                while me.ack.get() == 0 && k().now < end {
                    sleep(1 * MS).await;
                }
                check!("acknowledged", me.ack.get() > 0, "connection {} is not acknowledged 3 s after its connection_init", n);
            }
        }
    }
    let ids = ["a", "b", "c", "d"];
    if go {
        for _ in 0..g.below(9) {
            if me.closed.get() > 0 || me.gone.get() > 0 {
                break;
            }
            if g.chance(1, 2) {
                sleep(g.log_range(1 * MS, 4 * SEC)).await;
            }
            if me.closed.get() > 0 || me.gone.get() > 0 {
                break;
            }
            let id = *g.pick(&ids);
            let last = me.cur.borrow().get(id).and_then(|q| q.back().cloned());
            match last {
                // in use: complete it, perhaps use the id again at once
                Some(u) if u.end.get() == 0 && u.dropped.get() == 0 => {
                    if g.chance(1, 3) {
                        continue;
                    }
                    hist!("client {} completes {}", n, u.key);
                    u.dropped.set(k().now);
                    tx.json(&obj! {"type" => J::s("complete"), "id" => J::s(id)});
                    ping(&me);
                    me.fences.borrow_mut().push_back((me.pings.get(), u.clone()));
                    k().probe("operations completed by the client");
                    if g.chance(1, 2) {
                        send(&mut g, &me, id, true, false);
                    }
                }
                _ => {
                    send(&mut g, &me, id, true, false);
                }
            }
            if g.chance(1, 6) {
                tx.json(&obj! {"type" => J::s("complete"), "id" => J::s("never-used")});
            }
            if g.chance(1, 8) {
                ping(&me);
            }
        }
        if g.chance(1, 2) {
            sleep(g.log_range(1 * MS, 10 * SEC)).await;
        }
        if me.closed.get() == 0 && me.gone.get() == 0 {
            let any = uses.borrow().values().any(|u| u.end.get() == 0 && u.dropped.get() == 0);
            match offence {
                "json" => {
                    fault(&[4400]);
                    tx.text(*g.pick(&["{", "", "[]", "null", "{\"type\": 3}", "not json"]));
                }
                "type" => {
                    fault(&[4400]);
                    tx.text(*g.pick(&["{\"type\":\"next\",\"id\":\"a\"}", "{\"type\":\"connection_ack\"}", "{\"type\":\"start\",\"id\":\"1\",\"payload\":{\"query\":\"{__typename}\"}}", "{\"id\":\"a\"}"]));
                }
                "noid" => {
                    fault(&[4400]);
                    tx.text(*g.pick(&["{\"type\":\"subscribe\",\"payload\":{\"query\":\"{__typename}\"}}", "{\"type\":\"complete\"}"]));
                }
                "nopayload" => {
                    fault(&[4400]);
                    tx.text("{\"type\":\"subscribe\",\"id\":\"zz\"}");
                }
                "binary" => {
                    fault(&[1003]);
                    tx.raw(true, 2, b"{\"type\":\"ping\"}");
                }
                "utf8" => {
                    fault(&[1003, 1007]);
                    tx.raw(true, 1, b"{\"type\":\"\xff\xfe\"}");
                }
                "init" => {
                    fault(&[4429]);
                    init();
                }
                "double" => {
                    // surely still running: its upstream takes 8 s to answer
                    let u = send(&mut g, &me, "dd", true, true);
                    let _ = u;
                    if g.chance(1, 2) {
                        sleep(g.log_range(1 * MS, 2 * SEC)).await;
                    }
                    fault(&[4409]);
                    send(&mut g, &me, "dd", false, false);
                }
                "fin" => {
                    me.left.set(k().now);
                    me.over();
                    tx.fin();
                }
                "rst" => {
                    me.left.set(k().now);
                    me.over();
                    tx.rst();
                }
                "close" => {
                    me.left.set(k().now);
                    me.over();
                    tx.close(1000);
                }
                _ => {}
            }
            if any && offence != "" {
                k().probe("connections ended with operations running");
            }
            if me.due.borrow().is_some() && offence != "silent" {
                k().probe("misbehaving clients");
                if g.chance(1, 2) {
                    // whatever follows is not served
                    send(&mut g, &me, "after", false, false);
                }
            }
        }
    }
    // a client that ignores the close goes on as if nothing had happened
    if stubborn && me.due.borrow().is_some() {
        let end = k().now + 25 * SEC;
        while me.closed.get() == 0 && me.gone.get() == 0 && k().now < end {
            sleep(20 * MS).await;
        }
        me.over();
        for _ in 0..if me.closed.get() > 0 { g.below(4) } else { 0 } {
            sleep(g.log_range(1 * MS, 3 * SEC)).await;
            if me.gone.get() > 0 {
                break;
            }
            send(&mut g, &me, "late", false, false);
            k().probe("operations sent after the close");
        }
    }
}
async fn read(me: Rc<Conn>, ws: Ws, fed: Rc<Fed>, feeds: Feeds, tx: WsTx, stubborn: bool) {
    let mut ws = ws;
    let n = me.n;
    loop {
        let m = ws.read().await;
        match m {
            Err(e) => {
                hist!("client {}: connection over: {:?}", n, e);
                me.gone.set(k().now);
                check!("no-cut", me.closed.get() > 0 || me.left.get() > 0, "the connection of client {} was cut without a close frame: {:?}", n, e);
                me.over();
                tx.fin();
                return;
            }
            Ok(Wf::Close(code, why)) => {
                hist!("client {} got close {} {}", n, code, why);
                check!("closed-once", me.closed.get() == 0, "client {} got a second close frame {}", n, code);
                me.closed.set(k().now);
                me.code.set(code);
                if me.left.get() == 0 {
                    let due = me.due.borrow().clone();
                    match due {
                        None => violate("no-spurious-close", format!("client {} did nothing wrong, yet its connection is closed with {} {}", n, code, why)),
                        Some((codes, from, _)) => {
                            check!("close-code", codes.contains(&code), "client {} expects to be closed with {:?}, the code is {} {}", n, codes, code, why);
                            check!("not-closed-early", k().now >= from, "client {} was closed with {} at {} ms, {} ms too early", n, code, k().now / MS, (from - k().now) / MS);
                        }
                    }
                    nontrivial();
                }
                me.over();
                if !stubborn {
                    tx.close(code);
                }
            }
            Ok(Wf::Ping(_)) | Ok(Wf::Pong) => {}
            Ok(Wf::Other(o)) => violate("websocket-framing", format!("client {} got opcode {}", n, o)),
            Ok(Wf::Text(t)) => {
                hist!("client {} got {}", n, short(&t));
                check!("nothing-after-close", me.closed.get() == 0, "client {} got {} after the close frame", n, short(&t));
                message(&me, &t, &fed, &feeds);
                me.news.set();
            }
        }
    }
}
fn message(me: &Rc<Conn>, t: &str, fed: &Rc<Fed>, feeds: &Feeds) {
    let n = me.n;
    let j = match J::parse(t.as_bytes()) {
        Ok(j) => j,
        Err(e) => violate("malformed-message", format!("client {} got {}: {}", n, short(t), e)),
    };
    let ty = j.get("type").and_then(|t| t.str()).unwrap_or("").to_string();
    match ty.as_str() {
        "connection_ack" => {
            check!("acknowledged-once", me.ack.get() == 0 && me.init.get() > 0, "client {} got a connection_ack it did not ask for (again)", n);
            me.ack.set(k().now);
            return;
        }
        "pong" => {
            me.pongs.set(me.pongs.get() + 1);
            check!("pong-per-ping", me.pongs.get() <= me.pings.get(), "client {} got pong {} for {} pings", n, me.pongs.get(), me.pings.get());
            // everything before this ping is done: completed operations are silent from here on
            loop {
                let (p, u) = match me.fences.borrow().front() {
                    Some((p, u)) => (*p, u.clone()),
                    None => break,
                };
                if p > me.pongs.get() {
                    break;
                }
                me.fences.borrow_mut().pop_front();
                if let Some(q) = me.cur.borrow_mut().get_mut(&u.id) {
                    if q.front().map(|f| f.key == u.key).unwrap_or(false) {
                        q.pop_front();
                    }
                }
            }
            return;
        }
        "ping" => {
            return;
        }
        _ => {}
    }
    check!("acknowledged-first", me.ack.get() > 0, "client {} got {} before the connection_ack", n, short(t));
    let id = match j.get("id").and_then(|x| x.str()) {
        Some(i) => i.to_string(),
        None => violate("malformed-message", format!("client {} got {}", n, short(t))),
    };
    let front = me.cur.borrow().get(&id).and_then(|q| q.front().cloned());
    let u = match front {
        Some(u) => u,
        None => violate("nothing-after-terminal", format!("client {} got {} although nothing runs under this id", n, short(t))),
    };
    match ty.as_str() {
        "next" => {
            u.nexts.set(u.nexts.get() + 1);
            let p = match j.get("payload") {
                Some(p) => p.clone(),
                None => violate("malformed-message", format!("client {} got {}", n, short(t))),
            };
            match u.kind {
                "sub" => {
                    u.seen.take(fed, feeds, &p);
                    if let Some(f) = u.seen.feed.get() {
                        let f = feeds.borrow()[f].clone();
                        check!("own-events-only", f.headers.get("x-use").as_deref() == Some(&u.key), "{} got an event of {:?}", u.key, f.headers.get("x-use"));
                    }
                }
                "query" => {
                    check!("one-result", u.nexts.get() == 1, "query {} got {} results", u.key, u.nexts.get());
                    check!("no-errors", p.get("errors").is_none(), "healthy subgraphs, yet query {} answered {}", u.key, short(&p.to_string()));
                    set_who(&u.seen.who);
                    let got = p.get("data").cloned().unwrap_or(J::Null);
                    if let Some(d) = fed.judge(&got, &u.op.doc, u.op.opname.as_deref(), &u.op.vars) {
                        violate("wrong-answer", format!("{} ({}): {}", u.key, u.op.body(), short(&d)));
                    }
                    nontrivial();
                }
                _ => violate("invalid-not-executed", format!("the invalid operation {} got {}", u.key, short(t))),
            }
        }
        "error" | "complete" => {
            u.end.set(k().now);
            *u.how.borrow_mut() = ty.clone();
            me.cur.borrow_mut().get_mut(&id).unwrap().pop_front();
            if ty == "error" {
                let good = match j.get("payload") {
                    Some(J::Arr(a)) => !a.is_empty() && a.iter().all(|e| e.get("message").and_then(|m| m.str()).is_some()),
                    _ => false,
                };
                check!("error-payload", good, "client {} got the error {}", n, short(t));
            }
            match u.kind {
                "query" => check!("query-completes", ty == "complete" && u.nexts.get() == 1, "query {} ended with {} after {} results", u.key, short(t), u.nexts.get()),
                "invalid" => check!("invalid-is-error", ty == "error", "the invalid operation {} ended with {}", u.key, short(t)),
                _ => {
                    let f = feeds.borrow().iter().find(|f| f.headers.get("x-use").as_deref() == Some(&u.key)).cloned();
                    match f {
                        Some(f) => {
                            check!("ends-only-with-upstream", f.ended.get() > 0, "{} was ended with {} although its upstream goes on", u.key, short(t));
                            if *f.how.borrow() == "failed" {
                                check!("failure-reported", ty == "error" || u.seen.error.borrow().is_some(), "the upstream of {} failed, it was ended with {}", u.key, short(t));
                            }
                        }
                        None => violate("ends-only-with-upstream", format!("{} was ended with {} before it had an upstream", u.key, short(t))),
                    }
                    k().probe("subscriptions ended by their upstream");
                }
            }
        }
        _ => violate("malformed-message", format!("client {} got {}", n, short(t))),
    }
}
fn judge(c: &Rc<Conn>, feeds: &Feeds) {
    let now = k().now;
    let n = c.n;
    if let Some((codes, _, to)) = c.due.borrow().clone() {
        check!("closed-in-time", c.closed.get() > 0 && c.closed.get() <= to || c.gone.get() > 0 && c.closed.get() == 0, "client {} had to be closed with {:?} by {} ms, {}", n, codes, to / MS, if c.closed.get() == 0 { "it was not".to_string() } else { format!("it was at {} ms", c.closed.get() / MS) });
    }
    if c.closed.get() > 0 || c.left.get() > 0 {
        let at = c.closed.get().max(c.left.get());
        check!("connection-ends", c.gone.get() > 0 && c.gone.get() < at + 15 * SEC, "the WebSocket of client {} was closed (close frame {}, client left {}), yet the connection {}", n, c.closed.get() / MS, c.left.get() / MS, if c.gone.get() == 0 { format!("is still open {} s later", (now - at) / SEC) } else { format!("ended only {} s later", (c.gone.get() - at) / SEC) });
    }
    let alive = c.gone.get() == 0 && c.closed.get() == 0;
    if alive {
        check!("every-ping-answered", c.pongs.get() == c.pings.get(), "client {} sent {} pings, got {} pongs", n, c.pings.get(), c.pongs.get());
        if c.init.get() > 0 {
            check!("acknowledged", c.ack.get() > 0, "client {} was never acknowledged", n);
        }
    }
    for u in c.uses.borrow().iter() {
        let f = feeds.borrow().iter().find(|f| f.headers.get("x-use").as_deref() == Some(&u.key)).cloned();
        if u.allowed && alive && u.dropped.get() == 0 {
            let due = match u.kind {
                "sub" => f.as_ref().map(|f| f.ended.get() > 0).unwrap_or(false),
                _ => true,
            };
            if due {
                check!("terminal-message", u.end.get() > 0, "{} ({}) sent at {} ms has got no terminal message by {} ms", u.key, u.kind, u.sent / MS, now / MS);
            }
            if u.kind == "sub" {
                check!("operation-started", f.is_some(), "{} sent at {} ms never reached its subgraph", u.key, u.sent / MS);
            }
        }
        let d = u.dropped.get();
        if d > 0 {
            for x in u.flights.borrow().iter() {
                if x.start < d && x.due > d + 4 * SEC && (x.over.get() == 0 || x.over.get() > d) {
                    check!("work-released", x.aborted.get() && x.over.get() < d + 4 * SEC, "{} was over at {} ms, its upstream request, answered at {} ms, was not given up", u.key, d / MS, x.over.get() / MS);
                }
            }
            if let Some(f) = &f {
                if f.ended.get() == 0 || f.ended.get() > d + 6 * SEC {
                    check!("upstream-released", f.released.get() > 0 && f.released.get() < d.max(f.at) + 6 * SEC, "{} was over at {} ms, its upstream subscription f{} {}", u.key, d / MS, f.id, if f.released.get() == 0 { "is still held".to_string() } else { format!("was held until {} ms", f.released.get() / MS) });
                }
            }
        }
    }
    ok("connections-judged");
}
