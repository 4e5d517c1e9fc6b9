//! Streaming: subscribers over SSE, multipart and WebSocket; streaming subgraphs.
use crate::fed::*;
use crate::gen::*;
use crate::gql;
use crate::json::J;
use crate::kernel::*;
use crate::net::*;
use crate::rng::*;
use crate::run::*;
use crate::world::*;
use crate::{check, hist, obj};
use std::cell::{Cell, RefCell};
use std::collections::VecDeque;
use std::rc::Rc;

// ------------------------------------------------------------------ encodings
pub fn sha1(m: &[u8]) -> [u8; 20] {
    let mut h: [u32; 5] = [0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0];
    let mut b = m.to_vec();
    b.push(0x80);
    while b.len() % 64 != 56 {
        b.push(0);
    }
    b.extend(((m.len() as u64) * 8).to_be_bytes());
    for c in b.chunks(64) {
        let mut w = [0u32; 80];
        for i in 0..16 {
            w[i] = u32::from_be_bytes([c[4 * i], c[4 * i + 1], c[4 * i + 2], c[4 * i + 3]]);
        }
        for i in 16..80 {
            w[i] = (w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16]).rotate_left(1);
        }
        let (mut a, mut bb, mut cc, mut d, mut e) = (h[0], h[1], h[2], h[3], h[4]);
        for i in 0..80 {
            let (f, k) = match i / 20 {
                0 => ((bb & cc) | (!bb & d), 0x5A827999u32),
                1 => (bb ^ cc ^ d, 0x6ED9EBA1),
                2 => ((bb & cc) | (bb & d) | (cc & d), 0x8F1BBCDC),
                _ => (bb ^ cc ^ d, 0xCA62C1D6),
            };
            let t = a.rotate_left(5).wrapping_add(f).wrapping_add(e).wrapping_add(k).wrapping_add(w[i]);
            e = d;
            d = cc;
            cc = bb.rotate_left(30);
            bb = a;
            a = t;
        }
        for (x, y) in h.iter_mut().zip([a, bb, cc, d, e]) {
            *x = x.wrapping_add(y);
        }
    }
    let mut o = [0u8; 20];
    for i in 0..5 {
        o[4 * i..4 * i + 4].copy_from_slice(&h[i].to_be_bytes());
    }
    o
}
pub fn b64(m: &[u8]) -> String {
    const A: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut o = String::new();
    for c in m.chunks(3) {
        let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..4 {
            o.push(if i <= c.len() { A[(n >> (18 - 6 * i)) as usize & 63] as char } else { '=' });
        }
    }
    o
}
pub fn ws_accept(key: &str) -> String {
    b64(&sha1(format!("{}258EAFA5-E914-47DA-95CA-C5AB0DC85B11", key).as_bytes()))
}
pub fn ws_frame(fin: bool, op: u8, p: &[u8], mask: Option<[u8; 4]>) -> Vec<u8> {
    let mut b = vec![if fin { 0x80 } else { 0 } | op];
    let m = if mask.is_some() { 0x80 } else { 0 };
    if p.len() < 126 {
        b.push(m | p.len() as u8);
    } else if p.len() < 65536 {
        b.push(m | 126);
        b.extend((p.len() as u16).to_be_bytes());
    } else {
        b.push(m | 127);
        b.extend((p.len() as u64).to_be_bytes());
    }
    match mask {
        Some(k) => {
            b.extend(k);
            b.extend(p.iter().enumerate().map(|(i, c)| c ^ k[i % 4]));
        }
        None => b.extend(p),
    }
    b
}
#[derive(Clone, Debug, PartialEq)]
pub enum Wf {
    Text(String),
    Ping(Vec<u8>),
    Pong,
    Close(u16, String),
    Other(u8),
}
/// The sending half of a WebSocket connection; frames are written in order by one task.
#[derive(Clone)]
pub struct WsTx {
    pub c: usize,
    pub client: bool,
    g: Rc<RefCell<Rng>>,
    out: Chan<Vec<u8>>,
    /// chance (of 16) that a message is sent in fragments
    pub frag: Rc<Cell<u64>>,
}
impl WsTx {
    pub fn raw(&self, fin: bool, op: u8, p: &[u8]) {
        let m = if self.client { Some((self.g.borrow_mut().next() as u32).to_be_bytes()) } else { None };
        self.out.send(ws_frame(fin, op, p, m));
    }
    pub fn text(&self, t: &str) {
        let p = t.as_bytes();
        let frag = self.frag.get();
        if frag > 0 && p.len() > 1 && self.g.borrow_mut().chance(frag, 16) {
            k().probe("fragmented websocket messages");
            let n = 2 + self.g.borrow_mut().usize(2);
            let mut at = 0;
            for i in 0..n {
                let end = if i == n - 1 { p.len() } else { at + self.g.borrow_mut().usize(p.len() - at + 1) };
                self.raw(i == n - 1, if i == 0 { 1 } else { 0 }, &p[at..end]);
                if i < n - 1 && self.g.borrow_mut().chance(1, 4) {
                    self.raw(true, 9, b"mid");
                }
                at = end;
            }
            return;
        }
        self.raw(true, 1, p);
    }
    pub fn json(&self, j: &J) {
        hist!("{} conn {} sends {}", if self.client { "ws client" } else { "ws subgraph" }, self.c, short(&j.to_string()));
        self.text(&j.to_string());
    }
    pub fn close(&self, code: u16) {
        let p = if code == 0 { vec![] } else { code.to_be_bytes().to_vec() };
        self.raw(true, 8, &p);
    }
    /// Bytes as they are.
    pub fn bytes(&self, b: Vec<u8>) {
        self.out.send(b);
    }
    /// Ends the connection once everything queued is written.
    pub fn fin(&self) {
        self.out.close();
    }
    pub fn rst(&self) {
        self.out.close();
        while self.out.try_recv().is_some() {}
        Sock::new(self.c).rst();
    }
}
/// One endpoint of a WebSocket connection.
pub struct Ws {
    pub s: Sock,
    pub tx: WsTx,
    /// answers pings
    pub pong: bool,
    part: Vec<u8>,
}
impl Ws {
    pub fn new(s: Sock, client: bool, g: Rng) -> Ws {
        let tx = WsTx { c: s.c, client, g: Rc::new(RefCell::new(g)), out: Chan::new(), frag: Rc::new(Cell::new(0)) };
        let ch = tx.out.clone();
        let c = s.c;
        k().spawn("ws writer", async move {
            let mut s = Sock::new(c);
            while let Some(b) = ch.recv().await {
                if !s.write(&b).await {
                    break;
                }
            }
            if !k().conns[c].world_closed {
                s.close();
            }
        });
        Ws { s, tx, pong: true, part: vec![] }
    }
    /// The next message; answers pings when `pong`.
    pub async fn read(&mut self) -> Result<Wf, End> {
        loop {
            while self.s.buf.len() < 2 {
                self.s.fill().await?;
            }
            let (b0, b1) = (self.s.buf[0], self.s.buf[1]);
            let masked = b1 & 0x80 != 0;
            if masked == self.tx.client {
                violate("websocket-framing", format!("a frame with mask bit {} sent to a {}", masked, if self.tx.client { "client" } else { "server" }));
            }
            let mut hl = 2;
            let n = match b1 & 0x7f {
                126 => {
                    while self.s.buf.len() < 4 {
                        self.s.fill().await?;
                    }
                    hl = 4;
                    u16::from_be_bytes([self.s.buf[2], self.s.buf[3]]) as usize
                }
                127 => {
                    while self.s.buf.len() < 10 {
                        self.s.fill().await?;
                    }
                    hl = 10;
                    u64::from_be_bytes(self.s.buf[2..10].try_into().unwrap()) as usize
                }
                n => n as usize,
            };
            let ml = if masked { 4 } else { 0 };
            while self.s.buf.len() < hl + ml + n {
                self.s.fill().await?;
            }
            let f: Vec<u8> = self.s.buf.drain(..hl + ml + n).collect();
            let mut p = f[hl + ml..].to_vec();
            if masked {
                for (i, c) in p.iter_mut().enumerate() {
                    *c ^= f[hl + i % 4];
                }
            }
            let fin = b0 & 0x80 != 0;
            match b0 & 0xf {
                0 | 1 => {
                    self.part.extend(p);
                    if fin {
                        let m = std::mem::take(&mut self.part);
                        return match String::from_utf8(m) {
                            Ok(t) => Ok(Wf::Text(t)),
                            Err(_) => violate("websocket-framing", "a text message that is no UTF-8"),
                        };
                    }
                }
                8 => {
                    let code = if p.len() >= 2 { u16::from_be_bytes([p[0], p[1]]) } else { 1005 };
                    return Ok(Wf::Close(code, String::from_utf8_lossy(p.get(2..).unwrap_or(&[])).to_string()));
                }
                9 => {
                    if self.pong {
                        self.tx.raw(true, 10, &p);
                    } else {
                        return Ok(Wf::Ping(p));
                    }
                }
                10 => {}
                o => return Ok(Wf::Other(o)),
            }
        }
    }
}
pub fn short(s: &str) -> String {
    if s.len() <= 300 {
        return s.to_string();
    }
    let mut i = 200;
    while !s.is_char_boundary(i) {
        i -= 1;
    }
    format!("{}…({} bytes)", &s[..i], s.len())
}

// ------------------------------------------------------------------ subscribers
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Via {
    Sse,
    Multi,
    Incr,
    Ws,
}
#[derive(Clone, Debug, PartialEq)]
pub enum SEv {
    Next(J),
    Beat,
    /// the transport's own end of stream
    Complete,
    /// the connection ended without one
    Cut(End),
}
/// A subscriber over HTTP.
pub struct HttpSub {
    pub s: Sock,
    pub via: Via,
    buf: Vec<u8>,
    over: bool,
    preamble: bool,
}
impl HttpSub {
    /// Err: the response that was no stream.
    pub async fn open(s: Sock, body: &str, via: Via, headers: &[(String, String)]) -> Result<HttpSub, Result<Resp, End>> {
        let mut s = s;
        let accept = match via {
            Via::Sse => "text/event-stream",
            Via::Multi => "multipart/mixed;subscriptionSpec=\"1.0\", application/json",
            _ => "multipart/mixed",
        };
        let mut hd = vec![h("content-type", "application/json"), h("accept", accept)];
        hd.extend(headers.iter().cloned());
        s.write(&request_bytes("POST", "/graphql", "router.test", &hd, Some(body.as_bytes()))).await;
        HttpSub::answer(s, via).await
    }
    async fn answer(mut s: Sock, via: Via) -> Result<HttpSub, Result<Resp, End>> {
        let r = match s.http_head().await {
            Ok(r) => r,
            Err(e) => {
                s.close();
                return Err(Err(e));
            }
        };
        let ct = r.headers.get("content-type").unwrap_or_default();
        let stream = ct.starts_with("text/event-stream") || ct.starts_with("multipart/mixed");
        if !stream {
            let mut r = r;
            let mut out = vec![];
            if r.headers.get("transfer-encoding").is_some() {
                while let Ok(Some(c)) = s.chunk().await {
                    out.extend(c);
                }
            } else if let Some(n) = r.headers.get("content-length").and_then(|n| n.parse().ok()) {
                out = s.take(n).await.unwrap_or_default();
            }
            r.body = out;
            s.close();
            return Err(Ok(r));
        }
        let want = match via {
            Via::Sse => "text/event-stream",
            Via::Multi => "multipart/mixed;boundary=\"graphql\";subscriptionSpec=1.0",
            _ => "multipart/mixed;boundary=\"-\"",
        };
        check!("stream-content-type", ct == want, "a {:?} subscriber got content type {:?}", via, ct);
        check!("stream-status", r.status == 200, "a stream with status {}", r.status);
        Ok(HttpSub { s, via, buf: vec![], over: false, preamble: true })
    }
    pub async fn next(&mut self) -> SEv {
        loop {
            if let Some(e) = self.parse() {
                return e;
            }
            if self.over {
                if !self.buf.is_empty() {
                    violate("stream-framing", format!("a stream ends with the rest {:?}", String::from_utf8_lossy(&self.buf)));
                }
                return SEv::Cut(End::Fin);
            }
            match self.s.chunk().await {
                Ok(Some(c)) => self.buf.extend(c),
                Ok(None) => self.over = true,
                Err(e) => return SEv::Cut(e),
            }
        }
    }
    fn bad(&self, what: &str, b: &[u8]) -> ! {
        violate("stream-framing", format!("{:?} stream: {}: {:?}", self.via, what, short(&String::from_utf8_lossy(b))))
    }
    fn parse(&mut self) -> Option<SEv> {
        if self.via == Via::Sse {
            let i = find(&self.buf, b"\n\n")?;
            let ev: Vec<u8> = self.buf.drain(..i + 2).collect();
            let t = match std::str::from_utf8(&ev[..i]) {
                Ok(t) => t,
                Err(_) => self.bad("not UTF-8", &ev),
            };
            let mut name = String::new();
            let mut data: Vec<&str> = vec![];
            for l in t.split('\n') {
                if l.starts_with(':') {
                } else if let Some(v) = l.strip_prefix("event:") {
                    name = v.strip_prefix(' ').unwrap_or(v).to_string();
                } else if let Some(v) = l.strip_prefix("data:") {
                    data.push(v.strip_prefix(' ').unwrap_or(v));
                } else {
                    self.bad("unknown line", l.as_bytes());
                }
            }
            return Some(match name.as_str() {
                "" => SEv::Beat,
                "complete" => SEv::Complete,
                "next" => match J::parse(data.join("\n").as_bytes()) {
                    Ok(j) => SEv::Next(j),
                    Err(_) => self.bad("event data is no JSON", &ev),
                },
                _ => self.bad("unknown event", &ev),
            });
        }
        // multipart: --B CRLF headers CRLF CRLF body CRLF | --B--
        let b: &[u8] = if self.via == Via::Multi { b"--graphql" } else { b"---" };
        if self.buf.len() < b.len() + 2 {
            return None;
        }
        if !self.buf.starts_with(b) {
            self.bad("no delimiter where a part should begin", &self.buf);
        }
        let rest = &self.buf[b.len()..];
        if rest.starts_with(b"--") {
            let n = b.len() + 2;
            let tail = &self.buf[n..];
            if !tail.is_empty() && tail != b"\r\n" {
                self.bad("something after the end delimiter", tail);
            }
            self.buf.clear();
            return Some(SEv::Complete);
        }
        if !rest.starts_with(b"\r\n") {
            self.bad("delimiter line", &self.buf);
        }
        let hd = find(rest, b"\r\n\r\n")?;
        let body_at = b.len() + hd + 4;
        if String::from_utf8_lossy(&rest[..hd]).trim().to_ascii_lowercase() != "content-type: application/json" {
            self.bad("part headers", &rest[..hd]);
        }
        let len = find(&self.buf[body_at..], b"\r\n")?;
        let body = self.buf[body_at..body_at + len].to_vec();
        self.buf.drain(..body_at + len + 2);
        let j = match J::parse(&body) {
            Ok(j) => j,
            Err(_) => self.bad("part is no JSON", &body),
        };
        if self.via == Via::Incr {
            return Some(SEv::Next(j));
        }
        if matches!(&j, J::Obj(o) if o.is_empty()) {
            return Some(SEv::Beat);
        }
        match j.get("payload") {
            Some(p) => Some(SEv::Next(p.clone())),
            None => self.bad("part without payload", &body),
        }
    }
    pub fn close(&mut self) {
        self.s.close();
    }
}
/// Opens a WebSocket to the router; Err: refused by this response.
pub async fn ws_open(s: Sock, path: &str, proto: Option<&str>, headers: &[(String, String)], g: Rng) -> Result<Ws, Result<Resp, End>> {
    let mut g = g;
    let mut s = s;
    let key = b64(&[g.next().to_be_bytes(), g.next().to_be_bytes()].concat());
    let mut hd = vec![h("connection", "Upgrade"), h("upgrade", "websocket"), h("sec-websocket-version", "13"), h("sec-websocket-key", &key)];
    if let Some(p) = proto {
        hd.push(h("sec-websocket-protocol", p));
    }
    hd.extend(headers.iter().cloned());
    s.write(&request_bytes("GET", path, "router.test", &hd, None)).await;
    match s.http_head().await {
        Ok(r) if r.status == 101 => {
            check!("websocket-accept", r.headers.get("sec-websocket-accept").as_deref() == Some(&ws_accept(&key)), "wrong Sec-WebSocket-Accept");
            Ok(Ws::new(s, true, g))
        }
        Ok(mut r) => {
            if let Some(n) = r.headers.get("content-length").and_then(|n| n.parse().ok()) {
                r.body = s.take(n).await.unwrap_or_default();
            }
            s.close();
            Err(Ok(r))
        }
        Err(e) => {
            s.close();
            Err(Err(e))
        }
    }
}

// ------------------------------------------------------------------ feeds
/// One upstream subscription.
pub struct Feed {
    pub id: usize,
    pub sub: usize,
    pub at: u64,
    pub query: String,
    pub vars: J,
    pub opname: Option<String>,
    pub headers: Headers,
    pub who: String,
    pub doc: &'static gql::Doc,
    pub conn: usize,
    /// the operation's id on a WebSocket / callback transport
    pub opid: String,
    pub ext: J,
    /// (event number for the data set, note, time written completely)
    pub emitted: RefCell<Vec<(u64, String, Cell<u64>)>>,
    /// the feed said, or its connection showed, that it is over
    pub ended: Cell<u64>,
    pub how: RefCell<&'static str>,
    /// the router let go of it
    pub released: Cell<u64>,
    pub gone: Flag,
    /// sends more at once than the configured buffers hold: events may be missed
    pub flood: Cell<bool>,
}
pub type Feeds = Rc<RefCell<Vec<Rc<Feed>>>>;
impl Feed {
    pub fn new(feeds: &Feeds, up: &Up, opid: &str) -> Rc<Feed> {
        let doc = match gql::parse(&up.query) {
            Ok(d) => Box::leak(Box::new(d)),
            Err(e) => violate("bad-upstream-request", format!("subscription does not parse: {}", e)),
        };
        let id = feeds.borrow().len();
        let f = Rc::new(Feed {
            id,
            sub: up.sub,
            at: k().now,
            query: up.query.clone(),
            vars: up.vars.clone(),
            opname: up.opname.clone(),
            headers: up.headers.clone(),
            who: who_of(&up.headers),
            doc,
            conn: up.conn,
            opid: opid.to_string(),
            ext: up.ext.clone(),
            emitted: RefCell::new(vec![]),
            ended: Cell::new(0),
            how: RefCell::new(""),
            released: Cell::new(0),
            gone: Flag::new(),
            flood: Cell::new(false),
        });
        hist!("subscription f{} to subgraph {} conn {}: {} {}", id, up.sub, up.conn, up.query, up.vars.to_string());
        feeds.borrow_mut().push(f.clone());
        f
    }
    /// The next event's response object; the event counts as emitted.
    pub fn event(&self, fed: &Fed, junk: &str) -> J {
        let n = self.emitted.borrow().len() as u64;
        let ev = mix(self.id as u64 + 1, n);
        let note = format!("f{}#{}|{}", self.id, n, junk);
        set_event(ev, &note);
        set_who(&self.who);
        let data = match fed.sub_exec(self.sub, self.doc, self.opname.as_deref(), &self.vars) {
            Ok((d, _)) => d,
            Err(e) => violate("bad-upstream-request", format!("subgraph s{} cannot execute subscription {:?}: {}", self.sub, self.query, e.join("; "))),
        };
        self.emitted.borrow_mut().push((ev, note, Cell::new(0)));
        obj! {"data" => data}
    }
    pub fn wrote(&self) {
        if let Some(e) = self.emitted.borrow().last() {
            e.2.set(k().now);
        }
    }
    pub fn over(&self, how: &'static str) {
        if self.ended.get() == 0 {
            self.ended.set(k().now.max(1));
            *self.how.borrow_mut() = how;
            hist!("f{} is over: {}", self.id, how);
        }
    }
    pub fn let_go(&self) {
        if self.released.get() == 0 {
            self.released.set(k().now.max(1));
            hist!("f{} was released", self.id);
            self.gone.set();
        }
    }
}
/// Adds the field that marks events to every type a subscription yields.
pub fn add_notes(fed: &mut Fed) {
    let fs: Vec<(String, usize)> = fed.t("Subscription").unwrap().fields.iter().map(|f| (f.ty.name().to_string(), f.owners[0])).collect();
    for (ty, g) in fs {
        let n = format!("tick_note{}", g);
        if fed.t(&ty).unwrap().fields.iter().all(|f| f.name != n) {
            fed.tm(&ty).fields.push(FieldDef::new(&n, "String", &[g]));
        }
    }
}
/// A subscription whose events carry their note under the key `zz`.
pub fn noted(fed: &Fed, mut op: GenOp) -> GenOp {
    let name = op.opname.clone();
    let i = name.and_then(|n| op.doc.ops.iter().position(|o| o.name.as_deref() == Some(&n))).unwrap_or(0);
    if let gql::Sel::Field(f) = &mut op.doc.ops[i].sels[0] {
        let d = fed.t("Subscription").unwrap().fields.iter().find(|d| d.name == f.name).unwrap();
        let mut x = gql::Fld::new(&format!("tick_note{}", d.owners[0]));
        x.alias = Some("zz".into());
        f.sels.push(gql::Sel::Field(x));
    }
    op.text = op.doc.print();
    op
}
/// Text that parsers trip over.
pub fn junk(g: &mut Rng, big: usize) -> String {
    match g.below(14) {
        0 => "--graphql".into(),
        1 => "x\r\n--graphql\r\nContent-Type: application/json\r\n\r\n{}".into(),
        2 => "--graphql--".into(),
        3 => "a --- b ----- c".into(),
        4 => "\n\ndata: {}\n\nevent: complete\n\n".into(),
        5 => "\u{1F600}\u{e9}\u{2028}\u{4e2d}".repeat(1 + g.usize(6)),
        6 => "\"}]\\\",{[".into(),
        7 => "z".repeat(1 + g.usize(big)),
        8 => "\\u0000\t\u{8}".into(),
        9 => format!("{}\u{1F680}", "y".repeat(g.usize(big.min(9000)))),
        10 => " leading and trailing ".into(),
        _ => String::new(),
    }
}
/// The feed and number an event belongs to.
pub fn note_of(j: &J) -> Option<(usize, usize, String)> {
    let d = j.get("data")?;
    let o = d.obj()?;
    let n = o.first()?.1.get("zz")?.str()?.to_string();
    let (a, _) = n.split_once('|')?;
    let (f, i) = a.split_once('#')?;
    Some((f.strip_prefix('f')?.parse().ok()?, i.parse().ok()?, n))
}

/// What one subscriber saw.
pub struct Seen {
    pub conn: Cell<Option<usize>>,
    pub id: usize,
    pub op: GenOp,
    pub who: String,
    pub via: Via,
    pub asked: Cell<u64>,
    pub head: Cell<u64>,
    pub feed: Cell<Option<usize>>,
    pub first: Cell<Option<usize>>,
    pub last: Cell<Option<usize>>,
    pub count: Cell<u64>,
    /// reads slowly: may miss events
    pub slow: Cell<bool>,
    /// the last it got
    pub at: Cell<u64>,
    pub error: RefCell<Option<String>>,
    /// ended by the router
    pub ended: Cell<u64>,
    pub how: RefCell<String>,
    /// went away itself
    pub left: Cell<u64>,
}
impl Seen {
    pub fn new(id: usize, op: &GenOp, who: &str, via: Via) -> Rc<Seen> {
        Rc::new(Seen {
            conn: Cell::new(None),
            id,
            op: op.clone(),
            who: who.into(),
            via,
            asked: Cell::new(k().now),
            head: Cell::new(0),
            feed: Cell::new(None),
            first: Cell::new(None),
            last: Cell::new(None),
            count: Cell::new(0),
            slow: Cell::new(false),
            at: Cell::new(0),
            error: RefCell::new(None),
            ended: Cell::new(0),
            how: RefCell::new(String::new()),
            left: Cell::new(0),
        })
    }
    /// Judges one response of the stream.
    pub fn take(&self, fed: &Fed, feeds: &Feeds, j: &J) {
        self.at.set(k().now);
        if let Err(e) = wellformed(j) {
            violate("malformed-event", format!("subscriber {} got {}: {}", self.id, short(&j.to_string()), e));
        }
        check!("nothing-after-error", self.error.borrow().is_none(), "subscriber {} got {} after the error {:?}", self.id, short(&j.to_string()), self.error.borrow());
        if j.get("errors").is_some() {
            *self.error.borrow_mut() = Some(errs(j).join(" "));
            hist!("subscriber {} got errors {}", self.id, short(&j.to_string()));
            return;
        }
        let (f, n, note) = match note_of(j) {
            Some(x) => x,
            None => violate("corrupt-event", format!("subscriber {} got an event nobody sent: {}", self.id, short(&j.to_string()))),
        };
        let feeds = feeds.borrow();
        let feed = match feeds.get(f) {
            Some(x) => x,
            None => violate("corrupt-event", format!("subscriber {} got an event nobody sent: {}", self.id, short(&j.to_string()))),
        };
        let em = feed.emitted.borrow();
        let known = em.get(n).map(|e| e.1 == note).unwrap_or(false);
        check!("event-as-sent", known, "subscriber {} got event {} of f{}, its marker is not the one sent: {}", self.id, n, f, short(&note));
        if let Some(x) = self.feed.get() {
            check!("one-upstream", x == f, "subscriber {} got events of f{} and f{}", self.id, x, f);
        }
        self.feed.set(Some(f));
        if let Some(l) = self.last.get() {
            check!("no-duplicate-no-reorder", n > l, "subscriber {} got event {} of f{} after event {}", self.id, n, f, l);
            check!("no-loss", n == l + 1 || self.slow.get() || feed.flood.get(), "subscriber {} got event {} of f{} right after event {}", self.id, n, f, l);
        } else {
            self.first.set(Some(n));
        }
        self.last.set(Some(n));
        self.count.set(self.count.get() + 1);
        set_who(&self.who);
        set_event(em[n].0, &note);
        let got = j.get("data").cloned().unwrap_or(J::Null);
        if let Some(d) = fed.judge(&got, &self.op.doc, self.op.opname.as_deref(), &self.op.vars) {
            violate("wrong-event", format!("subscriber {} ({}), event {} of f{}: {}", self.id, self.op.body(), n, f, short(&d)));
        }
        ok("event-equals-reference");
        k().probe("events delivered");
        nontrivial();
    }
}

// ------------------------------------------------------------------ subgraph side
/// Frames of an HTTP stream.
#[derive(Clone, Debug)]
pub struct Fmt {
    pub multi: bool,
    pub boundary: String,
    pub crlf: bool,
    pub chunked: bool,
    /// chance (of 8) to cut an event into two HTTP chunks
    pub cut: u64,
    pub pretty: bool,
    pub wrap: bool,
    /// multipart: every write begins with the delimiter instead of ending with it
    pub lead: bool,
}
pub fn rfmt(g: &mut Rng) -> Fmt {
    Fmt {
        multi: g.chance(1, 2),
        boundary: g.pick(&["graphql", "-", "gc0p4Jq0M2Yt08jU534c0p", "graphql"]).to_string(),
        crlf: g.chance(1, 2),
        chunked: g.chance(3, 4),
        cut: g.below(8),
        pretty: g.chance(1, 4),
        wrap: g.chance(3, 4),
        lead: g.chance(1, 4),
    }
}
impl Fmt {
    pub fn head(&self) -> String {
        let ct = if self.multi {
            let q = if self.crlf { format!("\"{}\"", self.boundary) } else { self.boundary.clone() };
            format!("multipart/mixed;boundary={}{}", q, if self.wrap { ";subscriptionSpec=1.0" } else { "" })
        } else if self.crlf {
            "text/event-stream; charset=utf-8".to_string()
        } else {
            "text/event-stream".to_string()
        };
        format!("HTTP/1.1 200 OK\r\ncontent-type: {}\r\n{}\r\n", ct, if self.chunked { "transfer-encoding: chunked\r\n" } else { "connection: close\r\n" })
    }
    /// Bytes before the first event.
    pub fn start(&self) -> Vec<u8> {
        if self.multi {
            if self.lead {
                return vec![];
            }
            // the delimiter that opens the first part
            format!("{}--{}", if self.pretty { "\r\n" } else { "" }, self.boundary).into_bytes()
        } else if self.pretty {
            b":\n\n".to_vec()
        } else {
            vec![]
        }
    }
    fn part(&self, t: &str) -> Vec<u8> {
        let hd = if self.crlf { "Content-Type: application/json; charset=utf-8\r\n".to_string() } else { format!("content-type: application/json\r\nContent-Length: {}\r\n", t.len()) };
        if self.lead {
            format!("--{}\r\n{}\r\n{}\r\n", self.boundary, hd, t).into_bytes()
        } else {
            // the part and the delimiter of the next one
            format!("\r\n{}\r\n{}\r\n--{}", hd, t, self.boundary).into_bytes()
        }
    }
    pub fn next(&self, j: &J) -> Vec<u8> {
        if self.multi {
            let body = if self.wrap { obj! {"payload" => j.clone()} } else { j.clone() };
            let t = if self.pretty { pretty(&body) } else { body.to_string() };
            self.part(&t)
        } else {
            let nl = if self.crlf { "\r\n" } else { "\n" };
            let t = if self.pretty { pretty(j) } else { j.to_string() };
            let mut o = format!("event: next{}", nl);
            for l in t.split('\n') {
                o += &format!("data: {}{}", l, nl);
            }
            o += nl;
            o.into_bytes()
        }
    }
    pub fn beat(&self) -> Vec<u8> {
        if self.multi {
            self.part("{}")
        } else if self.crlf {
            b":\r\n\r\n".to_vec()
        } else {
            b":\n\n".to_vec()
        }
    }
    pub fn end(&self) -> Vec<u8> {
        if self.multi {
            if self.lead {
                format!("--{}--\r\n", self.boundary).into_bytes()
            } else {
                b"--\r\n".to_vec()
            }
        } else if self.crlf {
            b"event: complete\r\ndata:\r\n\r\n".to_vec()
        } else {
            b"event: complete\n\n".to_vec()
        }
    }
    /// Whether what was written is complete for its reader only with the next write.
    pub fn late(&self) -> bool {
        self.multi && self.lead
    }
}
pub fn pretty(j: &J) -> String {
    fn w(j: &J, ind: usize, o: &mut String) {
        let pad = |n: usize| " ".repeat(n);
        match j {
            J::Obj(v) if !v.is_empty() => {
                *o += "{\n";
                for (i, (k, x)) in v.iter().enumerate() {
                    *o += &format!("{}{}: ", pad(ind + 2), J::s(k).to_string());
                    w(x, ind + 2, o);
                    *o += if i + 1 < v.len() { ",\n" } else { "\n" };
                }
                *o += &format!("{}}}", pad(ind));
            }
            J::Arr(v) if !v.is_empty() => {
                *o += "[\n";
                for (i, x) in v.iter().enumerate() {
                    *o += &pad(ind + 2);
                    w(x, ind + 2, o);
                    *o += if i + 1 < v.len() { ",\n" } else { "\n" };
                }
                *o += &format!("{}]", pad(ind));
            }
            x => *o += &x.to_string(),
        }
    }
    let mut o = String::new();
    w(j, 0, &mut o);
    o
}
/// Writes stream bytes, as HTTP chunks when chunked.
pub async fn put(s: &mut Sock, f: &Fmt, g: &mut Rng, b: &[u8]) -> bool {
    if !f.chunked {
        return s.write(b).await;
    }
    let mut out = vec![];
    let mut parts: Vec<&[u8]> = vec![b];
    if b.len() > 1 && g.chance(f.cut, 8) {
        let i = 1 + g.usize(b.len() - 1);
        parts = vec![&b[..i], &b[i..]];
    }
    let two = parts.len() == 2 && g.chance(1, 2);
    for (i, p) in parts.iter().enumerate() {
        out.extend(format!("{:x}\r\n", p.len()).bytes());
        out.extend_from_slice(p);
        out.extend(b"\r\n");
        if two && i == 0 {
            if !s.write(&out).await {
                return false;
            }
            out.clear();
            if let Either::B(()) = race(sleep(g.log_range(1000, 5 * MS)), s.gone()).await {
                return false;
            }
        }
    }
    s.write(&out).await
}
