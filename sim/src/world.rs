//! Actors around the router: subgraph servers, clients, shared helpers.
use crate::fed::*;
use crate::gql;
use crate::json::J;
use crate::kernel::*;
use crate::net::*;
use crate::rng::*;
use crate::run::*;
use crate::{hist, obj};
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::rc::Rc;

pub const ROUTER: (u32, u16) = (0x7f000001, 4000);

/// How the answer to one upstream request goes wrong.
#[derive(Clone, Debug, PartialEq)]
pub enum Fault {
    None,
    /// reset without an answer
    Rst,
    /// connection closed without an answer
    Close,
    /// headers, part of the body, then reset / end of stream
    TruncRst,
    TruncFin,
    /// HTTP error with a JSON errors body / plain text / no body
    HttpJson(u16),
    HttpText(u16),
    BadJson,
    NotObject,
    EmptyBody,
    /// 200 with errors and no data
    ErrorsNoData,
    /// data: null with errors
    DataNull,
    /// some entities / fields nulled, with errors
    Partial,
    /// never answers
    Stall,
    /// headers, part of the body, then silence
    StallBody,
}
pub const FAULT_NAMES: [&str; 16] = ["none", "reset", "close", "truncated-reset", "truncated-close", "http-error-json", "http-error-text", "bad-json", "json-not-object", "empty-body", "errors-without-data", "data-null", "partial-data", "stall", "stall-in-body", "?"];
impl Fault {
    pub fn name(&self) -> &'static str {
        match self {
            Fault::None => "none",
            Fault::Rst => "upstream-reset",
            Fault::Close => "upstream-close",
            Fault::TruncRst => "upstream-truncated-reset",
            Fault::TruncFin => "upstream-truncated-close",
            Fault::HttpJson(_) => "upstream-http-error-json",
            Fault::HttpText(_) => "upstream-http-error-text",
            Fault::BadJson => "upstream-bad-json",
            Fault::NotObject => "upstream-json-not-object",
            Fault::EmptyBody => "upstream-empty-body",
            Fault::ErrorsNoData => "upstream-errors-without-data",
            Fault::DataNull => "upstream-data-null",
            Fault::Partial => "upstream-partial-data",
            Fault::Stall => "upstream-stall",
            Fault::StallBody => "upstream-stall-in-body",
        }
    }
}
/// What the server does with one request.
#[derive(Clone, Debug)]
pub struct Act {
    pub delay: u64,
    pub fault: Fault,
    pub headers: Vec<(String, String)>,
    /// text put into error messages, to recognise leaks
    pub secret: String,
    pub close_after: bool,
    pub chunked: bool,
    pub body_delay: u64,
    pub ctype: Option<String>,
}
impl Act {
    pub fn fine(delay: u64) -> Act {
        Act { delay, fault: Fault::None, headers: vec![], secret: "boom".into(), close_after: false, chunked: false, body_delay: 0, ctype: None }
    }
}
#[derive(Clone, Debug)]
pub struct Up {
    pub sub: usize,
    pub at: u64,
    pub conn: usize,
    pub query: String,
    pub vars: J,
    pub opname: Option<String>,
    pub kind: String,
    pub headers: Headers,
    pub ext: J,
    pub answered: Cell<u64>, // time the answer was complete, 0: not
    pub gone: Cell<bool>,
    pub end: Cell<u64>, // time the exchange ended, however
    pub req: String, // x-req header
    pub ok: Cell<bool>,
    pub body: Vec<u8>,
    pub method: String,
    pub target: String,
    /// (type, field) pairs it resolves
    pub fields: std::collections::BTreeSet<(String, String)>,
}
#[derive(Default)]
pub struct World {
    pub ups: RefCell<Vec<Rc<Up>>>,
    pub active: Cell<u64>,
}
pub type WRef = Rc<World>;
pub type Decide = Rc<dyn Fn(&Up, usize) -> Act>;
pub type Pick = Rc<dyn Fn(&Up) -> Rc<Fed>>;

pub fn sub_ip(s: usize) -> u32 {
    ip(10, 0, 1, s as u8 + 1)
}
pub fn calm() -> bool {
    r().o.calm_net
}
/// A random link profile.
pub fn rnet(g: &mut Rng) -> Net {
    if calm() {
        return Net { lat_lo: 100_000, lat_hi: 100_000, chunk: 0, gap_hi: 0 };
    }
    let lo = g.log_range(1_000, 2 * MS);
    Net { lat_lo: lo, lat_hi: lo + g.log_range(1_000, 20 * MS), chunk: *g.pick(&[0u8, 0, 1, 1, 1]), gap_hi: g.log_range(1_000, 3 * MS) }
}
pub fn fast_net() -> Net {
    Net { lat_lo: 10_000, lat_hi: 20_000, chunk: 0, gap_hi: 0 }
}
pub fn rdelay(g: &mut Rng) -> u64 {
    if calm() {
        return 1 * MS;
    }
    if g.chance(1, 4) {
        0
    } else {
        g.log_range(1_000, 60 * MS)
    }
}

/// One subgraph (HTTP, queries and mutations).
pub fn serve_sub(w: &WRef, fed: &Rc<Fed>, s: usize, addr: (u32, u16), net: Net, decide: Decide) {
    let fed = fed.clone();
    serve_sub_of(w, s, addr, net, Rc::new(move |_| fed.clone()), decide)
}
/// As `serve_sub`, the request decides which federation answers.
pub fn serve_sub_of(w: &WRef, s: usize, addr: (u32, u16), net: Net, pick: Pick, decide: Decide) {
    let w = w.clone();
    serve(addr, "subgraph", net, move |sock| {
        let (w, pick, decide) = (w.clone(), pick.clone(), decide.clone());
        sub_conn(w, pick, s, sock, decide)
    });
}
pub fn parse_up(s: usize, conn: usize, req: &Req) -> Result<Up, String> {
    let j = J::parse(&req.body).map_err(|e| format!("body is no JSON: {}", e))?;
    let q = j.get("query").and_then(|x| x.str()).ok_or("no query")?.to_string();
    let vars = j.get("variables").cloned().unwrap_or(J::Obj(vec![]));
    let opname = j.get("operationName").and_then(|x| x.str()).map(|s| s.to_string());
    Ok(Up {
        sub: s,
        at: req.at,
        conn,
        query: q,
        vars,
        opname,
        kind: String::new(),
        headers: req.headers.clone(),
        ext: j.get("extensions").cloned().unwrap_or(J::Null),
        answered: Cell::new(0),
        gone: Cell::new(false),
        end: Cell::new(0),
        req: req.headers.get("x-req").unwrap_or_default(),
        ok: Cell::new(false),
        body: req.body.clone(),
        method: req.method.clone(),
        target: req.target.clone(),
        fields: Default::default(),
    })
}
pub async fn sub_conn(w: WRef, pick: Pick, s: usize, mut sock: Sock, decide: Decide) {
    loop {
        let req = match sock.http_request().await {
            Ok(q) => q,
            Err(_) => {
                sock.close();
                return;
            }
        };
        let mut up = match parse_up(s, sock.c, &req) {
            Ok(u) => u,
            Err(e) => violate("bad-upstream-request", format!("subgraph {} got a request that is no GraphQL request: {} body {:?}", s, e, String::from_utf8_lossy(&req.body))),
        };
        set_who(&who_of(&up.headers));
        let fed = pick(&up);
        let (data, kind) = match sub_answer(&fed, &up) {
            Ok(x) => x,
            Err(e) => violate(r().odd.unwrap_or("bad-upstream-request"), format!("subgraph {} cannot execute {:?} with {}: {}", fed.subs[s].0, up.query, up.vars.to_string(), e)),
        };
        up.kind = kind;
        up.fields = last_touched();
        let up = Rc::new(up);
        let n = w.ups.borrow().len();
        w.ups.borrow_mut().push(up.clone());
        k().ho(hs(&up.query));
        let act = decide(&up, n);
        hist!("subgraph {} conn {} request #{} {} {} -> {:?} after {} us", s, sock.c, n, up.query, up.vars.to_string(), act.fault, act.delay / 1000);
        if act.fault != Fault::None {
            k().fault(act.fault.name());
        }
        w.active.set(w.active.get() + 1);
        let data = if act.fault == Fault::Partial { partial(&fed, &up) } else { data };
        let more = answer(&mut sock, &up, data, &act).await;
        w.active.set(w.active.get() - 1);
        up.end.set(k().now);
        if !more {
            return;
        }
    }
}
pub fn sub_answer(fed: &Fed, up: &Up) -> Result<(J, String), String> {
    let doc = gql::parse(&up.query).map_err(|e| format!("does not parse: {}", e))?;
    let doc: &'static gql::Doc = Box::leak(Box::new(doc));
    fed.sub_exec(up.sub, doc, up.opname.as_deref(), &up.vars).map_err(|e| e.join("; "))
}
/// The identity a request carries: every value of its x-who header, in order.
pub fn who_of(h: &Headers) -> String {
    h.all("x-who").join("|")
}
/// A partial answer: some fields failed, with the subgraph's own null propagation; some entities not found.
fn partial(fed: &Fed, up: &Up) -> J {
    set_who(&who_of(&up.headers));
    let h = mix(hs(&up.query), up.at);
    let doc: &'static gql::Doc = Box::leak(Box::new(gql::parse(&up.query).unwrap()));
    let f = |ty: &str, d: &FieldDef| d.name != "id" && d.name != "sku" && mix(h, mix(hs(ty), hs(&d.name))) % 3 == 0;
    let mut g = Rng::new(h);
    match fed.sub_exec_f(up.sub, doc, up.opname.as_deref(), &up.vars, Some(&f)) {
        Ok((J::Obj(mut o), _)) => {
            for (k, v) in o.iter_mut() {
                if let (true, J::Arr(a)) = (k.starts_with("_e"), v) {
                    for x in a.iter_mut() {
                        if g.chance(1, 4) {
                            *x = J::Null;
                        }
                    }
                }
            }
            J::Obj(o)
        }
        _ => J::Null,
    }
}
/// false: the connection is finished
pub async fn answer(sock: &mut Sock, up: &Up, data: J, act: &Act) -> bool {
    if act.delay > 0 {
        // the router may give up meanwhile
        match race(sleep(act.delay), sock.gone()).await {
            Either::A(()) => {}
            Either::B(()) => {
                up.gone.set(true);
                sock.close();
                return false;
            }
        }
    }
    let err = |m: &str| obj! {"message" => J::s(m), "extensions" => obj!{"code" => J::s("UPSTREAM"), "detail" => J::s(&act.secret)}};
    let ct = act.ctype.clone().unwrap_or("application/json".into());
    let mut hd: Vec<(String, String)> = vec![("content-type".into(), ct)];
    hd.extend(act.headers.iter().cloned());
    if act.close_after {
        hd.push(("connection".into(), "close".into()));
    }
    let send = |status: u16, hd: &[(String, String)], body: &[u8]| -> Vec<u8> {
        let v: Vec<(&str, &str)> = hd.iter().map(|(a, b)| (a.as_str(), b.as_str())).collect();
        if act.chunked {
            let mut s = format!("HTTP/1.1 {} X\r\n", status);
            for (k, x) in &v {
                s += &format!("{}: {}\r\n", k, x);
            }
            s += "transfer-encoding: chunked\r\n\r\n";
            let mut b = s.into_bytes();
            let mid = body.len() / 2;
            for p in [&body[..mid], &body[mid..]] {
                if !p.is_empty() {
                    b.extend(format!("{:x}\r\n", p.len()).bytes());
                    b.extend_from_slice(p);
                    b.extend(b"\r\n");
                }
            }
            b.extend(b"0\r\n\r\n");
            b
        } else {
            response_bytes(status, &v, body)
        }
    };
    let okbody = obj! {"data" => data.clone()}.to_string().into_bytes();
    let bytes = match &act.fault {
        Fault::None => send(200, &hd, &okbody),
        Fault::Rst => {
            sock.rst();
            return false;
        }
        Fault::Close => {
            sock.close();
            return false;
        }
        Fault::TruncRst | Fault::TruncFin | Fault::StallBody => {
            let b = send(200, &hd, &okbody);
            let head = find(&b, b"\r\n\r\n").unwrap() + 4;
            let cut = head + (b.len() - head) / 2;
            sock.write(&b[..cut]).await;
            match act.fault {
                Fault::TruncRst => sock.rst(),
                Fault::TruncFin => sock.close(),
                _ => {
                    sock.gone().await;
                    up.gone.set(true);
                    sock.close();
                }
            }
            return false;
        }
        Fault::Stall => {
            sock.gone().await;
            up.gone.set(true);
            sock.close();
            return false;
        }
        Fault::HttpJson(c) => send(*c, &hd, obj! {"errors" => J::Arr(vec![err(&format!("{} http", act.secret))])}.to_string().as_bytes()),
        Fault::HttpText(c) => {
            hd[0].1 = "text/plain".into();
            send(*c, &hd, format!("{} oops", act.secret).as_bytes())
        }
        Fault::BadJson => send(200, &hd, format!("{{\"data\": {{\"{}\": ", act.secret).as_bytes()),
        Fault::NotObject => send(200, &hd, b"[1,2]"),
        Fault::EmptyBody => send(200, &hd, b""),
        Fault::ErrorsNoData => send(200, &hd, obj! {"errors" => J::Arr(vec![err(&format!("{} none", act.secret))])}.to_string().as_bytes()),
        Fault::DataNull => send(200, &hd, obj! {"data" => J::Null, "errors" => J::Arr(vec![err(&format!("{} null", act.secret))])}.to_string().as_bytes()),
        Fault::Partial => {
            send(200, &hd, obj! {"data" => data.clone(), "errors" => J::Arr(vec![err(&format!("{} part", act.secret))])}.to_string().as_bytes())
        }
    };
    let done = if act.body_delay > 0 {
        let head = find(&bytes, b"\r\n\r\n").unwrap() + 4;
        let cut = head + (bytes.len() - head) / 2;
        sock.write(&bytes[..cut]).await;
        match race(sleep(act.body_delay), sock.gone()).await {
            Either::A(()) => sock.write(&bytes[cut..]).await,
            Either::B(()) => false,
        }
    } else {
        sock.write(&bytes).await
    };
    if !done {
        up.gone.set(true);
        sock.close();
        return false;
    }
    up.answered.set(k().now);
    up.ok.set(act.fault == Fault::None);
    if act.close_after {
        sock.close();
        return false;
    }
    true
}

// ---------------------------------------------------------------- clients
pub type HV = Vec<(String, String)>;
pub fn h(a: &str, b: &str) -> (String, String) {
    (a.to_string(), b.to_string())
}
pub struct Client {
    pub sock: Option<Sock>,
    pub net: Net,
    pub keep: bool,
}
impl Client {
    pub fn new(net: Net, keep: bool) -> Client {
        Client { sock: None, net, keep }
    }
    pub fn conn(&mut self) -> Option<&mut Sock> {
        let dead = self.sock.as_ref().map(|s| s.peer_gone() || !s.open).unwrap_or(true);
        if dead {
            self.sock = Sock::connect(ROUTER, self.net.clone());
        }
        self.sock.as_mut()
    }
    pub async fn send(&mut self, method: &str, target: &str, headers: &[(String, String)], body: Option<&[u8]>) -> Result<Resp, End> {
        for attempt in 0..3 {
            let reused = self.sock.is_some();
            let s = match self.conn() {
                Some(s) => s,
                None => return Err(End::Refused),
            };
            let b = request_bytes(method, target, "router.test", headers, body);
            s.write(&b).await;
            let res = s.http_response().await;
            match res {
                Ok(r) => {
                    if !self.keep || r.headers.get("connection").map(|c| c.eq_ignore_ascii_case("close")).unwrap_or(false) {
                        if let Some(mut s) = self.sock.take() {
                            s.close();
                        }
                    }
                    return Ok(r);
                }
                Err(e) => {
                    if let Some(mut s) = self.sock.take() {
                        s.close();
                    }
                    // an idle connection may be closed by the server at any time
                    if reused && attempt < 2 {
                        continue;
                    }
                    return Err(e);
                }
            }
        }
        Err(End::Fin)
    }
    pub async fn gql(&mut self, body: &str, extra: &[(String, String)]) -> Result<Resp, End> {
        let mut hd = vec![h("content-type", "application/json")];
        hd.extend(extra.iter().cloned());
        self.send("POST", "/graphql", &hd, Some(body.as_bytes())).await
    }
    pub fn close(&mut self) {
        if let Some(mut s) = self.sock.take() {
            s.close();
        }
    }
}
/// Waits until the router serves requests.
pub async fn ready() {
    let end = k().now + 60 * SEC;
    loop {
        sleep(5 * MS).await;
        let mut c = Client::new(fast_net(), false);
        if let Some(Ok(r)) = until(k().now + 10 * SEC, c.send("GET", "/readiness", &[], None)).await {
            if r.status == 200 {
                hist!("router is ready");
                return;
            }
        }
        if k().now > end {
            violate("not-ready", "the router did not become ready within 60 s of simulated time");
        }
    }
}
pub fn body_json(r: &Resp) -> J {
    match J::parse(&r.body) {
        Ok(j) => j,
        Err(e) => violate("malformed-response", format!("status {} body is not JSON ({}): {:?}", r.status, e, String::from_utf8_lossy(&r.body))),
    }
}
/// Spec shape of a GraphQL response.
pub fn wellformed(j: &J) -> Result<(), String> {
    let o = j.obj().ok_or("not an object")?;
    for (n, _) in o {
        if !matches!(n.as_str(), "data" | "errors" | "extensions") {
            return Err(format!("unknown key {}", n));
        }
    }
    let mut names: Vec<&String> = o.iter().map(|x| &x.0).collect();
    names.sort();
    names.dedup();
    if names.len() != o.len() {
        return Err("duplicate keys".into());
    }
    if j.get("data").is_none() && j.get("errors").is_none() {
        return Err("neither data nor errors".into());
    }
    if let Some(e) = j.get("errors") {
        let a = e.arr().ok_or("errors is no list")?;
        if a.is_empty() {
            return Err("errors is an empty list".into());
        }
        for x in a {
            x.get("message").and_then(|m| m.str()).ok_or("an error without a message")?;
        }
    }
    Ok(())
}
pub fn errs(j: &J) -> Vec<String> {
    j.get("errors").and_then(|e| e.arr()).map(|a| a.iter().map(|x| x.to_string()).collect()).unwrap_or_default()
}

/// Writes the router's files. `yaml` comes after the fixed part.
pub fn files(kk: &mut Kernel, sdl: &str, workers: u64, yaml: &str) {
    files_source(kk, "  source: file\n  path: /sim/sg.graphql\n", workers, yaml);
    kk.fs_write("/sim/sg.graphql", sdl.as_bytes().to_vec());
    kk.log(|| format!("supergraph:\n{}", sdl));
}
pub fn base_yaml(workers: u64) -> String {
    format!("http:\n  host: 127.0.0.1\n  port: 4000\n  workers: {}\nlog:\n  level: {}\n", workers, if r().o.echo { "debug" } else { "error" })
}
pub fn dns_subs(kk: &mut Kernel, fed: &Fed) {
    for i in 0..fed.subs.len() {
        kk.dns.insert(format!("s{}.sub", i), sub_ip(i));
    }
}
pub struct Count(pub Rc<RefCell<(usize, Flag)>>);
/// Barrier: resolves once `n` parties are done.
#[derive(Clone)]
pub struct Wg(Rc<Cell<usize>>, Flag);
impl Wg {
    pub fn new(n: usize) -> Wg {
        let f = Flag::new();
        if n == 0 {
            f.set();
        }
        Wg(Rc::new(Cell::new(n)), f)
    }
    pub fn done(&self) {
        self.0.set(self.0.get() - 1);
        if self.0.get() == 0 {
            self.1.set();
        }
    }
    pub async fn wait(&self) {
        self.1.wait().await
    }
    pub fn left(&self) -> usize {
        self.0.get()
    }
}
pub fn bt(v: &[(&str, J)]) -> BTreeMap<String, J> {
    v.iter().map(|(a, b)| (a.to_string(), b.clone())).collect()
}
/// Writes the configuration with any supergraph source.
pub fn files_source(kk: &mut Kernel, source: &str, workers: u64, yaml: &str) {
    let mut c = format!("supergraph:\n{}", source);
    c += &base_yaml(workers);
    c += yaml;
    kk.log(|| format!("configuration:\n{}", c));
    kk.fs_write("/sim/router.yaml", c.into_bytes());
}
/// As `files`, with the supergraph file polled.
pub fn files_poll(kk: &mut Kernel, sdl: &str, workers: u64, ms: u64, yaml: &str) {
    files(kk, sdl, workers, yaml);
    let mut c = format!("supergraph:\n  source: file\n  path: /sim/sg.graphql\n  poll_interval: {}ms\n", ms);
    c += &base_yaml(workers);
    c += yaml;
    kk.fs_write("/sim/router.yaml", c.into_bytes());
}
