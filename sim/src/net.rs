//! World side of connections: async sockets, HTTP/1.1, channels, select.
use crate::kernel::*;
use std::cell::RefCell;
use std::collections::VecDeque;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum End {
    Fin,
    Rst,
    Timeout,
    Bad,
    Refused,
}

pub enum Either<A, B> {
    A(A),
    B(B),
}
pub struct Race<A, B>(pub A, pub B);
impl<A: Future + Unpin, B: Future + Unpin> Future for Race<A, B> {
    type Output = Either<A::Output, B::Output>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        if let Poll::Ready(v) = Pin::new(&mut self.0).poll(cx) {
            return Poll::Ready(Either::A(v));
        }
        if let Poll::Ready(v) = Pin::new(&mut self.1).poll(cx) {
            return Poll::Ready(Either::B(v));
        }
        Poll::Pending
    }
}
/// `a`, or None once the clock reaches `t`.
pub async fn until<T>(t: u64, a: impl Future<Output = T>) -> Option<T> {
    match Race(Box::pin(a), Box::pin(sleep_until(t))).await {
        Either::A(v) => Some(v),
        Either::B(()) => None,
    }
}
pub async fn race<A: Future, B: Future>(a: A, b: B) -> Either<A::Output, B::Output> {
    Race(Box::pin(a), Box::pin(b)).await
}

/// Unbounded queue between world tasks.
pub struct Chan<T>(Rc<RefCell<(VecDeque<T>, Vec<TaskId>, bool)>>);
impl<T> Clone for Chan<T> {
    fn clone(&self) -> Self {
        Chan(self.0.clone())
    }
}
impl<T> Chan<T> {
    pub fn new() -> Self {
        Chan(Rc::new(RefCell::new((VecDeque::new(), Vec::new(), false))))
    }
    pub fn send(&self, v: T) {
        self.0.borrow_mut().0.push_back(v);
        self.wake();
    }
    fn wake(&self) {
        let w = std::mem::take(&mut self.0.borrow_mut().1);
        for t in w {
            k().wake_task(t);
        }
    }
    pub fn close(&self) {
        self.0.borrow_mut().2 = true;
        self.wake();
    }
    pub fn is_closed(&self) -> bool {
        self.0.borrow().2
    }
    pub fn try_recv(&self) -> Option<T> {
        self.0.borrow_mut().0.pop_front()
    }
    pub fn len(&self) -> usize {
        self.0.borrow().0.len()
    }
    /// None when closed and empty.
    pub fn recv(&self) -> ChanRecv<T> {
        ChanRecv(self.clone())
    }
}
pub struct ChanRecv<T>(Chan<T>);
impl<T> Future for ChanRecv<T> {
    type Output = Option<T>;
    fn poll(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Option<T>> {
        let mut b = self.0 .0.borrow_mut();
        if let Some(v) = b.0.pop_front() {
            return Poll::Ready(Some(v));
        }
        if b.2 {
            return Poll::Ready(None);
        }
        let t = k().cur_task;
        if !b.1.contains(&t) {
            b.1.push(t);
        }
        Poll::Pending
    }
}
/// One-shot / level condition.
#[derive(Clone)]
pub struct Flag(Rc<RefCell<(bool, Vec<TaskId>)>>);
impl Default for Flag {
    fn default() -> Self {
        Flag::new()
    }
}
impl Flag {
    pub fn new() -> Self {
        Flag(Rc::new(RefCell::new((false, Vec::new()))))
    }
    pub fn set(&self) {
        self.0.borrow_mut().0 = true;
        let w = std::mem::take(&mut self.0.borrow_mut().1);
        for t in w {
            k().wake_task(t);
        }
    }
    pub fn get(&self) -> bool {
        self.0.borrow().0
    }
    pub async fn wait(&self) {
        FlagWait(self.clone()).await
    }
}
pub struct FlagWait(Flag);
impl Future for FlagWait {
    type Output = ();
    fn poll(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<()> {
        let mut b = self.0 .0.borrow_mut();
        if b.0 {
            return Poll::Ready(());
        }
        let t = k().cur_task;
        if !b.1.contains(&t) {
            b.1.push(t);
        }
        Poll::Pending
    }
}

// ------------------------------------------------------------------ sockets
pub struct Sock {
    pub c: usize,
    pub buf: Vec<u8>,
    pub open: bool,
}
struct RdFut(usize);
impl Future for RdFut {
    type Output = Result<Vec<u8>, End>;
    fn poll(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Self::Output> {
        let kk = k();
        let c = self.0;
        let cn = &mut kk.conns[c];
        if !cn.wx.is_empty() {
            let v: Vec<u8> = cn.wx.drain(..).collect();
            if cn.tx_blocked {
                cn.tx_blocked = false;
                let o = cn.obj;
                if o != NONE {
                    kk.edge_out(o);
                }
            }
            return Poll::Ready(Ok(v));
        }
        if cn.wx_rst {
            return Poll::Ready(Err(End::Rst));
        }
        if cn.wx_fin {
            return Poll::Ready(Err(End::Fin));
        }
        cn.task = Some(kk.cur_task);
        Poll::Pending
    }
}
struct WrFut(usize);
impl Future for WrFut {
    type Output = bool;
    fn poll(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<bool> {
        let kk = k();
        let cn = &mut kk.conns[self.0];
        if cn.wx_rst || cn.world_closed || cn.router_closed {
            return Poll::Ready(false);
        }
        if cn.rx.len() + cn.rx_pending < cn.rx_window {
            return Poll::Ready(true);
        }
        cn.wtask = Some(kk.cur_task);
        Poll::Pending
    }
}
struct GoneFut(usize);
impl Future for GoneFut {
    type Output = ();
    fn poll(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<()> {
        let kk = k();
        let cn = &mut kk.conns[self.0];
        if cn.wx_rst || cn.wx_fin {
            return Poll::Ready(());
        }
        if !cn.gtasks.contains(&kk.cur_task) {
            cn.gtasks.push(kk.cur_task);
        }
        Poll::Pending
    }
}
impl Sock {
    pub fn new(c: usize) -> Sock {
        Sock { c, buf: Vec::new(), open: true }
    }
    /// Connect to a router listener (None: refused).
    pub fn connect(addr: (u32, u16), net: Net) -> Option<Sock> {
        let kk = k();
        let c = kk.world_connect(addr)?;
        kk.conns[c].net = net;
        Some(Sock::new(c))
    }
    pub async fn read_some(&mut self) -> Result<Vec<u8>, End> {
        RdFut(self.c).await
    }
    /// Appends to buf; Err at end.
    pub async fn fill(&mut self) -> Result<(), End> {
        let v = RdFut(self.c).await?;
        self.buf.extend(v);
        Ok(())
    }
    /// Resolves when the router closed or reset its side (data stays unread).
    pub async fn gone(&self) {
        GoneFut(self.c).await
    }
    pub fn peer_gone(&self) -> bool {
        let cn = &k().conns[self.c];
        cn.wx_rst || cn.wx_fin || cn.router_closed
    }
    pub async fn write(&mut self, b: &[u8]) -> bool {
        if !self.open {
            return false;
        }
        for piece in b.chunks(16 * 1024) {
            if !WrFut(self.c).await {
                return false;
            }
            k().conn_to_router(self.c, piece);
        }
        true
    }
    pub fn fin(&mut self) {
        if self.open {
            self.open = false;
            k().conn_fin_to_router(self.c);
        }
    }
    /// Full close: later data from the router is answered by a reset.
    pub fn close(&mut self) {
        self.fin();
        k().conns[self.c].world_closed = true;
    }
    pub fn rst(&mut self) {
        self.open = false;
        let kk = k();
        kk.conns[self.c].world_closed = true;
        kk.conn_rst_to_router(self.c);
    }
    pub async fn read_until_crlf2(&mut self) -> Result<usize, End> {
        loop {
            if let Some(i) = find(&self.buf, b"\r\n\r\n") {
                return Ok(i);
            }
            self.fill().await?;
        }
    }
    pub async fn take(&mut self, n: usize) -> Result<Vec<u8>, End> {
        while self.buf.len() < n {
            self.fill().await?;
        }
        Ok(self.buf.drain(..n).collect())
    }
    pub async fn line(&mut self) -> Result<Vec<u8>, End> {
        loop {
            if let Some(i) = find(&self.buf, b"\r\n") {
                let mut l: Vec<u8> = self.buf.drain(..i + 2).collect();
                l.truncate(i);
                return Ok(l);
            }
            self.fill().await?;
        }
    }
}
pub fn find(h: &[u8], n: &[u8]) -> Option<usize> {
    if n.is_empty() || h.len() < n.len() {
        return None;
    }
    h.windows(n.len()).position(|w| w == n)
}

// ------------------------------------------------------------------ HTTP
#[derive(Clone, Debug, Default)]
pub struct Headers(pub Vec<(String, Vec<u8>)>);
impl Headers {
    pub fn get(&self, n: &str) -> Option<String> {
        self.0.iter().find(|(k, _)| k == n).map(|(_, v)| String::from_utf8_lossy(v).to_string())
    }
    pub fn all(&self, n: &str) -> Vec<String> {
        self.0.iter().filter(|(k, _)| k == n).map(|(_, v)| String::from_utf8_lossy(v).to_string()).collect()
    }
    fn parse(lines: &[u8]) -> Headers {
        let mut v = Vec::new();
        for l in split_crlf(lines) {
            if let Some(i) = l.iter().position(|c| *c == b':') {
                let n = String::from_utf8_lossy(&l[..i]).trim().to_ascii_lowercase();
                let mut x = &l[i + 1..];
                while x.first() == Some(&b' ') {
                    x = &x[1..];
                }
                while x.last() == Some(&b' ') {
                    x = &x[..x.len() - 1];
                }
                v.push((n, x.to_vec()));
            }
        }
        Headers(v)
    }
}
fn split_crlf(b: &[u8]) -> Vec<&[u8]> {
    let mut v = Vec::new();
    let mut r = b;
    while let Some(i) = find(r, b"\r\n") {
        v.push(&r[..i]);
        r = &r[i + 2..];
    }
    if !r.is_empty() {
        v.push(r);
    }
    v
}
#[derive(Clone, Debug)]
pub struct Req {
    pub method: String,
    pub target: String,
    pub headers: Headers,
    pub body: Vec<u8>,
    pub at: u64,
    pub seq: u64,
}
impl Req {
    pub fn path(&self) -> &str {
        self.target.split('?').next().unwrap()
    }
}
#[derive(Clone, Debug)]
pub struct Resp {
    pub status: u16,
    pub headers: Headers,
    pub body: Vec<u8>,
}
impl Sock {
    pub async fn http_request(&mut self) -> Result<Req, End> {
        let i = self.read_until_crlf2().await?;
        let head: Vec<u8> = self.buf.drain(..i + 4).collect();
        let at = k().now;
        let eol = find(&head, b"\r\n").unwrap();
        let l = String::from_utf8_lossy(&head[..eol]).to_string();
        let mut p = l.split(' ');
        let method = p.next().unwrap_or("").to_string();
        let target = p.next().unwrap_or("").to_string();
        let headers = Headers::parse(&head[eol + 2..head.len() - 2]);
        let body = self.http_body(&headers, false).await?;
        let kk = k();
        kk.evseq += 1;
        Ok(Req { method, target, headers, body, at, seq: kk.evseq })
    }
    async fn http_body(&mut self, h: &Headers, to_eof: bool) -> Result<Vec<u8>, End> {
        if h.get("transfer-encoding").map(|t| t.contains("chunked")).unwrap_or(false) {
            let mut out = Vec::new();
            loop {
                match self.chunk().await? {
                    Some(c) => out.extend(c),
                    None => return Ok(out),
                }
            }
        }
        if let Some(n) = h.get("content-length") {
            let n: usize = n.parse().map_err(|_| End::Bad)?;
            return self.take(n).await;
        }
        if to_eof {
            loop {
                match self.fill().await {
                    Ok(()) => {}
                    Err(End::Fin) => return Ok(std::mem::take(&mut self.buf)),
                    Err(e) => return Err(e),
                }
            }
        }
        Ok(Vec::new())
    }
    /// Next chunk of a chunked body; None at its end.
    pub async fn chunk(&mut self) -> Result<Option<Vec<u8>>, End> {
        let l = self.line().await?;
        let s = String::from_utf8_lossy(&l).to_string();
        let n = usize::from_str_radix(s.split(';').next().unwrap().trim(), 16).map_err(|_| End::Bad)?;
        let mut v = self.take(n + 2).await?;
        if &v[n..] != b"\r\n" {
            return Err(End::Bad);
        }
        v.truncate(n);
        Ok(if n == 0 { None } else { Some(v) })
    }
    pub async fn http_head(&mut self) -> Result<Resp, End> {
        loop {
            let i = self.read_until_crlf2().await?;
            let head: Vec<u8> = self.buf.drain(..i + 4).collect();
            let eol = find(&head, b"\r\n").unwrap();
            let l = String::from_utf8_lossy(&head[..eol]).to_string();
            let status: u16 = l.split(' ').nth(1).and_then(|s| s.parse().ok()).ok_or(End::Bad)?;
            if status == 100 {
                continue;
            }
            let headers = Headers::parse(&head[eol + 2..head.len() - 2]);
            return Ok(Resp { status, headers, body: Vec::new() });
        }
    }
    pub async fn http_response(&mut self) -> Result<Resp, End> {
        let mut r = self.http_head().await?;
        if r.status == 204 || r.status == 304 || r.status == 101 {
            return Ok(r);
        }
        let h = r.headers.clone();
        r.body = self.http_body(&h, true).await?;
        Ok(r)
    }
    pub async fn respond(&mut self, status: u16, headers: &[(&str, &str)], body: &[u8]) -> bool {
        let b = response_bytes(status, headers, body);
        self.write(&b).await
    }
}
pub fn response_bytes(status: u16, headers: &[(&str, &str)], body: &[u8]) -> Vec<u8> {
    let mut s = format!("HTTP/1.1 {} X\r\n", status);
    for (k, v) in headers {
        s += &format!("{}: {}\r\n", k, v);
    }
    s += &format!("content-length: {}\r\n\r\n", body.len());
    let mut b = s.into_bytes();
    b.extend_from_slice(body);
    b
}
pub fn request_bytes(method: &str, target: &str, host: &str, headers: &[(String, String)], body: Option<&[u8]>) -> Vec<u8> {
    let mut s = format!("{} {} HTTP/1.1\r\nhost: {}\r\n", method, target, host);
    for (k, v) in headers {
        s += &format!("{}: {}\r\n", k, v);
    }
    if let Some(b) = body {
        s += &format!("content-length: {}\r\n", b.len());
    }
    s += "\r\n";
    let mut b = s.into_bytes();
    if let Some(x) = body {
        b.extend_from_slice(x);
    }
    b
}
/// World listener: every accepted connection runs `f` as a task.
pub fn serve<F, Fut>(addr: (u32, u16), name: &'static str, net: Net, f: F)
where
    F: Fn(Sock) -> Fut + 'static,
    Fut: Future<Output = ()> + 'static,
{
    k().acceptors.insert(
        addr,
        Box::new(move |kk, c, _| {
            kk.conns[c].net = net.clone();
            let fut = f(Sock::new(c));
            kk.spawn(name, fut);
            true
        }),
    );
}
pub fn ip(a: u8, b: u8, c: u8, d: u8) -> u32 {
    u32::from_be_bytes([a, b, c, d])
}
