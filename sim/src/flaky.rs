//! A scripted HTTP server around the router: key sets, supergraphs, documents, reports, coprocessors.
use crate::kernel::*;
use crate::net::*;
use crate::rng::*;
use crate::world::*;
use std::cell::Cell;
use std::rc::Rc;

pub struct Ans {
    pub delay: u64,
    pub status: u16,
    pub headers: Vec<(String, String)>,
    pub body: Vec<u8>,
    pub fault: Fault,
    pub body_delay: u64,
    pub chunked: bool,
    pub close: bool,
    /// time the answer was written completely
    pub sent: Rc<Cell<u64>>,
    /// time the exchange ended, however
    pub end: Rc<Cell<u64>>,
}
impl Ans {
    pub fn new(status: u16, ct: &str, body: impl Into<Vec<u8>>) -> Ans {
        Ans { delay: 0, status, headers: vec![h("content-type", ct)], body: body.into(), fault: Fault::None, body_delay: 0, chunked: false, close: false, sent: Default::default(), end: Default::default() }
    }
}
/// A transport fault or none; `stall` allows endless ones.
pub fn transport_fault(g: &mut Rng, stall: bool) -> Fault {
    match g.below(if stall { 6 } else { 4 }) {
        0 => Fault::Rst,
        1 => Fault::Close,
        2 => Fault::TruncRst,
        3 => Fault::TruncFin,
        4 => Fault::Stall,
        _ => Fault::StallBody,
    }
}
async fn one(s: &mut Sock, a: &Ans) -> bool {
    if a.delay > 0 {
        if let Either::B(()) = race(sleep(a.delay), s.gone()).await {
            return false;
        }
    }
    if a.fault != Fault::None {
        k().fault(a.fault.name());
    }
    let mut hd: Vec<(&str, &str)> = a.headers.iter().map(|(x, y)| (x.as_str(), y.as_str())).collect();
    if a.close {
        hd.push(("connection", "close"));
    }
    let bytes = if a.status == 304 || a.status == 204 {
        let mut t = format!("HTTP/1.1 {} X\r\n", a.status);
        for (x, y) in &hd {
            t += &format!("{}: {}\r\n", x, y);
        }
        (t + "\r\n").into_bytes()
    } else if a.chunked {
        let mut t = format!("HTTP/1.1 {} X\r\n", a.status);
        for (x, y) in &hd {
            t += &format!("{}: {}\r\n", x, y);
        }
        t += "transfer-encoding: chunked\r\n\r\n";
        let mut b = t.into_bytes();
        for p in [&a.body[..a.body.len() / 3], &a.body[a.body.len() / 3..]] {
            if !p.is_empty() {
                b.extend(format!("{:x}\r\n", p.len()).bytes());
                b.extend_from_slice(p);
                b.extend(b"\r\n");
            }
        }
        b.extend(b"0\r\n\r\n");
        b
    } else {
        response_bytes(a.status, &hd, &a.body)
    };
    let head = find(&bytes, b"\r\n\r\n").unwrap() + 4;
    let cut = head + (bytes.len() - head) / 2;
    match a.fault {
        Fault::Rst => {
            s.rst();
            return false;
        }
        Fault::Close => return false,
        Fault::TruncRst => {
            s.write(&bytes[..cut]).await;
            s.rst();
            return false;
        }
        Fault::TruncFin => {
            s.write(&bytes[..cut]).await;
            return false;
        }
        Fault::Stall => {
            s.gone().await;
            return false;
        }
        Fault::StallBody => {
            s.write(&bytes[..cut]).await;
            s.gone().await;
            return false;
        }
        _ => {}
    }
    let ok = if a.body_delay > 0 {
        s.write(&bytes[..cut]).await;
        match race(sleep(a.body_delay), s.gone()).await {
            Either::A(()) => s.write(&bytes[cut..]).await,
            Either::B(()) => false,
        }
    } else {
        s.write(&bytes).await
    };
    if ok {
        a.sent.set(k().now);
    }
    ok && !a.close
}
pub fn http(addr: (u32, u16), name: &'static str, net: Net, f: impl Fn(&Req) -> Ans + 'static) {
    let f = Rc::new(f);
    serve(addr, name, net, move |mut s: Sock| {
        let f = f.clone();
        async move {
            while let Ok(rq) = s.http_request().await {
                let a = f(&rq);
                let go = one(&mut s, &a).await;
                a.end.set(k().now);
                if !go {
                    break;
                }
            }
            if s.open {
                s.close();
            }
        }
    });
}
