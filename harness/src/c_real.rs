//! The operating system's own UDP on the loopback interface, with real threads and time: C13, C14 and C17.
use crate::engine::{take_any_panics, Case, Src, Sub};
use crate::scenario::*;
use rust_raknet::error::RaknetError;
use rust_raknet::{RaknetListener, RaknetSocket};
use std::future::Future;
use std::net::{Ipv4Addr, Ipv6Addr, SocketAddr};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, OnceLock};
use std::time::{Duration, Instant};

pub const C13: Sub = Sub {
    name: "real",
    run: c13_real,
    quick: 240,
    thorough: 6000,
    rule: "clients of generated versions connect at once over the loopback interface to a listener bound in generated ways (IPv4, IPv6, wildcard, both families, bind or from_std); non-trivial unless it is one client over IPv4 to an address given to bind",
};
pub const C14: Sub = Sub {
    name: "real",
    run: c14_real,
    quick: 240,
    thorough: 6000,
    rule: "pings over the loopback interface to a listener bound in generated ways, its MOTD generated and changed meanwhile; non-trivial unless it is one ping of the default MOTD over IPv4",
};
pub const C17: Sub = Sub {
    name: "real",
    run: c17_real,
    quick: 240,
    thorough: 6000,
    rule: "a listener on the loopback interface is closed or dropped while clients connect, exchange messages, close or have gone; every case with a client is non-trivial",
};

/// How long anything may take that normally takes milliseconds.
const LONG: Duration = Duration::from_secs(60);

fn v6() -> bool {
    static V6: OnceLock<bool> = OnceLock::new();
    *V6.get_or_init(|| std::net::UdpSocket::bind((Ipv6Addr::LOCALHOST, 0)).is_ok())
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Place {
    V4,
    V4Any,
    V6,
    V6Any,
}

#[derive(Clone, Copy, Debug)]
struct How {
    place: Place,
    from_std: bool,
    threads: usize,
    /// a dual-stack listener is reached over IPv4
    mapped: bool,
}
impl How {
    fn gen(s: &mut Src) -> How {
        let place = s.pick(&[Place::V4, Place::V6, Place::V4Any, Place::V6Any]);
        let place = match place {
            Place::V6 if !v6() => Place::V4,
            Place::V6Any if !v6() => Place::V4Any,
            p => p,
        };
        let h = How { place, from_std: s.chance(1, 3), threads: s.usize(1, 4), mapped: place == Place::V6Any && s.chance(1, 2) };
        s.label_if(matches!(place, Place::V6 | Place::V6Any), "IPv6");
        s.label_if(h.from_std, "from_std");
        s.label_if(h.mapped, "IPv4 client of an IPv6 listener");
        h
    }
    fn plain(&self) -> bool {
        self.place == Place::V4 && !self.from_std
    }
    fn bind_addr(&self) -> SocketAddr {
        match self.place {
            Place::V4 => (Ipv4Addr::LOCALHOST, 0).into(),
            Place::V4Any => (Ipv4Addr::UNSPECIFIED, 0).into(),
            Place::V6 => (Ipv6Addr::LOCALHOST, 0).into(),
            Place::V6Any => (Ipv6Addr::UNSPECIFIED, 0).into(),
        }
    }
    async fn listener(&self) -> Result<(RaknetListener, SocketAddr), String> {
        let l = if self.from_std {
            let s = std::net::UdpSocket::bind(self.bind_addr()).map_err(|e| format!("harness bind: {e}"))?;
            RaknetListener::from_std(s).await.map_err(|e| format!("from_std: {e:?}"))?
        } else {
            RaknetListener::bind(&self.bind_addr()).await.map_err(|e| format!("bind: {e:?}"))?
        };
        let at = l.local_addr().map_err(|e| format!("local_addr: {e:?}"))?;
        if at.port() == 0 || at.ip() != self.bind_addr().ip() {
            return Err(format!("a listener bound to {} says its address is {at}", self.bind_addr()));
        }
        let reach = match self.place {
            Place::V4 | Place::V4Any => (Ipv4Addr::LOCALHOST, at.port()).into(),
            _ if self.mapped => (Ipv4Addr::LOCALHOST, at.port()).into(),
            _ => (Ipv6Addr::LOCALHOST, at.port()).into(),
        };
        Ok((l, reach))
    }
}

async fn long<T>(what: &str, f: impl Future<Output = T>) -> Result<T, String> {
    tokio::time::timeout(LONG, f).await.map_err(|_| format!("{what} was still waiting after {} s", LONG.as_secs()))
}

fn run<F>(threads: usize, f: F) -> Case
where
    F: Future<Output = Case> + Send + 'static,
{
    let rt = if threads == 1 {
        tokio::runtime::Builder::new_current_thread().enable_all().build()
    } else {
        tokio::runtime::Builder::new_multi_thread().worker_threads(threads).enable_all().build()
    }
    .map_err(|e| e.to_string())?;
    let out = rt.block_on(async move {
        match tokio::time::timeout(5 * LONG, f).await {
            Ok(r) => r,
            Err(_) => Err("the session over real sockets did not end".to_string()),
        }
    });
    rt.shutdown_background();
    out?;
    let p = take_any_panics();
    if !p.is_empty() {
        return Err(format!("library panicked: {}", p.join(" | ")));
    }
    Ok(())
}

fn canonical(a: SocketAddr) -> SocketAddr {
    SocketAddr::new(a.ip().to_canonical(), a.port())
}

fn c13_real(s: &mut Src) -> Case {
    let how = How::gen(s);
    let versions: Vec<u8> = s.list(1, 3, 8, |s, _| s.pick(&[10u8, 11, 10, 11, 9, 12, 0, 255]));
    let size = s.pick(&[8usize, 1340, 1341, 9000]);
    s.note(format!("{how:?}, client versions {versions:?}, messages of {size} bytes"));
    s.nontrivial(!how.plain() || versions.len() > 1);
    s.label_if(versions.len() > 1, "several clients");
    run(how.threads, async move {
        let (mut l, at) = how.listener().await?;
        l.listen().await;
        let clients: Vec<_> = versions
            .iter()
            .map(|v| {
                let v = *v;
                tokio::spawn(async move { (v, tokio::time::timeout(LONG, RaknetSocket::connect_with_version(&at, v)).await) })
            })
            .collect();
        let good = versions.iter().filter(|v| matches!(v, 10 | 11)).count();
        let mut accepted = vec![];
        for i in 0..good {
            accepted.push(long(&format!("accept #{i} of {good}"), l.accept()).await?.map_err(|e| format!("accept: {e:?}"))?);
        }
        let mut socks = vec![];
        for c in clients {
            let (v, r) = c.await.map_err(|e| format!("connect panicked: {e}"))?;
            match r {
                Err(_) => return Err(format!("connect with version {v} to {at} was still waiting after {} s", LONG.as_secs())),
                Ok(Ok(k)) if matches!(v, 10 | 11) => socks.push((v, k)),
                Ok(Err(RaknetError::NotSupportVersion)) if !matches!(v, 10 | 11) => {}
                Ok(r) => return Err(format!("connect with version {v}: {:?}", r.map(|_| "connected").map_err(|e| format!("{e:?}")))),
            }
        }
        if tokio::time::timeout(Duration::from_millis(20), l.accept()).await.is_ok() {
            return Err(format!("more than {good} connections were accepted"));
        }
        for (i, (v, k)) in socks.iter().enumerate() {
            let (here, there) = (k.local_addr().unwrap(), k.peer_addr().unwrap());
            if there != at {
                return Err(format!("a client connected to {at} has the peer address {there}"));
            }
            let mine: Vec<&RaknetSocket> = accepted.iter().filter(|a| a.peer_addr().unwrap().port() == here.port()).collect();
            let [a] = mine[..] else {
                return Err(format!("{} accepted sockets have the peer port {}, the local port of a client", mine.len(), here.port()));
            };
            let from = a.peer_addr().unwrap();
            if canonical(from).ip() != at.ip() {
                return Err(format!("a client on the loopback interface was accepted with the address {from}"));
            }
            if a.raknet_version().unwrap() != *v || k.raknet_version().unwrap() != *v || l.get_peer_raknet_version(&from).await.unwrap() != *v {
                return Err(format!("version {v} asked for, the ends say {} and {}, the listener {}", k.raknet_version().unwrap(), a.raknet_version().unwrap(), l.get_peer_raknet_version(&from).await.unwrap()));
            }
            for (d, x, y) in [(0, k, a), (1, a, k)] {
                let m = payload(i, d, 0, 0, 3, size);
                long("send", x.send(&m, rel(3))).await?.map_err(|e| format!("send: {e:?}"))?;
                let got = long("recv", y.recv()).await?.map_err(|e| format!("recv: {e:?}"))?;
                if got != m {
                    return Err(format!("sent {}, received {}", brief(&m), brief(&got)));
                }
                long("flush", x.flush()).await?.map_err(|e| format!("flush: {e:?}"))?;
            }
        }
        Ok(())
    })
}

fn c14_real(s: &mut Src) -> Case {
    let how = How::gen(s);
    let motds: Vec<(bool, String, bool)> = s.list(0, 2, 5, |s, _| {
        let n = s.usize(0, 60);
        let t: String = (0..n).map(|_| s.pick(&['a', 'Z', ';', '0', ' ', 'ß', '日', '\u{1F600}', '\u{7f}'])).collect();
        (s.chance(1, 2), if s.chance(1, 8) { "x".repeat(s.usize(1000, 1400)) } else { t }, s.chance(1, 2))
    });
    let pings = s.usize(1, 4);
    s.note(format!("{how:?}, {pings} pings at once for each of the default and the MOTDs (by set_motd, text, before listening) {motds:?}"));
    s.nontrivial(!how.plain() || pings > 1 || !motds.is_empty());
    s.label_if(!motds.is_empty(), "MOTD set");
    run(how.threads, async move {
        let (mut l, at) = how.listener().await?;
        let mut listening = false;
        let mut steps = vec![None];
        steps.extend(motds.iter().map(Some));
        for m in steps {
            if let Some((parts, text, before)) = m {
                if !before && !listening {
                    l.listen().await;
                    listening = true;
                }
                if *parts && text.len() < 1000 {
                    l.set_motd(text, 5, "486", "1.18.11", text, 19132).await;
                } else {
                    l.set_full_motd(text.clone()).map_err(|e| format!("set_full_motd: {e:?}"))?;
                }
            }
            if !listening && matches!(m, Some((_, _, true))) || m.is_none() && motds.first().map(|x| x.2).unwrap_or(false) {
                continue;
            }
            if !listening {
                l.listen().await;
                listening = true;
            }
            check_pings(&l, at, pings).await?;
        }
        if !listening {
            l.listen().await;
            check_pings(&l, at, pings).await?;
        }
        Ok(())
    })
}

async fn check_pings(l: &RaknetListener, at: SocketAddr, n: usize) -> Case {
    let want = l.get_motd().await;
    let hs: Vec<_> = (0..n)
        .map(|_| {
            tokio::spawn(async move {
                let t = Instant::now();
                let r = tokio::time::timeout(LONG, RaknetSocket::ping(&at)).await;
                (r, t.elapsed())
            })
        })
        .collect();
    for h in hs {
        let (r, took) = h.await.map_err(|e| format!("ping panicked: {e}"))?;
        let (ms, motd) = r.map_err(|_| format!("ping of {at} was still waiting after {} s", LONG.as_secs()))?.map_err(|e| format!("ping of {at}: {e:?}"))?;
        if motd != want {
            return Err(format!("the MOTD is {want:?}, ping returned {motd:?}"));
        }
        if ms < 0 || ms as u128 > took.as_millis() + 2 {
            return Err(format!("ping took {took:?} and returned a latency of {ms} ms"));
        }
    }
    Ok(())
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum St {
    Idle,
    /// both ends send until they are told that the connection is closed
    Busy,
    /// accepted, the socket dropped
    Dropped,
    /// the client closes right before
    Closed,
    /// the client's socket is dropped
    Gone,
    /// connect begins right before
    Late,
}

fn c17_real(s: &mut Src) -> Case {
    let how = How::gen(s);
    let states: Vec<St> = s.list(0, 3, 8, |s, _| s.pick(&[St::Idle, St::Busy, St::Dropped, St::Closed, St::Gone, St::Late, St::Busy]));
    let accept = s.usize(0, 8);
    let dropped = s.chance(1, 4);
    let wait = s.int(0, 120);
    s.note(format!("{how:?}, clients {states:?}, of which {accept} are accepted; after {wait} ms the listener is {}", if dropped { "dropped" } else { "closed" }));
    s.nontrivial(!states.is_empty());
    s.label_if(states.contains(&St::Busy), "busy");
    s.label_if(dropped, "dropped");
    run(how.threads, async move {
        let (mut l, at) = how.listener().await?;
        let bound = l.local_addr().unwrap();
        l.listen().await;
        let mut clients: Vec<(St, Arc<RaknetSocket>)> = vec![];
        let mut served: Vec<Arc<RaknetSocket>> = vec![];
        let stop = Arc::new(AtomicBool::new(false));
        let mut busy = vec![];
        for (i, st) in states.iter().enumerate() {
            if *st == St::Late {
                continue;
            }
            let c = Arc::new(long("connect", RaknetSocket::connect(&at)).await?.map_err(|e| format!("connect: {e:?}"))?);
            if i < accept {
                let a = Arc::new(long("accept", l.accept()).await?.map_err(|e| format!("accept: {e:?}"))?);
                if *st != St::Dropped {
                    served.push(a.clone());
                }
                if *st == St::Busy {
                    busy.push(tokio::spawn(talk(a, i, 1, stop.clone())));
                }
            }
            if *st == St::Busy {
                busy.push(tokio::spawn(talk(c.clone(), i, 0, stop.clone())));
            }
            clients.push((*st, c));
        }
        tokio::time::sleep(Duration::from_millis(wait)).await;
        let mut late = vec![];
        for st in states.iter() {
            if *st == St::Late {
                late.push(tokio::spawn(async move { RaknetSocket::connect(&at).await }));
            }
        }
        let mut live = vec![];
        for (st, c) in clients {
            match st {
                St::Gone => drop(c),
                St::Closed => {
                    long("close of a client", c.close()).await?.map_err(|e| format!("close: {e:?}"))?;
                    live.push(c);
                }
                _ => live.push(c),
            }
        }
        if dropped {
            drop(l);
        } else {
            long("close of the listener", l.close()).await?.map_err(|e| format!("close: {e:?}"))?;
            if !matches!(long("accept after close", l.accept()).await?, Err(RaknetError::NotListen)) {
                return Err("accept on a closed listener did not return NotListen".into());
            }
            long("second close", l.close()).await?.map_err(|e| format!("second close: {e:?}"))?;
        }
        for (what, ks) in [("an accepted socket", &served), ("a client", &live)] {
            for k in ks {
                let end = async {
                    while k.recv().await.is_ok() {}
                };
                long(&format!("recv of {what} after the listener ended"), end).await?;
                let m = payload(0, 0, 0, 0, 3, 20);
                if !matches!(long("send", k.send(&m, rel(3))).await?, Err(RaknetError::ConnectionClosed)) {
                    return Err(format!("send on {what} did not return ConnectionClosed after the listener ended and recv failed"));
                }
            }
        }
        stop.store(true, Ordering::Relaxed);
        for b in busy {
            long("a task that sends", b).await?.map_err(|e| format!("a task panicked: {e}"))??;
        }
        for c in late {
            // nobody may be there to answer
            match tokio::time::timeout(Duration::from_millis(50), c).await {
                Ok(Err(e)) if e.is_panic() => return Err("connect panicked".into()),
                _ => {}
            }
        }
        drop(served);
        // another process may hold the port for a moment
        let t = Instant::now();
        loop {
            match RaknetListener::bind(&bound).await {
                Ok(_) => return Ok(()),
                Err(e) if t.elapsed() > LONG => return Err(format!("{bound} could not be bound again: {e:?}")),
                Err(_) => tokio::time::sleep(Duration::from_millis(10)).await,
            }
        }
    })
}

async fn talk(k: Arc<RaknetSocket>, n: usize, dir: usize, stop: Arc<AtomicBool>) -> Case {
    let reader = k.clone();
    let r = tokio::spawn(async move { while reader.recv().await.is_ok() {} });
    let mut i = 0;
    while !stop.load(Ordering::Relaxed) {
        match k.send(&payload(n, dir, 0, i % 60_000, 3, [20, 300, 5000][i % 3]), rel(3)).await {
            Ok(()) => {}
            Err(RaknetError::ConnectionClosed) => break,
            Err(e) => return Err(format!("send: {e:?}")),
        }
        i += 1;
        if i % 7 == 0 {
            tokio::time::sleep(Duration::from_millis(3)).await;
        }
    }
    long("recv of a busy end", r).await?.map_err(|e| format!("recv panicked: {e}"))
}
