//! Handshakes that take long, and listeners with many of them pending, for C11 and C13.
use crate::engine::{no_panics, Case, Src, Sub};
use crate::peer::Peer;
use crate::scenario::*;
use crate::sim::{self, host, now, server_addr, within, Dgram};
use crate::wire::Packet;
use rust_raknet::error::RaknetError;
use rust_raknet::RaknetSocket;
use std::collections::BTreeMap;
use std::net::SocketAddr;
use std::sync::{Arc, Mutex};

pub const C13_OUTAGE: Sub = Sub {
    name: "outage",
    run: outage,
    quick: 20_000,
    thorough: 100_000,
    rule: "the offline datagrams of the handshake, or some kinds of them, are lost for generated periods of up to an hour; non-trivial if a period of more than 10 s hit a kind that was sent",
};
pub const C11_PENDING: Sub = Sub {
    name: "pending",
    run: pending,
    quick: 200,
    thorough: 2000,
    rule: "up to 30 000 sources ask for a connection within a minute and do not go on, while others connect; non-trivial if there were more than 4000",
};
pub const C13_PENDING: Sub = Sub { quick: 200, thorough: 2000, ..C11_PENDING };

fn outage(s: &mut Src) -> Case {
    let seed = s.below(1 << 32);
    let yields = s.pick(&[0, 0, 32]);
    let latency = s.pick(&[1u64, 0, 30, 250]);
    let clients: Vec<(u8, u64)> = s.list(1, 1, 3, |s, _| (s.pick(&[11, 10, 11, 12]), s.pick(&[0u64, 0, 700])));
    let windows: Vec<(Vec<u8>, u64, u64)> = s.list(1, 2, 3, |s, _| {
        let kinds = match s.weighted(&[2, 2, 1, 1, 1, 1]) {
            0 => vec![8],
            1 => vec![6],
            2 => vec![7],
            3 => vec![5],
            4 => vec![5, 7],
            _ => vec![6, 8],
        };
        let len = match s.weighted(&[2, 3, 3, 3, 1]) {
            0 => s.int(1, 5000),
            1 => s.int(5000, 50_000),
            2 => s.int(50_000, 70_000),
            3 => s.int(70_000, 400_000),
            _ => s.int(400_000, 3_600_000),
        };
        (kinds, if s.chance(2, 3) { 0 } else { s.below(100_000) }, len)
    });
    let until = windows.iter().map(|x| x.1 + x.2).max().unwrap();
    s.note(format!("latency {latency} ms, clients (version, start) {clients:?}; lost (kinds, from ms, for ms): {windows:?}"));
    s.label_if(windows.iter().any(|x| x.2 > 60_000), "more than a minute");
    s.nontrivial(windows.iter().any(|x| x.2 > 10_000 && x.1 < 2000));
    sim::run(seed, yields, until + 600_000, move |w| async move {
        let mut l = listener(&w).await?;
        // client -> (times of the Reply2 that passed, times of the disconnects sent to it)
        type Seen = BTreeMap<SocketAddr, (Vec<u64>, Vec<u64>)>;
        let seen: Arc<Mutex<Seen>> = Default::default();
        let seen2 = seen.clone();
        w.policy(Some(Box::new(move |d: &Dgram| {
            let id = d.data.first().copied().unwrap_or(0);
            if windows.iter().any(|x| x.0.contains(&id) && d.t >= x.1 && d.t < x.1 + x.2) {
                return vec![];
            }
            if d.src == server_addr() {
                let mut m = seen2.lock().unwrap();
                let e = m.entry(d.dst).or_default();
                match id {
                    8 => e.0.push(d.t),
                    0x15 => e.1.push(d.t),
                    _ => {}
                }
            }
            vec![(latency, d.data.clone())]
        })));
        let bound = until + 75_000 + 40 * latency;
        let mut tasks = vec![];
        for (i, (version, start)) in clients.iter().copied().enumerate() {
            w.next_port(41_000 + 10 * i as u16);
            tasks.push(tokio::spawn(w.on(host(10 + i as u8), async move {
                sim::sleep(start).await;
                let r = within(bound, RaknetSocket::connect_with_version(&server_addr(), version)).await;
                r.map(|r| {
                    r.map(|c| {
                        let c = Arc::new(c);
                        let keep = Arc::downgrade(&c);
                        tokio::spawn(async move {
                            // the application keeps it alive while others still try
                            loop {
                                sim::sleep(20_000).await;
                                let Some(c) = keep.upgrade() else { break };
                                let _ = c.send(&payload(9, 0, 0, 0, 0, 20), rel(0)).await;
                            }
                        });
                        c
                    })
                })
            })));
        }
        let accepted: Arc<Mutex<Vec<(RaknetSocket, u8)>>> = Default::default();
        let acc = accepted.clone();
        let acceptor = tokio::spawn(async move {
            loop {
                match l.accept().await {
                    Ok(s) => {
                        let v = l.get_peer_raknet_version(&s.peer_addr().unwrap()).await.unwrap();
                        acc.lock().unwrap().push((s, v));
                    }
                    Err(e) => return es(&e),
                }
            }
        });
        let mut socks = vec![];
        for (i, t) in tasks.into_iter().enumerate() {
            let v = clients[i].0;
            let r = t.await.map_err(|_| format!("client {i}: connect panicked"))?;
            no_panics()?;
            match (r, v) {
                (None, _) => return Err(format!("client {i} (version {v}): connect was still waiting {bound} ms after its start, {} ms after the losses ended", bound - until)),
                (Some(Ok(c)), 10 | 11) => socks.push((i, v, c)),
                (Some(Ok(_)), _) => return Err(format!("client {i}: connect succeeded with unsupported version {v}")),
                (Some(Err(RaknetError::NotSupportVersion)), 12) => {}
                // the session the listener had for it ended just when the reply came
                (Some(Err(RaknetError::ConnectionClosed)), 10 | 11) if seen.lock().unwrap().iter().any(|(a, x)| a.ip() == host(10 + i as u8) && x.0.first().map(|t| x.1.iter().any(|d| d + 1000 >= *t)).unwrap_or(false)) => {}
                (Some(Err(e)), _) => return Err(format!("client {i}: connect with version {v} failed: {e:?}")),
            }
            if now() > until + 20_000 && socks.iter().any(|x| x.0 == i) {
                return Err(format!("client {i}: connect took until {} ms, {} ms after the losses ended", now(), now() - until));
            }
        }
        if now() < until {
            // nothing that comes late may disturb
            sim::sleep(1000).await;
        }
        if acceptor.is_finished() {
            return Err(format!("accept failed: {:?}", acceptor.await));
        }
        let acc = std::mem::take(&mut *accepted.lock().unwrap());
        for (i, v, c) in &socks {
            let me = SocketAddr::new(host(10 + *i as u8), c.local_addr().unwrap().port());
            let mine: Vec<&(RaknetSocket, u8)> = acc.iter().filter(|a| a.0.peer_addr().unwrap() == me).collect();
            let ended = seen.lock().unwrap().get(&me).map(|x| x.1.len()).unwrap_or(0);
            if mine.is_empty() || mine.len() > 1 + ended {
                return Err(format!("client {i}: {} accepted sockets, though {ended} sessions ended before", mine.len()));
            }
            let mut live = vec![];
            for a in mine {
                if !matches!(within(1000, a.0.flush()).await, Some(Err(RaknetError::ConnectionClosed))) {
                    live.push(a);
                }
            }
            if live.len() != 1 {
                return Err(format!("client {i} is connected to {} open accepted sockets", live.len()));
            }
            let k = live[0];
            for (what, x) in [("raknet_version of the client", c.raknet_version().ok()), ("raknet_version of the accepted socket", k.0.raknet_version().ok()), ("get_peer_raknet_version", Some(k.1))] {
                if x != Some(*v) {
                    return Err(format!("client {i} asked for version {v}, but {what} is {x:?}"));
                }
            }
            let c: &RaknetSocket = c;
            for (d, (x, y)) in [(c, &k.0), (&k.0, c)].into_iter().enumerate() {
                let m = payload(*i, d, 0, 0, 3, 700);
                x.send(&m, rel(3)).await.map_err(|e| format!("send on the new connection: {e:?}"))?;
                let got = within(5000, async {
                    loop {
                        match y.recv().await {
                            Ok(r) if r == payload(9, 0, 0, 0, 0, 20) => {}
                            r => break r,
                        }
                    }
                });
                match got.await {
                    Some(Ok(r)) if r == m => {}
                    x => return Err(format!("the first message on the new connection was received as {:?}", x.map(|r| r.map(|m| brief(&m)).map_err(|e| es(&e))))),
                }
            }
        }
        no_panics()
    })
}

fn pending(s: &mut Src) -> Case {
    let seed = s.below(1 << 32);
    let yields = 0;
    let waves: Vec<(u64, u64)> = s.list(1, 2, 4, |s, _| {
        let n = match s.weighted(&[2, 3, 3, 2]) {
            0 => s.int(0, 2000),
            1 => s.int(4085, 4110),
            2 => s.int(4096, 10_000),
            _ => s.pick(&[8190u64, 8192, 8193, 8195, 16_384, 16_390]),
        };
        (n, s.pick(&[0u64, 0, 1000, 30_000, 59_000, 61_000]))
    });
    let same_host = s.chance(1, 4);
    let patient = s.below(waves.len() as u64) as usize;
    let versions = [s.pick(&[10u8, 11]), s.pick(&[11u8, 10])];
    let total: u64 = waves.iter().map(|x| x.0).sum();
    s.note(format!("waves (sources, ms after) {waves:?}{}; a client (version {}) begins before wave {patient} and goes on after it", if same_host { " from one host" } else { "" }, versions[0]));
    s.nontrivial(total > 4000);
    sim::run(seed, yields, 3_000_000, move |w| async move {
        let mut l = listener(&w).await?;
        let (old_c, old_k) = pair(&w, &mut l, 2).await?;
        let mut n = 0u64;
        let mut k = 0;
        for (i, (sources, after)) in waves.iter().copied().enumerate() {
            let mut p = Peer::new(&w, SocketAddr::new(host(5), 700 + i as u16), server_addr());
            if i == patient {
                p.send_pkt(&Packet::Req1 { version: versions[0], pad: 1354 });
                match p.next(1000).await.map(|r| r.pkt) {
                    Some(Ok(Packet::Reply1 { .. })) => {}
                    x => return Err(format!("Request1 before wave {i} was answered with {x:?}")),
                }
            }
            for _ in 0..sources {
                n += 1;
                let ip = if same_host { host(100) } else { host(100 + (n % 50) as u8) };
                let a = SocketAddr::new(ip, 1 + (n / if same_host { 1 } else { 50 } % 60_000) as u16);
                w.inject(n / 200 % 5, a, server_addr(), &Packet::Req1 { version: 10 + (n % 2) as u8, pad: 1 }.encode());
            }
            sim::sleep(10).await;
            no_panics()?;
            if i == patient {
                p.send_pkt(&Packet::Req2 { addr: server_addr(), mtu: 1400, guid: 5 });
                match p.next(1000).await.map(|r| r.pkt) {
                    Some(Ok(Packet::Reply2 { .. })) => {}
                    x => return Err(format!("Request2 after wave {i} was answered with {x:?}")),
                }
                let a = within(1000, l.accept()).await.ok_or(format!("the client that went on after wave {i} was not accepted"))?.map_err(|e| format!("accept: {e:?}"))?;
                for (what, x) in [("raknet_version", a.raknet_version().ok()), ("get_peer_raknet_version", l.get_peer_raknet_version(&p.sock.addr).await.ok())] {
                    if x != Some(versions[0]) {
                        return Err(format!("the client that went on after wave {i} asked for version {}, but {what} is {x:?}", versions[0]));
                    }
                }
            }
            // a new client, a ping and the old connection
            k += 1;
            match within(2000, w.on(host(20), RaknetSocket::ping(&server_addr()))).await {
                Some(Ok(_)) => {}
                x => return Err(format!("a ping after wave {i} gave {x:?}")),
            }
            let v = versions[1];
            let c = match within(3000, w.on(host(6), RaknetSocket::connect_with_version(&server_addr(), v))).await {
                None => return Err(format!("after wave {i}, with {n} sources that asked for a connection, connect did not return within 3 s")),
                Some(r) => r.map_err(|e| format!("connect after wave {i}: {e:?}"))?,
            };
            let a = within(1000, l.accept()).await.ok_or(format!("the new client after wave {i} was not accepted"))?.map_err(|e| format!("accept: {e:?}"))?;
            if (a.raknet_version().ok(), c.raknet_version().ok()) != (Some(v), Some(v)) {
                return Err(format!("the new client after wave {i} asked for version {v}; its end says {:?}, the accepted one {:?}", c.raknet_version(), a.raknet_version()));
            }
            for (d, (x, y)) in [(&c, &a), (&a, &c), (&old_c, &old_k), (&old_k, &old_c)].into_iter().enumerate() {
                let m = payload(k, d & 1, d / 2, i, 3, 900);
                x.send(&m, rel(3)).await.map_err(|e| format!("send after wave {i}: {e:?}"))?;
                match within(1000, y.recv()).await {
                    Some(Ok(r)) if r == m => {}
                    x => return Err(format!("a message after wave {i} was received as {:?}", x.map(|r| r.map(|m| brief(&m)).map_err(|e| es(&e))))),
                }
            }
            drop((c, a));
            // the old connection has no keep-alives of its own
            let mut left = after;
            while left > 0 {
                let t = left.min(20_000);
                sim::sleep(t).await;
                left -= t;
                for x in [&old_c, &old_k] {
                    x.send(&payload(k, 0, 7, 0, 2, 30), rel(2)).await.map_err(|e| format!("send: {e:?}"))?;
                }
                for x in [&old_c, &old_k] {
                    within(1000, x.recv()).await.ok_or("a message on the old connection did not arrive")?.map_err(|e| format!("recv: {e:?}"))?;
                }
            }
        }
        no_panics()
    })
}

// ------------------------------------------------------------------ connections nobody accepts for a while

pub const C13_UNACCEPTED: Sub = Sub {
    name: "unaccepted",
    run: unaccepted,
    quick: 6000,
    thorough: 100_000,
    rule: "up to 40 clients connect, send, flush, and stay, close, drop or vanish before the listener accepts anything; non-trivial if a connection had ended when it was accepted",
};
pub const C15_UNACCEPTED: Sub = C13_UNACCEPTED;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Then {
    Stay,
    Close,
    Drop,
    Vanish,
}

/// One client: when it connects, the (class, size) of what it sends, whether it flushes, what it does then and
/// how long after the last send.
#[derive(Clone, Debug)]
struct Early {
    at: u64,
    sends: Vec<(u8, usize)>,
    flush: bool,
    then: Then,
    pause: u64,
}

fn unaccepted(s: &mut Src) -> Case {
    let seed = s.below(1 << 32);
    let yields = s.pick(&[0, 0, 32]);
    let latency = s.pick(&[1u64, 0, 30]);
    let most = s.pick(&[3, 3, 3, 8, 12, 40]);
    let clients: Vec<Early> = s.list(1, 2, most, |s, _| Early {
        at: s.int(0, 3000),
        sends: s.list(0, 3, 14, |s, _| (s.pick(&[3u8, 3, 2]), s.pick(&[20usize, 8, 900, 4000]))).into_iter().map(|(c, n)| (c, if c == 3 { n } else { n.min(900) })).collect(),
        flush: s.chance(3, 4),
        then: s.pick(&[Then::Stay, Then::Close, Then::Drop, Then::Vanish]),
        pause: s.pick(&[0, 0, 5, 300, 2000]),
    });
    let wait = match s.weighted(&[3, 3, 1]) {
        0 => s.int(0, 1000),
        1 => s.int(1000, 20_000),
        _ => s.int(20_000, 35_000),
    };
    // between the accepts
    let gap = s.pick(&[0u64, 0, 20, 300]);
    s.note(format!("latency {latency} ms; the listener accepts from {wait} ms after the last client's end, every {gap} ms; clients: {clients:#?}"));
    s.nontrivial(clients.iter().any(|c| c.then == Then::Close || c.then == Then::Drop) && wait > 500);
    s.label_if(clients.len() > 10, "more than 10 wait to be accepted");
    s.label_if(clients.iter().any(|c| c.flush && !c.sends.is_empty() && matches!(c.then, Then::Close | Then::Drop)), "ended with flushed messages unread");
    sim::run(seed, yields, 1_000_000, move |w| async move {
        let mut l = listener(&w).await?;
        let gone: Arc<Mutex<Vec<SocketAddr>>> = Default::default();
        let gone2 = gone.clone();
        w.policy(Some(Box::new(move |d: &Dgram| {
            let g = gone2.lock().unwrap();
            if g.contains(&d.src) || g.contains(&d.dst) {
                return vec![];
            }
            vec![(latency, d.data.clone())]
        })));
        let mut tasks = vec![];
        for (i, c) in clients.iter().cloned().enumerate() {
            let gone = gone.clone();
            tasks.push(tokio::spawn(w.on(host(10 + i as u8), async move {
                sim::sleep(c.at).await;
                let k = match within(20_000, RaknetSocket::connect(&server_addr())).await {
                    Some(Ok(k)) => k,
                    Some(Err(e)) => return Err(format!("client {i}: connect failed: {e:?}")),
                    None => return Err(format!("client {i}: connect did not return within 20 s")),
                };
                let me = SocketAddr::new(host(10 + i as u8), k.local_addr().unwrap().port());
                for (n, (class, size)) in c.sends.iter().enumerate() {
                    k.send(&payload(i, 0, 0, n, *class, *size), rel(*class)).await.map_err(|e| format!("client {i}: send {n}: {e:?}"))?;
                }
                if c.flush {
                    match within(30_000, k.flush()).await {
                        Some(Ok(())) => {}
                        r => return Err(format!("client {i}: flush of a connection that waits to be accepted: {r:?}")),
                    }
                }
                sim::sleep(c.pause).await;
                let keep = match c.then {
                    Then::Stay => Some(k),
                    Then::Close => {
                        k.close().await.map_err(|e| format!("client {i}: close: {e:?}"))?;
                        Some(k)
                    }
                    Then::Drop => None,
                    Then::Vanish => {
                        gone.lock().unwrap().push(me);
                        None
                    }
                };
                Ok((me, keep))
            })));
        }
        let mut ends = vec![];
        for t in tasks {
            ends.push(t.await.map_err(|_| "a client task panicked".to_string())??);
        }
        no_panics()?;
        sim::sleep(wait).await;
        let mut acc: BTreeMap<SocketAddr, RaknetSocket> = BTreeMap::new();
        for n in 0..clients.len() {
            match within(3000, l.accept()).await {
                Some(Ok(k)) => {
                    let a = k.peer_addr().unwrap();
                    if !ends.iter().any(|e| e.0 == a) {
                        return Err(format!("accepted a connection of {a}, which is no client"));
                    }
                    if acc.insert(a, k).is_some() {
                        return Err(format!("accepted two sockets for the one connection of {a}"));
                    }
                }
                Some(Err(e)) => return Err(format!("accept of connection {n} failed: {e:?}")),
                None => return Err(format!("{} clients connected but only {n} sockets were accepted", clients.len())),
            }
            sim::sleep(gap).await;
        }
        if let Some(r) = within(1000, l.accept()).await {
            return Err(format!("accept returned once more than clients connected: {:?}", r.map(|k| k.peer_addr().unwrap())));
        }
        sim::sleep(1500).await;
        let mut order: Vec<usize> = (0..clients.len()).collect();
        // those that vanished take a minute to be noticed
        order.sort_by_key(|i| clients[*i].then as u8);
        for i in order {
            let c = &clients[i];
            let k = acc.get(&ends[i].0).ok_or_else(|| format!("no socket was accepted for client {i}"))?;
            let (mut ordered, mut other) = (vec![], vec![]);
            let mut end = None;
            loop {
                match within(if c.then == Then::Stay { 20 } else if c.then == Then::Vanish { 70_000 } else { 15_000 }, k.recv()).await {
                    Some(Ok(m)) => if m.get(1) == Some(&3) { ordered.push(m) } else { other.push(m) },
                    Some(Err(e)) => {
                        end = Some(e);
                        break;
                    }
                    None => break,
                }
            }
            let of = |ordered: bool| -> Vec<Vec<u8>> { c.sends.iter().enumerate().filter(|x| (x.1 .0 == 3) == ordered).map(|(n, (class, size))| payload(i, 0, 0, n, *class, *size)).collect() };
            let (want, mut unordered) = (of(true), of(false));
            let all = c.flush || c.then == Then::Stay;
            if ordered.len() > want.len() || ordered[..] != want[..ordered.len()] || (all && ordered.len() < want.len()) {
                return Err(format!("client {i} ({c:?}): of {} ReliableOrdered messages{} recv of the accepted socket returned {:?}", want.len(), if c.flush { ", all flushed," } else { "" }, ordered.iter().map(|m| brief(m)).collect::<Vec<_>>()));
            }
            for m in &other {
                match unordered.iter().position(|x| x == m) {
                    Some(p) => drop(unordered.remove(p)),
                    None => return Err(format!("client {i} ({c:?}): recv of the accepted socket returned {}, not sent or returned before", brief(m))),
                }
            }
            if all && !unordered.is_empty() {
                return Err(format!("client {i} ({c:?}): {} Reliable messages{} were not returned by recv of the accepted socket", unordered.len(), if c.flush { ", flushed," } else { "" }));
            }
            match (c.then, end) {
                (Then::Stay, None) => {
                    let far = ends[i].1.as_ref().unwrap();
                    for (d, (x, y)) in [(far, k), (k, far)].into_iter().enumerate() {
                        let m = payload(i, d, 1, 0, 3, 300);
                        x.send(&m, rel(3)).await.map_err(|e| format!("client {i}: send on the connection accepted late: {e:?}"))?;
                        match within(5000, y.recv()).await {
                            Some(Ok(g)) if g == m => {}
                            g => return Err(format!("client {i}: a message on the connection accepted late was received as {:?}", g.map(|r| r.map(|m| brief(&m)).map_err(|e| es(&e))))),
                        }
                    }
                }
                (Then::Stay, Some(e)) => return Err(format!("client {i} stayed, but recv of its accepted socket failed: {e:?}")),
                (_, None) => return Err(format!("client {i} ({:?}): recv of the accepted socket did not report the end of the connection", c.then)),
                (_, Some(_)) => match (within(1000, k.send(&payload(i, 1, 0, 0, 3, 20), rel(3))).await, within(1000, k.flush()).await) {
                    (Some(Err(RaknetError::ConnectionClosed)), Some(Err(RaknetError::ConnectionClosed))) => {}
                    x => return Err(format!("client {i} ({:?}): send and flush on the accepted socket of an ended connection: {x:?}", c.then)),
                },
            }
        }
        no_panics()
    })
}
