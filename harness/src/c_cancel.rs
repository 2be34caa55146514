//! Calls that are given up before they return: accept and connect for C13, close of a listener for C17.
use crate::c_conc::{cancel, cancellable, Cancel};
use crate::engine::{no_panics, Case, Src, Sub};
use crate::scenario::*;
use crate::sim::{self, host, now, server_addr, within, Dgram};
use rust_raknet::error::RaknetError;
use rust_raknet::{RaknetListener, RaknetSocket};
use std::collections::{BTreeMap, HashSet};
use std::net::SocketAddr;
use std::sync::{Arc, Mutex};

pub const C13: Sub = Sub {
    name: "interrupted",
    run: shake,
    quick: 8000,
    thorough: 200_000,
    rule: "accept is only ever tried for some polls or milliseconds and connect may be given up and tried again, over a sometimes faulty network; non-trivial if a connect was given up or at least two connections were accepted by interrupted accepts",
};
pub const C17: Sub = Sub {
    name: "interrupted",
    run: close,
    quick: 6000,
    thorough: 100_000,
    rule: "close of a listener with connections in generated states is given up after some polls or milliseconds, up to four times, before it is closed to the end or dropped; non-trivial if it had a connection and a close was given up",
};

/// One client: when it begins, after how long it gives each attempt up, and how many messages it sends.
#[derive(Clone, Debug)]
struct Caller {
    at: u64,
    gives_up: Vec<u64>,
    sends: usize,
}

fn shake(s: &mut Src) -> Case {
    let seed = s.below(1 << 32);
    let yields = s.pick(&[0, 0, 40, 150]);
    let latency = s.pick(&[1u64, 0, 30]);
    let copies = s.pick(&[1usize, 1, 2, 4]);
    let loss = s.pick(&[0u64, 0, 0, 10, 25]);
    let callers: Vec<Caller> = s.list(1, 3, 12, |s, _| Caller {
        at: s.pick(&[0u64, 0, 1, 20, 400, 3000]),
        gives_up: s.list(0, 1, 4, |s, _| s.pick(&[1u64, 0, 2, 5, 7, 61, 100, 150, 300])),
        sends: s.usize(1, 4),
    });
    // how the application waits for connections: each accept is given up, then it does something else
    let modes: Vec<(Cancel, u64)> = s.list(1, 2, 4, |s, _| (cancel(s, 10), s.pick(&[0u64, 1, 7, 50])));
    s.note(format!("latency {latency} ms, {loss} % lost and everything arrives {copies} times during the handshakes; accepts (given up after, pause): {modes:?}; clients: {callers:#?}"));
    s.nontrivial(callers.len() > 1 || callers.iter().any(|c| !c.gives_up.is_empty()));
    s.label_if(callers.iter().any(|c| !c.gives_up.is_empty()), "connect given up");
    sim::run(seed, yields, 400_000, move |w| async move {
        let mut l = listener(&w).await?;
        let dice = Arc::new(Mutex::new(seed));
        w.policy(Some(Box::new(move |d: &Dgram| {
            let mut x = dice.lock().unwrap();
            *x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            if now() < 8000 && (*x >> 33) % 100 < loss {
                return vec![];
            }
            vec![(latency, d.data.clone()); if now() < 8000 { copies } else { 1 }]
        })));
        let abandoned: Arc<Mutex<HashSet<SocketAddr>>> = Default::default();
        let mut tasks = vec![];
        for (i, c) in callers.iter().cloned().enumerate() {
            let (w2, abandoned) = (w.clone(), abandoned.clone());
            tasks.push(tokio::spawn(async move {
                sim::sleep(c.at).await;
                let h = host(10 + i as u8);
                let mut k = None;
                for (n, ms) in c.gives_up.iter().chain([&60_000]).enumerate() {
                    // the port tells the attempts apart
                    let port = 20_000 + i as u16 * 100 + n as u16;
                    w2.next_port(port);
                    let a = SocketAddr::new(h, port);
                    let r = within(*ms, w2.on(h, RaknetSocket::connect(&server_addr()))).await;
                    match r {
                        Some(Ok(x)) => {
                            if x.local_addr().unwrap().port() != port {
                                return Err(format!("client {i}: harness: port {:?} instead of {port}", x.local_addr()));
                            }
                            k = Some((a, x));
                            break;
                        }
                        Some(Err(e)) => return Err(format!("client {i}: connect failed: {e:?}")),
                        None if *ms == 60_000 => return Err(format!("client {i}: connect did not return within 60 s")),
                        None => drop(abandoned.lock().unwrap().insert(a)),
                    }
                }
                let (a, k) = k.unwrap();
                for n in 0..c.sends {
                    k.send(&payload(i, 0, 0, n, 3, 700), rel(3)).await.map_err(|e| format!("client {i}: send {n}: {e:?}"))?;
                }
                Ok((a, k))
            }));
        }
        let mut acc: BTreeMap<SocketAddr, RaknetSocket> = BTreeMap::new();
        let n = callers.len();
        let mut turn = 0usize;
        let mut ends: Vec<(SocketAddr, RaknetSocket)> = vec![];
        let mut done = None;
        loop {
            let (mode, pause) = modes[turn % modes.len()];
            turn += 1;
            match within(200, cancellable(mode, l.accept())).await.flatten() {
                Some(Ok(k)) => {
                    let a = k.peer_addr().unwrap();
                    if acc.insert(a, k).is_some() {
                        return Err(format!("accepted two sockets for the one connection of {a}"));
                    }
                }
                Some(Err(e)) => return Err(format!("accept failed: {e:?}")),
                None => {}
            }
            // a turn must take some time
            sim::sleep(pause + 1).await;
            if done.is_none() && tasks.iter().all(|t| t.is_finished()) {
                for t in std::mem::take(&mut tasks) {
                    ends.push(t.await.map_err(|_| "a client task panicked".to_string())??);
                }
                done = Some(now());
            }
            if done.is_some_and(|t| now() > t + 1500 || turn > 200_000) {
                break;
            }
        }
        no_panics()?;
        if let Some(e) = ends.iter().find(|e| !acc.contains_key(&e.0)) {
            return Err(format!("{n} clients connected, but no accept returned the connection of {}", e.0));
        }
        let gone = abandoned.lock().unwrap().clone();
        if let Some(a) = acc.keys().find(|a| !gone.contains(a) && !ends.iter().any(|e| e.0 == **a)) {
            return Err(format!("accepted a connection of {a}, where no client was"));
        }
        // every connection carries messages
        for (i, (a, c)) in ends.iter().enumerate() {
            let k = &acc[a];
            for m in 0..callers[i].sends {
                match within(20_000, k.recv()).await {
                    Some(Ok(x)) if x == payload(i, 0, 0, m, 3, 700) => {}
                    x => return Err(format!("client {i}: message {m} was received as {:?}", x.map(|r| r.map(|m| brief(&m)).map_err(|e| es(&e))))),
                }
            }
            let m = payload(i, 1, 0, 0, 3, 3000);
            k.send(&m, rel(3)).await.map_err(|e| format!("send on the accepted socket of client {i}: {e:?}"))?;
            match within(20_000, c.recv()).await {
                Some(Ok(x)) if x == m => {}
                x => return Err(format!("client {i}: the listener's message was received as {:?}", x.map(|r| r.map(|m| brief(&m)).map_err(|e| es(&e))))),
            }
        }
        // nothing is left of an attempt that was given up
        let t0 = now();
        for a in &gone {
            if w.bound(*a) {
                sim::sleep((t0 + 90_000).saturating_sub(now())).await;
                if w.bound(*a) {
                    return Err(format!("the socket of the connect that was given up at {a} is still open 90 s later"));
                }
            }
            if let Some(k) = acc.get(a) {
                match within((t0 + 80_000).saturating_sub(now()).max(1000), k.recv()).await {
                    Some(Err(RaknetError::ConnectionClosed | RaknetError::SocketError)) => {}
                    x => return Err(format!("recv on the connection of {a}, whose connect was given up: {:?}", x.map(|r| r.map(|m| brief(&m)).map_err(|e| es(&e))))),
                }
            }
        }
        no_panics()
    })
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Idle,
    Busy,
    NotAccepted,
    Dropped,
    Dead,
}

fn close(s: &mut Src) -> Case {
    let seed = s.below(1 << 32);
    let yields = s.pick(&[0, 0, 64]);
    let latency = s.pick(&[1u64, 0, 20]);
    let listened = !s.chance(1, 12);
    let states: Vec<St> = if listened { s.list(0, 2, 6, |s, _| s.pick(&[St::Idle, St::Busy, St::NotAccepted, St::Dropped, St::Dead])) } else { vec![] };
    let tries: Vec<(Cancel, u64, bool)> = s.list(1, 1, 4, |s, _| {
        let c = match s.weighted(&[2, 2]) {
            0 => Cancel::Polls(s.int(1, 4)),
            _ => Cancel::Ms(s.pick(&[0u64, 1, 20, 49, 51, 120, 900])),
        };
        (c, s.pick(&[0u64, 0, 1, 49, 51, 300, 3000]), s.chance(1, 3))
    });
    let dropped = s.chance(1, 4);
    s.note(format!(
        "latency {latency}, listened {listened}, connections {states:?}; closes (given up after, pause, other calls in between): {tries:?}; then the listener is {}",
        if dropped { "dropped" } else { "closed" }
    ));
    s.nontrivial(!states.is_empty());
    s.label_if(dropped, "dropped");
    s.label_if(!listened, "never listened");
    sim::run(seed, yields, 400_000, move |w| async move {
        let mut l = w.on(host(1), RaknetListener::bind(&server_addr())).await.map_err(|e| format!("bind: {e:?}"))?;
        if listened {
            l.listen().await;
        }
        w.latency(latency);
        let dead: Arc<Mutex<HashSet<SocketAddr>>> = Default::default();
        let dead2 = dead.clone();
        w.policy(Some(Box::new(move |d: &Dgram| {
            let g = dead2.lock().unwrap();
            if g.contains(&d.src) || g.contains(&d.dst) {
                return vec![];
            }
            vec![(latency, d.data.clone())]
        })));
        let mut accepted: Vec<(St, Arc<RaknetSocket>)> = vec![];
        let mut clients: Vec<(St, Arc<RaknetSocket>)> = vec![];
        let mut order: Vec<(usize, St)> = states.iter().copied().enumerate().collect();
        order.sort_by_key(|x| x.1 == St::NotAccepted);
        for (i, st) in order {
            let h = 10 + i as u8;
            if st == St::NotAccepted {
                let c = within(10_000, w.on(host(h), RaknetSocket::connect(&server_addr()))).await.ok_or("connect did not return within 10 s")?.map_err(|e| format!("connect: {e:?}"))?;
                clients.push((st, Arc::new(c)));
                continue;
            }
            let (c, k) = pair(&w, &mut l, h).await?;
            let (c, k) = (Arc::new(c), Arc::new(k));
            match st {
                St::Busy => {
                    for n in 0..30 {
                        c.send(&payload(i, 0, 0, n, 3, 2000), rel(3)).await.map_err(|e| format!("send: {e:?}"))?;
                        k.send(&payload(i, 1, 0, n, 3, 2000), rel(3)).await.map_err(|e| format!("send: {e:?}"))?;
                    }
                }
                St::Dead => drop(dead.lock().unwrap().insert(k.peer_addr().unwrap())),
                _ => {}
            }
            clients.push((st, c));
            if st != St::Dropped {
                accepted.push((st, k));
            }
        }
        let t0 = now();
        let mut finished = false;
        for (i, (c, pause, calls)) in tries.iter().enumerate() {
            match within(2000, cancellable(*c, l.close())).await.flatten() {
                None => {}
                Some(Ok(())) => {
                    finished = true;
                    if w.bound(server_addr()) {
                        return Err(format!("close {i} returned Ok, but the address is still bound"));
                    }
                }
                Some(Err(e)) => return Err(format!("close {i}: {e:?}")),
            }
            no_panics()?;
            sim::sleep(*pause).await;
            if *calls {
                // unaccepted connections may still be handed out before the listener is closed to the end
                match within(1000, l.accept()).await {
                    Some(Err(RaknetError::NotListen)) => {}
                    Some(Ok(_)) if !finished => {}
                    x => return Err(format!("accept after close {i}: {:?}", x.map(|r| r.map(|_| "a socket")))),
                }
                let _ = l.local_addr();
                within(1000, l.get_motd()).await.ok_or("get_motd did not return")?;
                let _ = l.set_full_motd("x".into());
                within(1000, l.listen()).await.ok_or("listen on the closed listener did not return")?;
                within(1000, l.get_peer_raknet_version(&server_addr())).await.ok_or("get_peer_raknet_version did not return")?.map_err(|e| format!("get_peer_raknet_version: {e:?}"))?;
            }
            no_panics()?;
        }
        if dropped {
            drop(l);
            sim::sleep(5000).await;
            if w.bound(server_addr()) {
                return Err("the address is still bound 5 s after the listener, whose close had been given up, was dropped".into());
            }
        } else {
            match within(30_000, l.close()).await {
                None => return Err(format!("close, given up {} times before, did not return within 30 s", tries.len())),
                Some(Err(e)) => return Err(format!("close: {e:?}")),
                Some(Ok(())) => {}
            }
            if w.bound(server_addr()) {
                return Err(format!("close, given up {} times before, returned Ok, but the address is still bound", tries.len()));
            }
            match within(1000, l.accept()).await {
                Some(Err(RaknetError::NotListen)) => {}
                x => return Err(format!("accept on the closed listener: {:?}", x.map(|r| r.map(|_| "a socket")))),
            }
            match within(1000, l.close()).await {
                Some(Ok(())) => {}
                x => return Err(format!("another close of the closed listener: {x:?}")),
            }
        }
        no_panics()?;
        for (st, k) in &accepted {
            match within(1000, k.send(&payload(1, 1, 9, 0, 3, 20), rel(3))).await {
                Some(Err(RaknetError::ConnectionClosed)) => {}
                x => return Err(format!("send on an accepted socket ({st:?}) of the closed listener: {x:?}")),
            }
        }
        // the address can be used
        let mut l2 = listener(&w).await?;
        let (a, b) = pair(&w, &mut l2, 3).await?;
        let m = payload(7, 0, 0, 0, 3, 2000);
        a.send(&m, rel(3)).await.map_err(|e| format!("send over the new listener: {e:?}"))?;
        match within(2000, b.recv()).await {
            Some(Ok(x)) if x == m => {}
            x => return Err(format!("recv over the new listener: {:?}", x.map(|r| r.map(|m| m.len())))),
        }
        sim::sleep((t0 + 8000).saturating_sub(now())).await;
        for (st, c) in clients.iter().filter(|c| c.0 != St::Dead) {
            match within(1000, c.send(&payload(1, 0, 9, 1, 0, 20), rel(0))).await {
                Some(Err(RaknetError::ConnectionClosed)) => {}
                x => return Err(format!("send on a client ({st:?}) {} ms after its listener was first closed: {x:?}", now() - t0)),
            }
        }
        no_panics()
    })
}
