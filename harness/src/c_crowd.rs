//! Many connections of one listener at once, for C04, C13 and C18.
use crate::engine::{no_panics, Case, Src, Sub};
use crate::scenario::*;
use crate::sim::{self, host, now, server_addr, within, Dgram};
use rust_raknet::RaknetSocket;
use std::collections::{HashMap, HashSet};
use std::net::SocketAddr;
use std::sync::{Arc, Mutex};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Fate {
    Stays,
    Closes,
    Drops,
    Vanishes,
    NeverReads,
    Floods,
    ServerCloses,
    ServerDrops,
}

#[derive(Clone, Copy, PartialEq, Eq)]
enum What {
    Integrity,
    Handshake,
    Isolation,
}

pub const C04: Sub = Sub {
    name: "crowd",
    run: c04_crowd,
    quick: 2000,
    thorough: 8000,
    rule: "8 to 300 connections of one listener at once, some of which close, die, flood or are never read; non-trivial if at least 20 carried traffic",
};
pub const C13: Sub = Sub {
    name: "crowd",
    run: c13_crowd,
    quick: 2000,
    thorough: 8000,
    rule: "8 to 300 clients of either version connecting to one listener within two seconds over a possibly faulty network; non-trivial if there were at least 20 and both versions occurred",
};
pub const C18: Sub = Sub {
    name: "crowd",
    run: c18_crowd,
    quick: 2000,
    thorough: 8000,
    rule: "8 to 300 connections of one listener at once, most of which close, die, flood or are never read while the others go on; non-trivial if at least 10 misbehaved and one went on",
};

fn c04_crowd(s: &mut Src) -> Case {
    crowd(s, What::Integrity)
}
fn c13_crowd(s: &mut Src) -> Case {
    crowd(s, What::Handshake)
}
fn c18_crowd(s: &mut Src) -> Case {
    crowd(s, What::Isolation)
}

struct Member {
    addr: SocketAddr,
    sock: Option<Arc<RaknetSocket>>,
    log: Log,
}

fn crowd(s: &mut Src, what: What) -> Case {
    let seed = s.below(1 << 32);
    let yields = s.pick(&[0, 0, 16]);
    let latency = s.pick(&[1u64, 0, 5, 40]);
    let n = match s.weighted(&[6, 3, 1]) {
        0 => s.usize(8, 40),
        1 => s.usize(40, 110),
        _ => s.usize(110, 300),
    };
    let faults = match what {
        What::Handshake => Faults::gen(s),
        _ => Faults::default(),
    };
    let same_port = s.chance(1, 2);
    let spread = s.pick(&[0u64, 100, 2000]);
    let accept_pause = s.pick(&[0u64, 0, 5, 40]);
    let fates: Vec<Fate> = match what {
        What::Handshake => vec![Fate::Stays],
        _ => s.list(1, 4, 8, |s, _| {
            s.pick(&[Fate::Stays, Fate::Closes, Fate::Drops, Fate::Vanishes, Fate::NeverReads, Fate::Floods, Fate::ServerCloses, Fate::ServerDrops])
        }),
    };
    let versions: Vec<u8> = s.pick(&[vec![10], vec![10, 11], vec![11, 10, 10], vec![11]]);
    let salt = s.below(1 << 32);
    let fate = move |i: usize| if i == 0 { Fate::Stays } else { fates[(crate::engine::mix(salt ^ i as u64) % fates.len() as u64) as usize] };
    let acts: Vec<Act> = {
        let t = Traffic { classes: vec![3, 2, 3, 0, 1, 4], tiny: None, mtu: 1400, max_big: 5000, avg: 4, max: 8, flushes: false };
        let mut a = gen_acts(s, &t);
        a.push(Act::Send { class: 3, size: 30 });
        a
    };
    let ends_at = s.pick(&[300u64, 1000, 3000]);
    let bad = (0..n).filter(|i| fate(*i) != Fate::Stays).count();
    s.note(format!(
        "{n} clients within {spread} ms, one port number {same_port}, versions {versions:?}, latency {latency}, yields {yields}, {}; accept every {accept_pause} ms; {bad} misbehave after {ends_at} ms: {:?}; each end: {}",
        faults.describe(),
        (0..n).map(&fate).collect::<Vec<_>>(),
        describe_acts(&acts)
    ));
    s.label_if(n > 100, "more than 100 connections");
    s.label_if(same_port, "clients share a port number");
    s.nontrivial(match what {
        What::Integrity => n >= 20,
        What::Handshake => n >= 20 && versions.len() > 1,
        What::Isolation => bad >= 10 && n > bad,
    });
    sim::run(seed, yields, 300_000, move |w| async move {
        let mut l = listener(&w).await?;
        let gone: Arc<Mutex<HashSet<SocketAddr>>> = Default::default();
        let mut net = faults.policy(server_addr(), 0, latency, None);
        let dead = gone.clone();
        w.policy(Some(Box::new(move |d: &Dgram| {
            let g = dead.lock().unwrap();
            if g.contains(&d.src) || g.contains(&d.dst) {
                return vec![];
            }
            drop(g);
            net(d)
        })));
        // clients
        let limit = faults.until + 30_000 + spread + latency * 20;
        let mut tasks = vec![];
        let mut addrs = vec![];
        for i in 0..n {
            let (h, port) = if same_port { (host(2 + (i % 250) as u8), 45_000 + (i / 250) as u16) } else { (host(2 + (i % 3) as u8), 20_000 + i as u16) };
            addrs.push(SocketAddr::new(h, port));
            let v = versions[i % versions.len()];
            let start = if spread == 0 { 0 } else { crate::engine::mix(salt ^ 7 ^ i as u64) % spread };
            let w2 = w.clone();
            let f = async move {
                sim::sleep(start).await;
                w2.next_port(port);
                w2.on(h, within(limit, RaknetSocket::connect_with_version(&server_addr(), v))).await
            };
            tasks.push(tokio::spawn(f));
        }
        // the server application
        let members: Arc<Mutex<Vec<Member>>> = Default::default();
        let (m2, acts2) = (members.clone(), acts.clone());
        let index: HashMap<SocketAddr, usize> = addrs.iter().enumerate().map(|(i, a)| (*a, i)).collect();
        let (fate2, index2) = (fate.clone(), index.clone());
        let started: Arc<Mutex<Option<u64>>> = Default::default();
        let st = started.clone();
        let acceptor = tokio::spawn(async move {
            while let Ok(k) = l.accept().await {
                let k = Arc::new(k);
                let addr = k.peer_addr().unwrap();
                let log = Log::default();
                m2.lock().unwrap().push(Member { addr, sock: Some(k.clone()), log: log.clone() });
                let Some(i) = index2.get(&addr).copied() else { continue };
                let fate = fate2(i);
                log.lock().unwrap().pending = 1;
                if !matches!(fate, Fate::NeverReads | Fate::ServerDrops) {
                    collect(k.clone(), log.clone());
                }
                let st = st.clone();
                let acts = acts2.clone();
                let m3 = m2.clone();
                tokio::spawn(async move {
                    while st.lock().unwrap().is_none() {
                        sim::sleep(20).await;
                    }
                    perform(k.clone(), log.clone(), i, 1, 0, acts).await;
                    sim::sleep(ends_at).await;
                    match fate {
                        Fate::ServerCloses => {
                            let _ = k.close().await;
                        }
                        Fate::ServerDrops => {
                            for m in m3.lock().unwrap().iter_mut().filter(|m| m.addr == addr) {
                                m.sock = None;
                            }
                        }
                        _ => {}
                    }
                });
                sim::sleep(accept_pause).await;
            }
            "accept failed"
        });
        let mut clients = vec![];
        for (i, t) in tasks.into_iter().enumerate() {
            match t.await {
                Err(_) => {
                    no_panics()?;
                    return Err(format!("client {i}: connect panicked"));
                }
                Ok(None) => return Err(format!("client {i} of {n}: connect was still waiting {limit} ms after its start")),
                Ok(Some(Err(e))) => return Err(format!("client {i} of {n}: connect failed: {e:?}")),
                Ok(Some(Ok(c))) => clients.push(Arc::new(c)),
            }
        }
        let wait = n as u64 * accept_pause + 3000 + latency * 10 + if faults.none() { 0 } else { faults.until + 5000 };
        sim::sleep(wait).await;
        no_panics()?;
        if acceptor.is_finished() {
            return Err("accept failed".into());
        }
        {
            let m = members.lock().unwrap();
            if what == What::Handshake || what == What::Isolation {
                if m.len() != n {
                    return Err(format!("{n} connects succeeded but {} sockets were accepted", m.len()));
                }
                for (i, a) in addrs.iter().enumerate() {
                    if m.iter().filter(|m| m.addr == *a).count() != 1 {
                        return Err(format!("client {i} at {a} matches {} accepted sockets", m.iter().filter(|m| m.addr == *a).count()));
                    }
                }
            }
            if what == What::Handshake {
                for k in m.iter() {
                    let i = index[&k.addr];
                    let v = versions[i % versions.len()];
                    let (sv, cv) = (k.sock.as_ref().unwrap().raknet_version().unwrap(), clients[i].raknet_version().unwrap());
                    if sv != v || cv != v {
                        return Err(format!("client {i} asked for version {v}; its socket says {cv}, the accepted one {sv}"));
                    }
                }
            }
        }
        // traffic
        let logs: Vec<Log> = (0..n).map(|_| Log::default()).collect();
        *started.lock().unwrap() = Some(now());
        let t0 = now();
        let mut held: Vec<Option<Arc<RaknetSocket>>> = clients.into_iter().map(Some).collect();
        for i in 0..n {
            let c = held[i].clone().unwrap();
            if !matches!(fate(i), Fate::NeverReads | Fate::Drops) {
                collect(c.clone(), logs[i].clone());
            }
            logs[i].lock().unwrap().pending = 1;
            let mut acts = acts.clone();
            if fate(i) == Fate::Floods {
                acts = (0..150).map(|_| Act::Send { class: 3, size: 900 }).chain(acts).collect();
            }
            tokio::spawn(perform(c, logs[i].clone(), i, 0, 0, acts));
        }
        sim::sleep(ends_at).await;
        for i in 0..n {
            let c = held[i].clone().unwrap();
            match fate(i) {
                Fate::Closes => {
                    let _ = c.close().await;
                }
                Fate::Drops => held[i] = None,
                Fate::Vanishes => {
                    gone.lock().unwrap().insert(addrs[i]);
                }
                _ => {}
            }
        }
        let server: HashMap<SocketAddr, Log> = members.lock().unwrap().iter().map(|m| (m.addr, m.log.clone())).collect();
        if what == What::Isolation {
            // meanwhile
            let begin = now();
            match within(2000, w.on(host(253), RaknetSocket::ping(&server_addr()))).await {
                Some(Ok(_)) => {}
                r => return Err(format!("a ping beside {n} connections gave {r:?}")),
            }
            let before = members.lock().unwrap().len();
            let c = match within(5000, w.on(host(254), RaknetSocket::connect(&server_addr()))).await {
                Some(Ok(c)) => c,
                r => return Err(format!("connecting beside {n} connections gave {:?} after {} ms", r.map(|r| r.err()), now() - begin)),
            };
            sim::sleep(200 + 4 * latency).await;
            if members.lock().unwrap().len() != before + 1 {
                return Err("a new connection was not accepted at once".into());
            }
            drop(c);
        }
        let check = |i: usize, full: bool| -> Case {
            let Some(sl) = server.get(&addrs[i]) else {
                return Err(format!("client {i} at {} has no accepted socket", addrs[i]));
            };
            for d in 0..2 {
                let pair = [logs[i].lock().unwrap(), sl.lock().unwrap()];
                let (a, b) = (&pair[d], &pair[1 - d]);
                let tell = |e: String| format!("connection {i} ({:?}), {} to {}: {e}", fate(i), ["client", "server"][d], ["server", "client"][d]);
                check_integrity(a, b, full).map_err(tell)?;
                if full && what == What::Isolation {
                    check_ordered(a, b, 1, None).map_err(tell)?;
                    check_reliable(a, b, None).map_err(tell)?;
                    if let Some(x) = a.sends.iter().find(|x| x.err.is_some()) {
                        return Err(tell(format!("send #{} failed with {}", x.idx, x.err.as_ref().unwrap())));
                    }
                }
            }
            Ok(())
        };
        let end = t0 + 40_000;
        loop {
            sim::sleep(500).await;
            let late = now() > end;
            let mut open = false;
            for i in 0..n {
                // a connection that nothing happens to must deliver everything
                let full = what != What::Handshake && fate(i) == Fate::Stays;
                let pending = full && (logs[i].lock().unwrap().pending > 0 || server.get(&addrs[i]).map(|l| l.lock().unwrap().pending > 0).unwrap_or(false));
                if pending && !late {
                    open = true;
                } else if let Err(e) = check(i, full) {
                    if late {
                        return Err(e);
                    }
                    open = true;
                }
            }
            if !open {
                break;
            }
        }
        if what == What::Isolation {
            for i in (0..n).filter(|i| fate(*i) == Fate::Stays) {
                for l in [&logs[i], &server[&addrs[i]]] {
                    if let Some((t, e)) = &l.lock().unwrap().recv_err {
                        return Err(format!("connection {i}, which nothing happened to, ended at {t} ms: {e}"));
                    }
                }
            }
        }
        no_panics()
    })
}
