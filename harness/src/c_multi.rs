//! Several listeners in one process, for C18.
use crate::engine::{no_panics, Case, Src, Sub};
use crate::scenario::*;
use crate::sim::{self, host, now, within, Dgram};
use crate::wire::Packet;
use rust_raknet::error::RaknetError;
use rust_raknet::{RaknetListener, RaknetSocket};
use std::collections::{HashMap, HashSet};
use std::net::SocketAddr;
use std::sync::{Arc, Mutex};

pub const C18: Sub = Sub {
    name: "listeners",
    run: listeners,
    quick: 20_000,
    thorough: 200_000,
    rule: "two to four listeners in one process, with clients of generated versions at each, the same sources speaking to several, and listeners and connections ending while others go on; non-trivial if a listener or connection ended while another had a connection",
};

#[derive(Clone, Copy, PartialEq, Debug)]
enum Op {
    /// connect a client of that version to a listener
    /// ...; meanwhile, so many ms later, another one hears a request for the other version from the same source
    Connect(usize, u8, Option<u64>),
    /// (by position, modulo how many are left) exchange messages of that class and size
    Talk(usize, u8, usize),
    TalkAll(u8, usize),
    Close(usize, bool, bool),
    /// the source of a connection sends an offline datagram to another listener
    Also(usize, usize, u8),
    Motd(usize),
    Ping(usize),
    /// close (or drop) a listener, and bind a new one there
    End(usize, bool),
    Wait(u64),
}

struct Pair {
    at: usize,
    client: Arc<RaknetSocket>,
    server: Arc<RaknetSocket>,
    addr: SocketAddr,
    id: usize,
    version: u8,
    sent: usize,
}

async fn talk(p: &mut Pair, class: u8, size: usize) -> Result<(), String> {
    for d in 0..2 {
        let (from, to) = if d == 0 { (&p.client, &p.server) } else { (&p.server, &p.client) };
        let m = payload(p.id, d, 0, p.sent, class, size);
        within(1000, from.send(&m, rel(class))).await.ok_or("send did not return")?.map_err(|e| format!("connection {} (listener {}): send by the {}: {e:?}", p.id, p.at, ["client", "accepted socket"][d]))?;
        match within(5000, to.recv()).await {
            Some(Ok(x)) if x == m => {}
            x => return Err(format!("connection {} (listener {}): {} sent by the {} was received as {:?}", p.id, p.at, brief(&m), ["client", "accepted socket"][d], x.map(|r| r.map(|m| brief(&m)).map_err(|e| es(&e))))),
        }
    }
    p.sent += 1;
    Ok(())
}

fn listeners(s: &mut Src) -> Case {
    let seed = s.below(1 << 32);
    let yields = s.pick(&[0, 0, 64]);
    let latency = s.pick(&[1u64, 0, 20]);
    let n = s.usize(2, 4);
    // on one host, or the same port on several hosts
    let one_host = s.chance(1, 2);
    let ops: Vec<Op> = s.list(3, 10, 30, |s, _| {
        let class_size = |s: &mut Src| {
            let c = s.pick(&[3u8, 3, 2, 0, 1, 4]);
            (c, if c == 3 { s.pick(&[30usize, 5000, 900]) } else { s.pick(&[30usize, 900]) })
        };
        match s.weighted(&[5, 4, 2, 3, 3, 1, 2, 2, 2]) {
            0 => Op::Connect(s.usize(0, n - 1), s.pick(&[10, 11]), if s.chance(1, 2) { Some(s.int(0, 80)) } else { None }),
            1 => {
                let (c, z) = class_size(s);
                Op::Talk(s.usize(0, 9), c, z)
            }
            2 => {
                let (c, z) = class_size(s);
                Op::TalkAll(c, z)
            }
            3 => Op::Close(s.usize(0, 9), s.chance(1, 2), s.chance(1, 2)),
            4 => Op::Also(s.usize(0, 9), s.usize(0, n - 1), s.below(6) as u8),
            5 => Op::Motd(s.usize(0, n - 1)),
            6 => Op::Ping(s.usize(0, n - 1)),
            7 => Op::End(s.usize(0, n - 1), s.chance(1, 3)),
            _ => Op::Wait(s.pick(&[1u64, 30, 300, 5000])),
        }
    });
    s.note(format!("latency {latency}; {n} listeners {}; {ops:?}", if one_host { "on one host" } else { "with the same port on several hosts" }));
    let first = ops.iter().position(|o| matches!(o, Op::Connect(..)));
    s.nontrivial(first.is_some_and(|f| ops[f..].iter().any(|o| matches!(o, Op::Close(..) | Op::End(..)))));
    s.label_if(ops.iter().any(|o| matches!(o, Op::End(..))), "a listener ends");
    s.label_if(ops.iter().any(|o| matches!(o, Op::Also(..))), "one source at several listeners");
    sim::run(seed, yields, 600_000, move |w| async move {
        let lost: Arc<Mutex<HashSet<(SocketAddr, SocketAddr)>>> = Default::default();
        let lost2 = lost.clone();
        w.policy(Some(Box::new(move |d: &Dgram| if lost2.lock().unwrap().contains(&(d.src, d.dst)) { vec![] } else { vec![(latency, d.data.clone())] })));
        let addr = |i: usize| if one_host { SocketAddr::new(host(1), 19132 + i as u16) } else { SocketAddr::new(host(101 + i as u8), 19132) };
        let mut ls: Vec<Option<RaknetListener>> = vec![];
        for i in 0..n {
            let mut l = w.on(addr(i).ip(), RaknetListener::bind(&addr(i))).await.map_err(|e| format!("bind of listener {i}: {e:?}"))?;
            l.set_full_motd(format!("MCPE;listener {i}")).map_err(|e| format!("set_full_motd: {e:?}"))?;
            l.listen().await;
            ls.push(Some(l));
        }
        let mut motds: Vec<String> = (0..n).map(|i| format!("MCPE;listener {i}")).collect();
        let mut ids: HashMap<usize, u64> = HashMap::new();
        let mut pairs: Vec<Pair> = vec![];
        let mut made = 0;
        // (source, listener) that have a session which no application asked for
        let mut half: Vec<(SocketAddr, usize)> = vec![];
        let mut beat = now();
        let pinger = w.raw(SocketAddr::new(host(99), 7));
        for op in ops {
            match op {
                Op::Wait(ms) => sim::sleep(ms).await,
                Op::Connect(i, v, also) => {
                    let l = ls[i].as_mut().unwrap();
                    let h = host(10 + (made % 5) as u8);
                    let port = 30_000 + made as u16;
                    w.next_port(port);
                    let a = SocketAddr::new(h, port);
                    if let Some(ms) = also {
                        // its reply is lost: a client takes the first reply for the server's, wherever it comes from
                        lost.lock().unwrap().insert((addr((i + 1) % n), a));
                        w.inject(ms, a, addr((i + 1) % n), &Packet::Req1 { version: 21 - v, pad: 1354 }.encode());
                    }
                    let c = within(20_000, w.on(h, RaknetSocket::connect_with_version(&addr(i), v))).await.ok_or(format!("connect to listener {i} did not return within 20 s"))?.map_err(|e| format!("connect to listener {i}: {e:?}"))?;
                    let k = loop {
                        let k = within(5000, l.accept()).await.ok_or(format!("listener {i} did not accept the connection of {a}"))?.map_err(|e| format!("accept: {e:?}"))?;
                        let p = k.peer_addr().unwrap();
                        if p == a {
                            break k;
                        }
                        if !half.contains(&(p, i)) {
                            return Err(format!("listener {i} accepted a connection of {p}, which never spoke to it"));
                        }
                    };
                    let got = (c.raknet_version().map_err(|e| format!("{e:?}"))?, k.raknet_version().map_err(|e| format!("{e:?}"))?);
                    if got != (v, v) {
                        return Err(format!("connection {made} asked listener {i} for version {v}, the ends say {got:?}"));
                    }
                    pairs.push(Pair { at: i, client: Arc::new(c), server: Arc::new(k), addr: a, id: made, version: v, sent: 0 });
                    made += 1;
                }
                Op::Talk(k, class, size) => {
                    if !pairs.is_empty() {
                        let k = k % pairs.len();
                        talk(&mut pairs[k], class, size).await?;
                    }
                }
                Op::TalkAll(class, size) => {
                    for p in &mut pairs {
                        talk(p, class, size).await?;
                    }
                }
                Op::Close(k, client, drop) => {
                    if !pairs.is_empty() {
                        let p = pairs.swap_remove(k % pairs.len());
                        let (x, y) = if client { (p.client, p.server) } else { (p.server, p.client) };
                        if !drop {
                            within(1000, x.close()).await.ok_or("close did not return")?.map_err(|e| format!("close: {e:?}"))?;
                        }
                        std::mem::drop(x);
                        match within(15_000, y.recv()).await {
                            Some(Err(_)) => {}
                            r => return Err(format!("recv after the other end of connection {} was closed: {:?}", p.id, r.map(|r| r.map(|m| brief(&m)).map_err(|e| es(&e))))),
                        }
                    }
                }
                Op::Also(k, i, what) => {
                    if pairs.is_empty() {
                        continue;
                    }
                    let p = &pairs[k % pairs.len()];
                    if p.at == i {
                        continue;
                    }
                    let d = match what {
                        0 => Packet::Req1 { version: 21 - p.version, pad: 1354 }.encode(),
                        1 | 2 => {
                            half.push((p.addr, i));
                            w.inject(0, p.addr, addr(i), &Packet::Req1 { version: 21 - p.version, pad: 1354 }.encode());
                            Packet::Req2 { addr: addr(i), mtu: 576, guid: 4 }.encode()
                        }
                        3 => vec![0x15],
                        4 => Packet::Ack(vec![(0, 100)]).encode(),
                        _ => Packet::Ping { id: 1, time: 4, guid: 5 }.encode(),
                    };
                    w.inject(1, p.addr, addr(i), &d);
                    sim::sleep(latency + 5).await;
                }
                Op::Motd(i) => {
                    motds[i] = format!("MCPE;listener {i} at {}", now());
                    ls[i].as_mut().unwrap().set_full_motd(motds[i].clone()).map_err(|e| format!("set_full_motd: {e:?}"))?;
                }
                Op::Ping(i) => {
                    while pinger.try_recv().is_some() {}
                    pinger.send(addr(i), &Packet::Ping { id: 1, time: 3, guid: 4 }.encode());
                    let (_, d) = within(2 * latency + 200, pinger.recv()).await.ok_or(format!("listener {i} did not answer a ping"))?;
                    match Packet::decode(&d) {
                        Ok(Packet::Pong { guid, motd, .. }) => {
                            if motd != motds[i].as_bytes() {
                                return Err(format!("listener {i} answered a ping with {:?} instead of {:?}", String::from_utf8_lossy(&motd), motds[i]));
                            }
                            if *ids.entry(i).or_insert(guid) != guid {
                                return Err(format!("the server id of listener {i} changed"));
                            }
                        }
                        x => return Err(format!("listener {i} answered a ping with {x:?}")),
                    }
                }
                Op::End(i, dropped) => {
                    let mut l = ls[i].take().unwrap();
                    if dropped {
                        drop(l);
                        sim::sleep(5000).await;
                    } else {
                        within(30_000, l.close()).await.ok_or(format!("close of listener {i} did not return within 30 s"))?.map_err(|e| format!("close of listener {i}: {e:?}"))?;
                    }
                    let (ended, rest): (Vec<Pair>, Vec<Pair>) = pairs.into_iter().partition(|p| p.at == i);
                    pairs = rest;
                    half.retain(|h| h.1 != i);
                    for p in ended {
                        match within(1000, p.server.send(&payload(p.id, 1, 9, 0, 3, 20), rel(3))).await {
                            Some(Err(RaknetError::ConnectionClosed)) => {}
                            x => return Err(format!("send on accepted socket {} of the closed listener {i}: {x:?}", p.id)),
                        }
                        match within(15_000, p.client.recv()).await {
                            Some(Err(_)) => {}
                            r => return Err(format!("recv of client {} after its listener {i} ended: {:?}", p.id, r.map(|r| r.map(|m| brief(&m)).map_err(|e| es(&e))))),
                        }
                    }
                    // what is still on its way must not reach the next listener there
                    sim::sleep(1000).await;
                    ids.remove(&i);
                    let mut l = w.on(addr(i).ip(), RaknetListener::bind(&addr(i))).await.map_err(|e| format!("bind in place of listener {i}: {e:?}"))?;
                    motds[i] = format!("MCPE;listener {i} again");
                    l.set_full_motd(motds[i].clone()).map_err(|e| format!("set_full_motd: {e:?}"))?;
                    l.listen().await;
                    ls[i] = Some(l);
                }
            }
            no_panics()?;
            // no connection is silent for a minute
            if now() > beat + 15_000 {
                beat = now();
                for p in &mut pairs {
                    talk(p, 3, 30).await?;
                }
            }
            for p in &pairs {
                let v = within(1000, ls[p.at].as_ref().unwrap().get_peer_raknet_version(&p.addr)).await.ok_or("get_peer_raknet_version did not return")?.map_err(|e| format!("{e:?}"))?;
                if v != p.version {
                    return Err(format!("listener {} says {v} is the version of connection {}, which asked it for {}", p.at, p.id, p.version));
                }
            }
        }
        for p in &mut pairs {
            talk(p, 3, 2000).await?;
        }
        no_panics()
    })
}
