//! C22, C13, C14: the handshake, pings and dialogue with independent peers.
use crate::c_wire::{role, scripted, Role};
use crate::engine::{fill, no_panics, Case, Check, Rng, Src, Sub};
use crate::peer::{Peer, Reasm};
use crate::scenario::*;
use crate::sim::{self, host, now, server_addr, within, World};
use crate::wire::{self, Frame, Packet, Split, R};
use rust_raknet::error::RaknetError;
use rust_raknet::{RaknetListener, RaknetSocket};
use std::collections::{BTreeMap, BTreeSet};
use std::net::{IpAddr, Ipv6Addr, SocketAddr};
use std::sync::{Arc, Mutex};

pub const CHECKS: &[Check] = &[
    Check {
        id: "C12",
        subs: &[
            Sub {
                name: "handshake",
                run: c22_handshake,
                quick: 4000,
                thorough: 100_000,
                rule: "the packets of a handshake with an independent peer, every field compared; non-trivial if the MTU is not 1400 or the address is IPv6 or a number is extreme",
            },
            Sub {
                name: "servers",
                run: c13_servers,
                quick: 4000,
                thorough: 100_000,
                rule: "truncated and mutated replies to connect; non-trivial if something other than the expected reply was sent",
            },
            Sub {
                name: "replies",
                run: c14_replies,
                quick: 10_000,
                thorough: 300_000,
                rule: "truncated and mutated replies to ping; non-trivial if at least one malformed reply came first",
            },
        ],
    },
    Check {
        id: "C22",
        subs: &[
            Sub {
                name: "handshake",
                run: c22_handshake,
                quick: 60_000,
                thorough: 300_000,
                rule: "an independent client or server performs the handshake with generated ids, MTUs, versions, timestamps and IPv4/IPv6 addresses and compares every field; non-trivial if the MTU is not 1400 or the address is IPv6 or a request was repeated",
            },
            Sub {
                name: "dialogue",
                run: c22_dialogue,
                quick: 30_000,
                thorough: 400_000,
                rule: "an independent peer packs generated messages, fragments, pings and unknown messages into datagrams in generated ways and acknowledges in generated forms; non-trivial if a datagram carried several frames and a fragmented or reordered message was delivered",
            },
        ],
    },
    Check {
        id: "C13",
        subs: &[
            Sub {
                name: "faults",
                run: c13_faults,
                quick: 60_000,
                thorough: 300_000,
                rule: "up to 3 library clients with generated versions connect while the network loses, duplicates and delays handshake datagrams; non-trivial if a fault hit the handshake or a version is not supported",
            },
            Sub {
                name: "servers",
                run: c13_servers,
                quick: 30_000,
                thorough: 400_000,
                rule: "a scripted server answers connect with generated junk, malformed replies, extreme fields, refusals, disconnects or silence at each step; non-trivial if something other than the expected reply was sent",
            },
            Sub {
                name: "reconnect",
                run: c13_reconnect,
                quick: 20_000,
                thorough: 100_000,
                rule: "a client address ends its connection and connects again at once; non-trivial if it was back within 200 ms",
            },
            Sub {
                name: "handshake",
                run: c22_handshake,
                quick: 20_000,
                thorough: 100_000,
                rule: "an independent client or server performs the handshake, every field compared; non-trivial if the MTU is not 1400 or the address is IPv6 or a request was repeated",
            },
            crate::c_crowd::C13,
            crate::c_pending::C13_OUTAGE,
            crate::c_pending::C13_PENDING,
            crate::c_pending::C13_UNACCEPTED,
            crate::c_cancel::C13,
            crate::c_real::C13,
        ],
    },
    Check {
        id: "C14",
        subs: &[
            Sub {
                name: "pongs",
                run: c14_pongs,
                quick: 150_000,
                thorough: 300_000,
                rule: "generated sequences of setting MOTDs, listening and pinging (raw and through RaknetSocket::ping, over a lossy network); non-trivial if a MOTD was set and a ping answered",
            },
            Sub {
                name: "replies",
                run: c14_replies,
                quick: 150_000,
                thorough: 300_000,
                rule: "RaknetSocket::ping against a scripted server sending generated malformed replies before the right one; non-trivial if at least one malformed reply came first",
            },
            crate::c_real::C14,
        ],
    },
];

fn v6(k: u16) -> IpAddr {
    IpAddr::V6(Ipv6Addr::new(0xfd00, 0x1234, 0, 0xffff, k, 0, 0x80, k))
}

fn clock_near(what: &str, t: i64) -> Case {
    let c = sim::epoch() + now() as i64;
    if (t - c).abs() > 5000 {
        return Err(format!("{what} is {t} but the clock shows {c}"));
    }
    Ok(())
}

fn any_guid(s: &mut Src) -> u64 {
    s.u64()
}

// ------------------------------------------------------------------ C22

struct Hand {
    role: Role,
    version: u8,
    mtu: u16,
    mtu2: u16,
    guid: u64,
    req_time: i64,
    acc_time: i64,
    addrs: usize,
    v6: bool,
    pad: usize,
    repeat: [usize; 2],
    end: usize,
    class: u8,
}

fn any_mtu(s: &mut Src) -> u16 {
    match s.weighted(&[2, 3, 2, 2]) {
        0 => 1400,
        1 => s.int(400, 1400) as u16,
        2 => s.pick(&[0, 1, 399, 400, 401, 1399, 1401, 1464, 1492, 1500, 65535]),
        _ => s.below(65536) as u16,
    }
}

pub fn c22_handshake(s: &mut Src) -> Case {
    let h = Hand {
        role: role(s),
        version: s.pick(&[10, 11]),
        mtu: any_mtu(s),
        mtu2: any_mtu(s),
        guid: any_guid(s),
        req_time: s.u64() as i64,
        acc_time: s.u64() as i64,
        addrs: s.pick(&[10, 20]),
        v6: s.chance(1, 3),
        pad: s.pick(&[1354, 0, 1, 500, 1446, 1454]),
        repeat: [s.usize(0, 2), s.usize(0, 2)],
        end: s.usize(0, 2),
        class: s.pick(&[3, 2]),
    };
    s.note(format!(
        "library is the {:?}; version {}, mtu {} then {}, guid {:x}, times {} {}, {} addresses, ipv6 {}, request padding {}, repeats {:?}, end {} class {}",
        h.role, h.version, h.mtu, h.mtu2, h.guid, h.req_time, h.acc_time, h.addrs, h.v6, h.pad, h.repeat, h.end, h.class
    ));
    s.nontrivial(h.mtu != 1400 || h.v6 || h.repeat != [0, 0]);
    s.label_if(h.v6, "ipv6");
    s.label(if h.role == Role::Listener { "listener under test" } else { "client under test" });
    let seed = s.below(1 << 32);
    let yields = s.pick(&[0, 0, 64]);
    let latency = s.pick(&[1u64, 0, 20]);
    sim::run(seed, yields, 300_000, move |w| async move {
        w.latency(latency);
        match h.role {
            Role::Listener => hand_listener(&w, &h).await?,
            Role::Client => hand_client(&w, &h).await?,
        }
        no_panics()
    })
}

/// (addresses after the first, request time, accepted time) of 0x10 and 0x13 messages.
fn online_body(m: &[u8], id: u8) -> Result<(SocketAddr, i64, i64), String> {
    let parse = || {
        let mut r = R(m);
        if r.u8()? != id {
            return Err(wire::Bad("id"));
        }
        let a = r.addr()?;
        if id == 0x10 {
            r.u16()?;
        }
        while r.0.len() > 16 {
            r.addr()?;
        }
        let t = (r.u64()? as i64, r.u64()? as i64);
        Ok((a, t.0, t.1))
    };
    parse().map_err(|e| format!("message {id:02x} does not parse ({}): {}", e.0, crate::monitor::hex(m)))
}

macro_rules! want {
    ($what:expr, $got:expr, $exp:expr) => {
        if $got != $exp {
            return Err(format!("{}: {:?} instead of {:?}", $what, $got, $exp));
        }
    };
}

async fn expect<T>(p: &mut Peer, what: &str, mut f: impl FnMut(&Packet) -> Option<T>) -> Result<T, String> {
    let end = now() + 10_000;
    while now() < end {
        let Some(rx) = p.next(end - now()).await else { break };
        match &rx.pkt {
            Ok(k) => {
                if let Some(t) = f(k) {
                    return Ok(t);
                }
            }
            Err(e) => return Err(format!("the library emitted an undecodable datagram ({}): {}", e.0, crate::monitor::hex(&rx.raw))),
        }
    }
    Err(format!("no {what} within 10 s"))
}

async fn hand_listener(w: &World, h: &Hand) -> Case {
    let (sa, ca) = if h.v6 { (SocketAddr::new(v6(1), 19132), SocketAddr::new(v6(2), 5000)) } else { (server_addr(), SocketAddr::new(host(2), 5000)) };
    let mut l = RaknetListener::bind(&sa).await.map_err(|e| format!("bind: {e:?}"))?;
    l.listen().await;
    let mut p = Peer::new(w, ca, sa);
    p.guid = h.guid;
    p.send_pkt(&Packet::Ping { id: 1, time: h.req_time, guid: h.guid });
    let guid = expect(&mut p, "pong", |k| if let Packet::Pong { guid, .. } = k { Some(*guid) } else { None }).await?;
    for _ in 0..=h.repeat[0] {
        p.send_pkt(&Packet::Req1 { version: h.version, pad: h.pad });
        let (g, sec, mtu) =
            expect(&mut p, "OpenConnectionReply1", |k| if let Packet::Reply1 { guid, security, mtu } = k { Some((*guid, *security, *mtu)) } else { None }).await?;
        want!("server id of OpenConnectionReply1 (the pong's was the second)", g, guid);
        want!("security of OpenConnectionReply1", sec, 0);
        want!("mtu of OpenConnectionReply1", mtu, 1400);
    }
    for _ in 0..=h.repeat[1] {
        p.send_pkt(&Packet::Req2 { addr: sa, mtu: h.mtu, guid: h.guid });
        let (g, a, mtu, sec) = expect(&mut p, "OpenConnectionReply2", |k| match k {
            Packet::Reply2 { guid, addr, mtu, security } => Some((*guid, *addr, *mtu, *security)),
            _ => None,
        })
        .await?;
        want!("server id of OpenConnectionReply2", g, guid);
        want!("client address of OpenConnectionReply2", a, ca);
        want!("mtu of OpenConnectionReply2", mtu, h.mtu.clamp(400, 1400));
        want!("encryption of OpenConnectionReply2", sec, 0);
    }
    p.send_msg(h.class, wire::connection_request(h.guid, h.req_time));
    let end = now() + 5000;
    while p.got.is_empty() && now() < end {
        p.next(end - now()).await;
    }
    let m = p.got.first().ok_or("no ConnectionRequestAccepted within 5 s")?.clone();
    let (a, req, acc) = online_body(&m, 0x10)?;
    want!("client address of ConnectionRequestAccepted", a, ca);
    want!("request time echoed by ConnectionRequestAccepted", req, h.req_time);
    clock_near("accepted time of ConnectionRequestAccepted", acc)?;
    p.send_msg(h.class, wire::new_incoming(sa, h.addrs, h.req_time, h.acc_time));
    let sock = within(5000, l.accept()).await.ok_or("accept did not return the established connection")?.map_err(|e| format!("accept: {e:?}"))?;
    want!("peer_addr of the accepted socket", sock.peer_addr().ok(), Some(ca));
    want!("version of the accepted socket", sock.raknet_version().ok(), Some(h.version));
    greet(&mut p, &sock, h.acc_time).await?;
    finish(w, p, sock, h).await
}

async fn hand_client(w: &World, h: &Hand) -> Case {
    let sa = if h.v6 { SocketAddr::new(v6(1), 19132) } else { server_addr() };
    let mut p = Peer::new(w, sa, SocketAddr::new(host(2), 1));
    p.guid = h.guid;
    let version = h.version;
    let t0 = now();
    let c = tokio::spawn(w.on(if h.v6 { v6(2) } else { host(2) }, async move { within(60_000, RaknetSocket::connect_with_version(&sa, version)).await }));
    let first = p.next(5000).await.ok_or("no OpenConnectionRequest1")?;
    p.remote = first.src;
    for i in 0..=h.repeat[0] {
        let rx = if i == 0 { None } else { Some(p.next(5000).await.ok_or("OpenConnectionRequest1 not repeated")?) };
        let rx = rx.as_ref().unwrap_or(&first);
        match &rx.pkt {
            Ok(Packet::Req1 { version, .. }) => {
                want!("version in OpenConnectionRequest1", *version, h.version);
                want!("size of OpenConnectionRequest1 with IP and UDP headers", rx.raw.len() + 28, 1400);
            }
            x => return Err(format!("expected OpenConnectionRequest1, got {x:?}")),
        }
    }
    p.send_pkt(&Packet::Reply1 { guid: h.guid, security: 0, mtu: h.mtu });
    for i in 0..=h.repeat[1] {
        let (a, mtu, guid) = expect(&mut p, "OpenConnectionRequest2", |k| if let Packet::Req2 { addr, mtu, guid } = k { Some((*addr, *mtu, *guid)) } else { None }).await?;
        want!("server address in OpenConnectionRequest2", a, sa);
        want!("mtu in OpenConnectionRequest2", mtu, h.mtu.clamp(400, 1400));
        if i == h.repeat[1] {
            p.send_pkt(&Packet::Reply2 { guid: h.guid, addr: p.remote, mtu: h.mtu2, security: 0 });
            let end = now() + 5000;
            while p.got.is_empty() && now() < end {
                p.next(end - now()).await;
            }
            let m = p.got.first().ok_or("no ConnectionRequest within 5 s")?.clone();
            let mut r = R(&m);
            let f = (r.u8().ok(), r.u64().ok(), r.u64().ok(), r.u8().ok(), r.0.len());
            want!("id and guid of ConnectionRequest (guid as in OpenConnectionRequest2)", (f.0, f.1), (Some(9), Some(guid)));
            want!("security flag and end of ConnectionRequest", (f.3, f.4), (Some(0), 0));
            clock_near("time of ConnectionRequest", f.2.unwrap() as i64)?;
        }
    }
    let r = p.remote;
    p.send_msg(h.class, wire::connection_request_accepted(r, h.addrs, h.req_time, h.acc_time));
    let sock = c.await.unwrap().ok_or_else(|| format!("connect did not return although the handshake was complete (started at {t0} ms)"))?.map_err(|e| format!("connect: {e:?}"))?;
    let end = now() + 5000;
    while p.got_msg(0x13).is_none() && now() < end {
        p.next(end - now()).await;
    }
    let m = p.got_msg(0x13).ok_or("no NewIncomingConnection within 5 s")?.clone();
    let (a, _, acc) = online_body(&m, 0x13)?;
    want!("server address of NewIncomingConnection", a, sa);
    clock_near("accepted time of NewIncomingConnection", acc)?;
    want!("peer_addr of the connected socket", sock.peer_addr().ok(), Some(sa));
    want!("version of the connected socket", sock.raknet_version().ok(), Some(h.version));
    want!("local port of the connected socket", sock.local_addr().map(|a| a.port()).ok(), Some(p.remote.port()));
    greet(&mut p, &sock, h.acc_time).await?;
    // no larger datagram than the smallest MTU either side named
    let mtu = h.mtu.clamp(400, 1400).min(h.mtu2.max(400));
    sock.send(&payload(0, 0, 0, 9, 3, 5000), rel(3)).await.map_err(|e| format!("send: {e:?}"))?;
    for rx in p.drain(3000).await {
        if rx.raw.len() + 28 > mtu as usize {
            return Err(format!("after OpenConnectionReply1 with mtu {} and OpenConnectionReply2 with mtu {} the client sent a datagram of {}+28 bytes", h.mtu, h.mtu2, rx.raw.len()));
        }
    }
    if !p.got.contains(&payload(0, 0, 0, 9, 3, 5000)) {
        return Err("the 5000-byte message did not arrive within 3 s".into());
    }
    finish(w, p, sock, h).await
}

/// One message each way and one connected ping.
async fn greet(p: &mut Peer, sock: &RaknetSocket, ts: i64) -> Case {
    let hello = payload(0, 1, 0, 1, 3, 33);
    p.send_msg(3, hello.clone());
    let r = within(3000, sock.recv()).await.ok_or("recv did not return the peer's first message within 3 s")?.map_err(|e| format!("recv: {e:?}"))?;
    want!("first message", r, hello);
    sock.send(&hello, rel(3)).await.map_err(|e| format!("send: {e:?}"))?;
    p.send_msg(0, wire::connected_ping(ts));
    let end = now() + 3000;
    let pong = |p: &Peer| p.got.iter().any(|m| m.len() == 17 && m[0] == 3 && m[1..9] == (ts as u64).to_be_bytes());
    while now() < end && !(p.got.contains(&hello) && pong(p)) {
        p.next(end - now()).await;
    }
    if !p.got.contains(&hello) {
        return Err("the library's first message did not arrive within 3 s".into());
    }
    if !pong(p) {
        return Err(format!("no ConnectedPong echoing {ts} within 3 s; messages: {:?}", p.got.iter().map(|m| crate::monitor::hex(m)).collect::<Vec<_>>()));
    }
    Ok(())
}

async fn finish(_w: &World, mut p: Peer, sock: RaknetSocket, h: &Hand) -> Case {
    match h.end {
        // in-band, raw, by the library
        0 | 1 => {
            if h.end == 0 {
                p.send_msg(h.class, vec![0x15]);
            } else {
                p.send(&[0x15]);
            }
            match within(20_000, sock.recv()).await {
                None => return Err("recv was still waiting 20 s after the peer's disconnect".into()),
                Some(Ok(m)) => return Err(format!("recv returned {} after the peer's disconnect", brief(&m))),
                Some(Err(_)) => {}
            }
            want!("send after the peer's disconnect", sock.send(&[0xfe, 1], rel(3)).await.err().map(|e| es(&e)), Some("ConnectionClosed".to_string()));
        }
        _ => {
            sock.close().await.map_err(|e| format!("close: {e:?}"))?;
            let rx = p.drain(1500).await;
            if !rx.iter().any(|r| matches!(r.pkt, Ok(Packet::Disconnect))) && p.got_msg(0x15).is_none() {
                return Err("no disconnect notice within 1.5 s of close".into());
            }
        }
    }
    Ok(())
}

/// What the scripted peer puts into the connection.
#[derive(Clone, Debug)]
enum Item {
    Msg { class: u8, size: usize, chunk: Option<usize> },
    Ping(i64),
    Pong(i64),
    Unknown { id: u8, class: u8, size: usize },
}

fn c22_dialogue(s: &mut Src) -> Case {
    let role = role(s);
    let mtu = s.pick(&[1400u16, 1400, 400, 700]);
    let seed = s.below(1 << 32);
    let yields = s.pick(&[0, 0, 64]);
    let latency = s.pick(&[1u64, 0, 20]);
    let items = s.list(1, 10, 50, |s, i| match s.weighted(&[8, 2, 1, 2]) {
        0 => {
            let class = s.pick(&[3u8, 3, 2, 4, 0, 1]);
            let frag = wire::is_reliable(class) && s.chance(1, 3);
            if frag {
                let chunk = s.pick(&[300usize, 100, 20, 1]);
                let n = s.usize(1, 12);
                Item::Msg { class, size: (chunk * n).saturating_sub(s.usize(0, chunk - 1)).max(TAG), chunk: Some(chunk) }
            } else {
                Item::Msg { class, size: s.usize(TAG, 300), chunk: None }
            }
        }
        1 => Item::Ping((s.u64() as i64) ^ ((i as i64) << 40)),
        2 => Item::Pong(s.u64() as i64),
        _ => {
            let id = loop {
                let id = s.below(256) as u8;
                if !matches!(id, 0 | 3 | 9 | 0x10 | 0x13 | 0x15 | 0xfe) {
                    break id;
                }
                if id == 0 {
                    break 4;
                }
            };
            Item::Unknown { id, class: s.pick(&[3, 2, 0]), size: s.usize(1, 20) }
        }
    });
    // frames, shuffled within a window, packed, sent with waits, repeats and swaps
    let disorder = s.pick(&[0usize, 0, 2, 5, 20]);
    let per = s.pick(&[1usize, 3, 8, 40]);
    let dup = s.pick(&[0u64, 0, 100, 400]);
    let id = s.pick(&[0x84u8, 0x80, 0x8c, 0x88, 0x8d]);
    let waits = s.pick(&[0u64, 1, 30]);
    let salt = s.below(1 << 32);
    let t = Traffic { classes: vec![3, 2, 0], tiny: None, mtu, max_big: 4000, avg: 5, max: 20, flushes: false };
    let acts = gen_acts(s, &t);
    let ack_form = s.usize(0, 3);
    let ack_batch = s.pick(&[0u64, 0, 20, 150]);
    s.note(format!("library is the {role:?}, mtu {mtu}, latency {latency}; peer sends {items:?}"));
    s.note(format!("frames displaced by up to {disorder}, up to {per} per datagram with id {id:02x}, duplication {dup} per mille, waits {waits}; library sends {}; acknowledgement form {ack_form} every {ack_batch} ms; salt {salt}", describe_acts(&acts)));
    let fragmented = items.iter().any(|i| matches!(i, Item::Msg { chunk: Some(_), .. }));
    s.nontrivial(per > 1 && items.len() > 1 && (fragmented || disorder > 0));
    s.label_if(fragmented, "fragmented messages");
    s.label_if(disorder > 0, "disordered frames");
    s.label_if(ack_form == 1, "ack ranges");
    sim::run(seed, yields, 300_000, move |w| async move {
        w.latency(latency);
        let (lib, mut p) = scripted(&w, role, 10, mtu).await?;
        p.auto_ack = false;
        let first_ord = p.ord;
        let log: Log = Default::default();
        log.lock().unwrap().pending = 1;
        collect(lib.sock.clone(), log.clone());
        tokio::spawn(perform(lib.sock.clone(), log.clone(), 0, 0, 0, acts));
        w.record(true);
        let mut rng = Rng::new(salt);
        // frames in order
        let mut fs: Vec<Frame> = vec![];
        let mut pings = BTreeMap::new();
        for (i, it) in items.iter().enumerate() {
            match it {
                Item::Msg { class, size, chunk } => {
                    let body = payload(0, 1, 0, i, *class, *size);
                    match chunk {
                        None => fs.push(p.frame(*class, body)),
                        Some(c) => {
                            let base = p.frame(*class, vec![]);
                            let id = p.split;
                            p.split = p.split.wrapping_add(1 + (rng.next() % 3) as u16);
                            let n = body.len().div_ceil(*c) as u32;
                            for (k, part) in body.chunks(*c).enumerate() {
                                let mut f = Frame { split: Some(Split { size: n, id, index: k as u32 }), body: part.to_vec(), ..base.clone() };
                                if k > 0 {
                                    f.reliable = p.rel;
                                    p.rel += 1;
                                }
                                fs.push(f);
                            }
                        }
                    }
                }
                Item::Ping(t) => {
                    pings.insert(*t, 0usize);
                    fs.push(p.frame(if rng.next() % 2 == 0 { 0 } else { 2 }, wire::connected_ping(*t)));
                }
                Item::Pong(t) => fs.push(p.frame(0, wire::connected_pong(*t, 5))),
                Item::Unknown { id, class, size } => {
                    let mut b = fill(i as u64, *size);
                    b[0] = *id;
                    fs.push(p.frame(*class, b));
                }
            }
        }
        let mut keyed: Vec<(usize, Frame)> = fs.into_iter().enumerate().map(|(i, f)| (i + if disorder > 0 { (rng.next() % (disorder as u64 + 1)) as usize } else { 0 }, f)).collect();
        keyed.sort_by_key(|k| k.0);
        let mut it = keyed.into_iter().map(|k| k.1).peekable();
        let mut due: BTreeMap<u32, u64> = BTreeMap::new();
        let mut last_ack = now();
        let mut flush_acks = |p: &mut Peer, due: &mut BTreeMap<u32, u64>, force: bool| {
            if due.is_empty() || (!force && now() < last_ack + ack_batch) {
                return;
            }
            last_ack = now();
            let nums: Vec<u32> = std::mem::take(due).into_keys().collect();
            match ack_form {
                0 => p.send(&wire::ack(&nums.iter().map(|n| (*n, *n)).collect::<Vec<_>>())),
                1 => p.send(&wire::ack(&wire::ranges(&nums))),
                2 => p.send(&wire::acks(0xc0, &wire::ranges(&nums), true)),
                _ => {
                    for n in nums.iter().rev() {
                        p.send(&wire::ack(&[(*n, *n)]));
                    }
                }
            }
        };
        let take = |p: &mut Peer, rx: crate::peer::Rx, due: &mut BTreeMap<u32, u64>| -> Case {
            match rx.pkt {
                Ok(Packet::Frames { seq, .. }) => {
                    due.insert(seq, now());
                    Ok(())
                }
                Ok(Packet::Disconnect) => Err(format!("the library disconnected at {} ms", now())),
                Ok(_) => Ok(()),
                Err(e) => {
                    let _ = p;
                    Err(format!("the library emitted an undecodable datagram ({})", e.0))
                }
            }
        };
        while it.peek().is_some() {
            let n = 1 + (rng.next() % per as u64) as usize;
            let mut set: Vec<Frame> = vec![];
            let mut size = 4;
            while set.len() < n {
                let Some(f) = it.peek() else { break };
                let k = f.body.len() + 24;
                if !set.is_empty() && size + k > 1372 {
                    break;
                }
                size += k;
                set.push(it.next().unwrap());
            }
            let (_, mut d) = p.datagram(&set);
            d[0] = id;
            p.send(&d);
            if rng.next() % 1000 < dup {
                w.inject(rng.next() % 200, p.sock.addr, p.remote, &d);
            }
            if waits > 0 {
                for rx in p.drain(rng.next() % (waits + 1)).await {
                    take(&mut p, rx, &mut due)?;
                }
            }
            flush_acks(&mut p, &mut due, false);
        }
        // everything is on its way; wait for the library to say everything it has to
        let end = now() + 25_000;
        let mut quiet = now();
        while now() < end && (now() < quiet + 1500 || log.lock().unwrap().pending > 0) {
            let before = p.got.len();
            if let Some(rx) = p.next(10).await {
                take(&mut p, rx, &mut due)?;
            }
            if p.got.len() > before || log.lock().unwrap().pending > 0 {
                quiet = now();
            }
            flush_acks(&mut p, &mut due, false);
        }
        no_panics()?;
        // library to peer
        let log = log.lock().unwrap();
        if let Some((t, e)) = &log.recv_err {
            return Err(format!("recv failed at {t} ms: {e}"));
        }
        let mine: Vec<&Vec<u8>> = p.got.iter().filter(|m| m[0] == 0xfe).collect();
        for class in [3u8, 2, 0] {
            let mut sent: Vec<Vec<u8>> = vec![];
            for m in &log.sends {
                if let Some(e) = &m.err {
                    return Err(format!("send of {} bytes as {} failed: {e}", m.data.len(), CLASS[m.class as usize]));
                }
                if m.class == class {
                    sent.push(m.data.to_vec());
                }
            }
            let mut got: Vec<Vec<u8>> = mine.iter().filter(|m| m[1] == class).map(|m| m.to_vec()).collect();
            if class != 3 {
                sent.sort();
                got.sort();
            }
            if sent != got {
                return Err(format!(
                    "{} messages: the library sent {:?}, the independent peer got {:?}",
                    CLASS[class as usize],
                    sent.iter().map(|m| brief(m)).collect::<Vec<_>>(),
                    got.iter().map(|m| brief(m)).collect::<Vec<_>>()
                ));
            }
        }
        // peer to library
        let mut model = Reasm::default();
        // the handshake used the first indices
        model.next_ord = first_ord;
        let mut exp: Vec<Vec<u8>> = vec![];
        let mut arrivals: BTreeMap<Vec<u8>, usize> = BTreeMap::new();
        for e in w.take_events().iter().filter(|e| !e.sent && e.d.src == p.sock.addr && e.d.dst == lib.addr) {
            if let Ok(Packet::Frames { frames, .. }) = Packet::decode(&e.d.data) {
                for f in &frames {
                    if f.split.is_none() && f.body.len() == 9 && f.body[0] == 0 {
                        let t = i64::from_be_bytes(f.body[1..9].try_into().unwrap());
                        *pings.entry(t).or_default() += 1;
                    }
                    for m in model.insert(f) {
                        if m[0] == 0xfe {
                            *arrivals.entry(m.clone()).or_default() += 1;
                            exp.push(m);
                        }
                    }
                }
            }
        }
        let got: Vec<Vec<u8>> = log.recvs.iter().map(|r| r.1.clone()).filter(|m| m[0] == 0xfe).collect();
        let pick = |v: &[Vec<u8>], f: &dyn Fn(u8) -> bool| v.iter().filter(|m| f(m[1])).cloned().collect::<Vec<_>>();
        if let Some(m) = got.iter().find(|m| m.len() < TAG) {
            return Err(format!("recv returned a message the peer did not send: {}", crate::monitor::hex(m)));
        }
        let show = |v: &[Vec<u8>]| v.iter().map(|m| brief(m)).collect::<Vec<_>>().join(" ");
        for (name, f) in [("ReliableOrdered", &(|c: u8| c == 3) as &dyn Fn(u8) -> bool), ("sequenced", &|c| c == 1 || c == 4)] {
            let (a, b) = (pick(&exp, f), pick(&got, f));
            if a != b {
                return Err(format!("{name} messages from the independent peer: expected [{}], recv returned [{}]", show(&a), show(&b)));
            }
        }
        let (mut a, mut b) = (pick(&exp, &|c| c == 2), pick(&got, &|c| c == 2));
        a.sort();
        b.sort();
        if a != b {
            return Err(format!("Reliable messages from the independent peer: expected [{}], recv returned [{}]", show(&a), show(&b)));
        }
        for m in pick(&exp, &|c| c == 0) {
            let n = got.iter().filter(|g| **g == m).count();
            if n == 0 || n > arrivals[&m] {
                return Err(format!("an Unreliable message arrived {} times and was returned {n} times: {}", arrivals[&m], brief(&m)));
            }
        }
        let known: BTreeSet<&Vec<u8>> = exp.iter().collect();
        if let Some(m) = got.iter().find(|m| !known.contains(m)) {
            return Err(format!("recv returned a message the peer did not send: {}", brief(m)));
        }
        for (t, n) in &pings {
            let k = p.got.iter().filter(|m| m[0] == 3 && m.len() == 17 && m[1..9] == t.to_be_bytes()).count();
            if k == 0 || k > (*n).max(1) {
                return Err(format!("{k} pongs echo the connected ping with time {t}, which arrived {n} times"));
            }
        }
        Ok(())
    })
}

// ------------------------------------------------------------------ C13

fn any_version(s: &mut Src) -> u8 {
    match s.weighted(&[4, 3, 1, 1]) {
        0 => 10,
        1 => 11,
        2 => s.pick(&[9, 12, 0, 255, 6, 13]),
        _ => s.below(256) as u8,
    }
}

fn c13_faults(s: &mut Src) -> Case {
    let seed = s.below(1 << 32);
    let yields = s.pick(&[0, 0, 32, 100]);
    let latency = s.pick(&[1u64, 1, 0, 30, 300]);
    let faults = Faults::gen(s);
    let n = s.usize(1, 3);
    let clients: Vec<(u8, u64, u8)> = (0..n).map(|i| (any_version(s), if i == 0 { 0 } else { s.below(2000) }, s.pick(&[2, 2, 3]))).collect();
    let mtu = match s.weighted(&[3, 1]) {
        0 => None,
        _ => Some(any_mtu(s)),
    };
    s.note(format!("latency {latency} ms, {}, clients (version, start, host) {clients:?}, Reply1 mtu {mtu:?}", faults.describe()));
    s.nontrivial(!faults.none() || clients.iter().any(|c| c.0 != 10));
    s.label_if(clients.iter().any(|c| !matches!(c.0, 10 | 11)), "unsupported version");
    s.label_if(clients.iter().any(|c| c.0 == 11), "version 11");
    s.label_if(!faults.none(), "faulty network");
    let bound = faults.until + 40_000 + latency * 20;
    sim::run(seed, yields, 300_000, move |w| async move {
        let mut l = listener(&w).await?;
        w.policy(Some(faults.policy(server_addr(), 0, latency, mtu)));
        let mut tasks = vec![];
        for (version, start, h) in clients.clone() {
            let f = w.on(host(h), async move {
                sim::sleep(start).await;
                within(bound, RaknetSocket::connect_with_version(&server_addr(), version)).await
            });
            tasks.push(tokio::spawn(f));
        }
        let accepted: Arc<Mutex<Vec<RaknetSocket>>> = Default::default();
        let versions: Arc<Mutex<BTreeMap<SocketAddr, u8>>> = Default::default();
        let (acc, ver) = (accepted.clone(), versions.clone());
        let acceptor = tokio::spawn(async move {
            loop {
                match l.accept().await {
                    Ok(s) => {
                        let a = s.peer_addr().unwrap();
                        let v = l.get_peer_raknet_version(&a).await.unwrap();
                        ver.lock().unwrap().insert(a, v);
                        acc.lock().unwrap().push(s);
                    }
                    Err(e) => return es(&e),
                }
            }
        });
        let mut socks = vec![];
        for (i, t) in tasks.into_iter().enumerate() {
            let v = clients[i].0;
            let r = match t.await {
                Ok(r) => r,
                Err(_) => return Err(format!("client {i} (version {v}): connect panicked")),
            };
            no_panics()?;
            match (r, matches!(v, 10 | 11)) {
                (None, _) => return Err(format!("client {i} (version {v}): connect was still waiting {bound} ms after its start, {} ms after the faults ended", bound - faults.until)),
                (Some(Ok(c)), true) => socks.push((v, c)),
                (Some(Ok(_)), false) => return Err(format!("client {i}: connect succeeded with unsupported version {v}")),
                (Some(Err(RaknetError::NotSupportVersion)), false) => {}
                (Some(Err(e)), _) => return Err(format!("client {i}: connect with version {v} failed: {e:?}")),
            }
        }
        // stragglers of the faulty period
        if now() < faults.until + 4500 {
            sim::sleep(faults.until + 4500 - now()).await;
        }
        no_panics()?;
        if acceptor.is_finished() {
            return Err(format!("accept failed: {:?}", acceptor.await));
        }
        let acc = std::mem::take(&mut *accepted.lock().unwrap());
        if acc.len() != socks.len() {
            return Err(format!("{} connects succeeded but {} sockets were accepted", socks.len(), acc.len()));
        }
        for (i, (v, c)) in socks.iter().enumerate() {
            want!("peer_addr of the client", c.peer_addr().ok(), Some(server_addr()));
            want!("raknet_version of the client", c.raknet_version().ok(), Some(*v));
            let port = c.local_addr().unwrap().port();
            let of: Vec<&RaknetSocket> = acc.iter().filter(|a| a.peer_addr().unwrap().port() == port).collect();
            if of.len() != 1 {
                return Err(format!("client with port {port} matches {} accepted sockets", of.len()));
            }
            want!("local_addr of the accepted socket", of[0].local_addr().ok(), Some(server_addr()));
            want!("raknet_version of the accepted socket", of[0].raknet_version().ok(), Some(*v));
            want!("get_peer_raknet_version", versions.lock().unwrap().get(&of[0].peer_addr().unwrap()).copied(), Some(*v));
            for (d, (x, y)) in [(c, of[0]), (of[0], c)].into_iter().enumerate() {
                let m = payload(i, d, 0, 0, 3, 700);
                x.send(&m, rel(3)).await.map_err(|e| format!("send on the new connection: {e:?}"))?;
                match within(20_000, y.recv()).await {
                    Some(Ok(r)) if r == m => {}
                    x => return Err(format!("the first message on the new connection was received as {:?}", x.map(|r| r.map(|m| brief(&m)).map_err(|e| es(&e))))),
                }
            }
        }
        no_panics()
    })
}

#[derive(Clone, Debug)]
enum Reply {
    Junk(Vec<u8>),
    /// the right reply cut short
    Cut(usize),
    /// the right reply with one byte changed (never the id)
    Flip(usize, u8),
    Longer(usize),
    Twice,
    Reply1(u16),
    Already,
    Silence,
}
#[derive(Clone, Debug)]
enum End {
    Good,
    Incompatible(bool),
    Disconnect { raw: bool, class: u8 },
    Silence,
}

/// A datagram that is not the awaited reply.
fn junk(s: &mut Src) -> Vec<u8> {
    match s.weighted(&[2, 2, 2]) {
        0 => vec![],
        1 => {
            let n = s.usize(1, 12);
            let mut v = s.bytes(n);
            if matches!(v[0], 6 | 8 | 0x19 | 0x15) {
                v[0] = 4;
            }
            v
        }
        _ => {
            let n = s.usize(1, 1500);
            let mut v = s.filler(n);
            v[0] = s.pick(&[0x00, 0x01, 0x1c, 0x84, 0xc0, 0xa0, 0x05, 0x07, 0x12, 0xfe, 0xff]);
            v
        }
    }
}

fn gen_reply(s: &mut Src) -> Reply {
    match s.weighted(&[4, 2, 2, 1, 1, 1, 1, 1]) {
        0 => Reply::Junk(junk(s)),
        1 => Reply::Cut(s.usize(0, 40)),
        2 => Reply::Flip(s.usize(1, 40), s.int(1, 255) as u8),
        3 => Reply::Longer(s.usize(1, 600)),
        4 => Reply::Twice,
        5 => Reply::Reply1(any_mtu(s)),
        6 => Reply::Already,
        _ => Reply::Silence,
    }
}

pub fn c13_servers(s: &mut Src) -> Case {
    let seed = s.below(1 << 32);
    let yields = s.pick(&[0, 0, 64]);
    let mtu = any_mtu(s);
    let before1 = s.list(0, 1, 5, |s, _| gen_reply(s));
    let before2 = s.list(0, 1, 5, |s, _| gen_reply(s));
    let before3 = s.list(0, 1, 6, |s, _| {
        let r = gen_reply(s);
        match r {
            Reply::Cut(_) | Reply::Flip(..) | Reply::Longer(_) => Reply::Junk(junk(s)),
            r => r,
        }
    });
    let at = s.weighted(&[2, 1, 1, 3]);
    let end = match s.weighted(&[3, 2, 3, 2]) {
        0 => End::Good,
        1 => End::Incompatible(s.chance(1, 3)),
        2 => End::Disconnect { raw: s.chance(1, 2), class: s.pick(&[3, 2, 0]) },
        _ => End::Silence,
    };
    s.note(format!("mtu {mtu}; before Reply1 {before1:?}; before Reply2 {before2:?}; before acceptance {before3:?}; {end:?} at step {at}"));
    s.nontrivial(!before1.is_empty() || !before2.is_empty() || !before3.is_empty() || !matches!(end, End::Good));
    s.label(match end {
        End::Good => "completes",
        End::Incompatible(_) => "incompatible version",
        End::Disconnect { .. } => "disconnect",
        End::Silence => "silence",
    });
    sim::run(seed, yields, 400_000, move |w| async move {
        let sa = server_addr();
        let mut p = Peer::new(&w, sa, SocketAddr::new(host(2), 1));
        let done: Arc<Mutex<Option<u64>>> = Default::default();
        let done2 = done.clone();
        let c = tokio::spawn(w.on(host(2), async move {
            let r = RaknetSocket::connect(&sa).await;
            *done2.lock().unwrap() = Some(now());
            r
        }));
        let finished = |d: &Arc<Mutex<Option<u64>>>| d.lock().unwrap().is_some();
        // whether an error is a legitimate outcome already (a malformed reply was sent)
        let mut may_fail = false;
        let give = |p: &Peer, r: &Reply, right: &Packet, may_fail: &mut bool| {
            let good = right.encode();
            match r {
                Reply::Junk(v) => p.send(v),
                Reply::Cut(n) => {
                    let n = 1 + n % (good.len() - 1);
                    *may_fail = true;
                    p.send(&good[..n]);
                }
                Reply::Flip(i, x) => {
                    let mut v = good.clone();
                    let i = 1 + i % (good.len() - 1);
                    v[i] ^= x;
                    *may_fail = true;
                    p.send(&v);
                }
                Reply::Longer(n) => {
                    let mut v = good.clone();
                    v.extend(fill(7, *n));
                    *may_fail = true;
                    p.send(&v);
                }
                Reply::Twice => {
                    p.send(&good);
                    p.send(&good);
                }
                Reply::Reply1(m) => p.send_pkt(&Packet::Reply1 { guid: 1, security: 0, mtu: *m }),
                Reply::Already => p.send_pkt(&Packet::AlreadyConnected { guid: 1 }),
                Reply::Silence => {}
            }
        };
        // the server answers whatever request comes, according to its script
        let (mut k1, mut k2) = (0, 0);
        let mut verdict: Option<(End, u64)> = None;
        let mut established = false;
        let give_up = now() + 60_000;
        while now() < give_up && !finished(&done) && verdict.is_none() && !established {
            let Some(rx) = p.next(500).await else { continue };
            p.remote = rx.src;
            match rx.pkt {
                Ok(Packet::Req1 { .. }) => {
                    let right = Packet::Reply1 { guid: p.guid, security: 0, mtu };
                    if k1 < before1.len() {
                        give(&p, &before1[k1], &right, &mut may_fail);
                        k1 += 1;
                    } else if at == 0 && !matches!(end, End::Good) {
                        verdict = Some((end.clone(), now()));
                    } else {
                        p.send_pkt(&right);
                    }
                }
                Ok(Packet::Req2 { .. }) => {
                    let right = Packet::Reply2 { guid: p.guid, addr: p.remote, mtu, security: 0 };
                    if k2 < before2.len() {
                        give(&p, &before2[k2], &right, &mut may_fail);
                        k2 += 1;
                    } else if at == 1 && !matches!(end, End::Good) {
                        verdict = Some((end.clone(), now()));
                    } else {
                        p.send_pkt(&right);
                    }
                }
                Ok(Packet::Frames { .. }) => {
                    if p.got_msg(9).is_none() {
                        continue;
                    }
                    for r in &before3 {
                        give(&p, r, &Packet::Disconnect, &mut may_fail);
                        if matches!(r, Reply::Twice) {
                            verdict = Some((End::Disconnect { raw: true, class: 3 }, now()));
                        }
                    }
                    if verdict.is_none() {
                        if at >= 2 && !matches!(end, End::Good) {
                            verdict = Some((end.clone(), now()));
                        } else {
                            let r = p.remote;
                            p.send_msg(3, wire::connection_request_accepted(r, 10, 1, 2));
                            established = true;
                        }
                    }
                }
                Ok(_) => {}
                Err(e) => return Err(format!("the client emitted an undecodable datagram ({}): {}", e.0, crate::monitor::hex(&rx.raw))),
            }
        }
        no_panics()?;
        // the step at which the verdict fell: only steps 2 and up have a connection to end
        let offline = verdict.is_some() && p.got_msg(9).is_none();
        let (deadline, want_err): (u64, Option<&str>) = match &verdict {
            None => (20_000, None),
            Some((End::Incompatible(cut), _)) => {
                let v = Packet::Incompatible { version: 12, guid: 3 }.encode();
                p.send(if *cut { &v[..9] } else { &v });
                if offline && at == 0 {
                    (5_000, Some("any"))
                } else {
                    (90_000, Some("silence"))
                }
            }
            Some((End::Disconnect { raw, class }, _)) => {
                if *raw || offline {
                    p.send(&[0x15]);
                } else {
                    p.send_msg(*class, vec![0x15]);
                }
                (if offline { 5_000 } else { 20_000 }, Some(if offline { "silence" } else { "any" }))
            }
            Some((_, _)) => (90_000, Some("silence")),
        };
        let t = now();
        while !finished(&done) && now() < t + deadline {
            // stay silent, or keep acknowledging an established connection
            if want_err.is_none() {
                p.next(100).await;
            } else {
                sim::sleep(100).await;
            }
        }
        no_panics()?;
        if !finished(&done) {
            // a server that never completes the offline exchange keeps connect trying
            if want_err == Some("silence") && offline {
                c.abort();
                sim::sleep(1000).await;
                return no_panics();
            }
            return Err(format!("connect was still waiting {deadline} ms after the server's last word ({verdict:?})"));
        }
        let r = match c.await {
            Ok(r) => r,
            Err(_) => return Err("connect panicked".into()),
        };
        match (r, want_err) {
            (Ok(sock), None) => {
                if !established {
                    return Err("connect succeeded without a ConnectionRequestAccepted".into());
                }
                greet(&mut p, &sock, 77).await?;
            }
            (Err(e), None) if !may_fail => return Err(format!("connect failed with {e:?} against a server that completed the handshake")),
            (Ok(_), Some(_)) => return Err(format!("connect succeeded although the server ended with {verdict:?}")),
            (Err(e), Some("any")) => {
                if matches!(verdict, Some((End::Incompatible(_), _))) && !may_fail && !matches!(e, RaknetError::NotSupportVersion) {
                    return Err(format!("connect returned {e:?} for an incompatible version"));
                }
            }
            _ => {}
        }
        sim::sleep(200).await;
        no_panics()
    })
}

fn c13_reconnect(s: &mut Src) -> Case {
    let seed = s.below(1 << 32);
    let yields = s.pick(&[0, 0, 64]);
    let latency = s.pick(&[0u64, 1, 5, 30]);
    let rounds = s.list(1, 2, 4, |s, _| (s.usize(0, 3), s.pick(&[0u64, 0, 1, 10, 40, 60, 100, 500]), s.pick(&[10u8, 11]), s.chance(1, 3)));
    s.note(format!("latency {latency}; rounds (how it ends, pause before reconnecting, version, datagrams follow the disconnect): {rounds:?}"));
    s.nontrivial(rounds.iter().any(|r| r.1 < 200));
    sim::run(seed, yields, 300_000, move |w| async move {
        w.latency(latency);
        let mut l = listener(&w).await?;
        let mut p = Peer::new(&w, SocketAddr::new(host(2), 5000), server_addr());
        let mut kept = vec![];
        for (i, (how, pause, version, more)) in rounds.iter().chain([&(9, 0, 10, false)]).enumerate() {
            (p.seq, p.rel, p.ord, p.sqd, p.split) = (0, 0, 0, 0, 0);
            p.model = Reasm::default();
            p.got.clear();
            // datagrams of the connection before this one
            while p.sock.try_recv().is_some() {}
            p.send_pkt(&Packet::Req1 { version: *version, pad: 1354 });
            expect(&mut p, "OpenConnectionReply1", |k| if let Packet::Reply1 { .. } = k { Some(()) } else { None }).await?;
            let give_up = now() + 20_000;
            loop {
                p.send_pkt(&Packet::Req2 { addr: server_addr(), mtu: 1400, guid: i as u64 });
                let ok = expect(&mut p, "OpenConnectionReply2 or AlreadyConnected", |k| match k {
                    Packet::Reply2 { .. } => Some(true),
                    Packet::AlreadyConnected { .. } => Some(false),
                    _ => None,
                })
                .await?;
                if ok {
                    break;
                }
                if now() > give_up {
                    return Err(format!("connection {i}: still AlreadyConnected 20 s after the previous connection ended"));
                }
                sim::sleep(20).await;
            }
            p.online().await.map_err(|e| format!("connection {i}: {e}"))?;
            let sock = within(5000, l.accept()).await.ok_or(format!("connection {i} was not accepted"))?.map_err(|e| format!("accept: {e:?}"))?;
            want!("version of the accepted socket", sock.raknet_version().ok(), Some(*version));
            greet(&mut p, &sock, 5).await.map_err(|e| format!("connection {i}: {e}"))?;
            if *how == 9 {
                let rx = p.drain(2000).await;
                if rx.iter().any(|r| matches!(r.pkt, Ok(Packet::Disconnect))) {
                    return Err(format!("connection {i} was disconnected although only its predecessor ended"));
                }
                greet(&mut p, &sock, 6).await.map_err(|e| format!("connection {i} after 2 s: {e}"))?;
                break;
            }
            match how {
                0 => p.send(&[0x15]),
                1 => {
                    for _ in 0..10 {
                        p.send(&[0x15]);
                    }
                }
                2 => {
                    p.send_msg(3, vec![0x15]);
                }
                _ => {
                    sock.close().await.map_err(|e| format!("close: {e:?}"))?;
                    p.drain(latency * 2 + 60).await;
                }
            }
            if *more {
                p.send_msg(0, wire::connected_ping(3));
            }
            kept.push(sock);
            sim::sleep(*pause).await;
        }
        no_panics()
    })
}

// ------------------------------------------------------------------ C14

fn motd(s: &mut Src) -> String {
    let n = match s.weighted(&[3, 2, 2]) {
        0 => s.usize(1, 30),
        1 => s.usize(0, 200),
        _ => s.pick(&[988usize, 989, 1000, 1024, 1300, 1337]),
    };
    let k = s.below(5);
    let unit = ["a", ";", "é", "\u{1F600}", "\0"][k as usize];
    let mut m = String::new();
    if s.chance(1, 2) {
        m.push_str("MCPE;x;486;");
        m.truncate(n);
    }
    let uniq = format!("{}", s.below(1000));
    if m.len() + uniq.len() <= n {
        m.push_str(&uniq);
    }
    while m.len() + unit.len() <= n {
        m.push_str(unit);
    }
    m
}

#[derive(Clone, Debug)]
enum Op {
    Full(String),
    Motd(String, u32, String, String, String, u16),
    Listen,
    Ping { id: u8, time: i64, guid: u64, from: u8 },
    LibPing { loss: u64 },
    Wait(u64),
    /// (id, source) of pings sent at once
    Pings(Vec<(u8, u8)>),
    /// the source goes through the offline part of a handshake, and perhaps the rest
    Open { from: u8, fully: bool },
}

fn c14_pongs(s: &mut Src) -> Case {
    let seed = s.below(1 << 32);
    let yields = s.pick(&[0, 0, 64]);
    let latency = s.pick(&[1u64, 0, 30, 500]);
    let mut ops = s.list(1, 6, 20, |s, _| match s.weighted(&[4, 3, 2, 2, 2, 1, 1, 1]) {
        6 => Op::Pings(s.list(2, 3, 30, |s, _| (s.pick(&[1, 2]), s.pick(&[2, 3])))),
        7 => Op::Open { from: s.pick(&[2, 3]), fully: s.chance(1, 2) },
        0 => Op::Ping { id: s.pick(&[1, 2]), time: s.u64() as i64, guid: s.u64(), from: s.pick(&[2, 3]) },
        1 => Op::Full(motd(s)),
        2 => Op::LibPing { loss: s.pick(&[0, 0, 300, 700]) },
        3 => Op::Motd(
            ["Dedicated Server", "x", "", "Ünï§aServer"][s.below(4) as usize].into(),
            s.u64() as u32,
            s.pick(&["486", "1"]).into(),
            s.pick(&["1.18.11", "1.20"]).into(),
            s.pick(&["Survival", "Creative"]).into(),
            s.below(65536) as u16,
        ),
        4 => Op::Listen,
        _ => Op::Wait(s.below(3000)),
    });
    let at = s.usize(0, ops.len());
    ops.insert(at, Op::Listen);
    s.note(format!("latency {latency}; {}", ops.iter().map(|o| match o {
        Op::Full(m) => format!("set_full_motd({} bytes, {:?}…)", m.len(), m.chars().take(16).collect::<String>()),
        o => format!("{o:?}"),
    }).collect::<Vec<_>>().join(", ")));
    s.label_if(ops.iter().any(|o| matches!(o, Op::Open { .. })), "source with a session");
    s.label_if(ops.iter().any(|o| matches!(o, Op::Pings(..))), "pings at once");
    let first = ops.iter().position(|o| matches!(o, Op::Listen)).unwrap();
    let asked = ops[first..].iter().any(|o| matches!(o, Op::Ping { .. } | Op::LibPing { .. } | Op::Pings(..)));
    s.nontrivial(asked && ops.iter().any(|o| matches!(o, Op::Full(_) | Op::Motd(..))));
    s.label_if(asked && ops[first..].iter().any(|o| matches!(o, Op::Full(_) | Op::Motd(..))), "changed after listening");
    s.label_if(ops.iter().any(|o| matches!(o, Op::LibPing { loss } if *loss > 0)), "loss");
    sim::run(seed, yields, 3_000_000, move |w| async move {
        w.silent_losses();
        w.latency(latency);
        let mut l = w.on(host(1), RaknetListener::bind(&server_addr())).await.map_err(|e| format!("bind: {e:?}"))?;
        let mut peers: Vec<Peer> = [2u8, 3].iter().map(|h| Peer::new(&w, SocketAddr::new(host(*h), 777), server_addr())).collect();
        let mut opened = [false, false];
        let mut listening = false;
        let mut current = String::new();
        let mut fields: Option<Vec<String>> = None;
        let mut guid: Option<u64> = None;
        for op in ops {
            match op {
                Op::Wait(ms) => sim::sleep(ms).await,
                Op::Full(m) => {
                    l.set_full_motd(m.clone()).map_err(|e| format!("set_full_motd: {e:?}"))?;
                    want!("get_motd after set_full_motd", l.get_motd().await, m);
                    current = m;
                    fields = None;
                }
                Op::Motd(name, max, proto, ver, mode, port) => {
                    l.set_motd(&name, max, &proto, &ver, &mode, port).await;
                    current = l.get_motd().await;
                    fields = Some(vec!["MCPE".into(), name, proto, ver, "0".into(), max.to_string(), String::new(), "Bedrock level".into(), mode, "1".into(), port.to_string(), String::new()]);
                }
                Op::Listen => {
                    let fresh = !listening;
                    l.listen().await;
                    listening = true;
                    let m = l.get_motd().await;
                    if current.is_empty() && fresh {
                        if m.is_empty() {
                            return Err("the motd is empty after listen".into());
                        }
                        if !m.contains(&server_addr().port().to_string()) {
                            return Err(format!("the default motd does not name the port: {m}"));
                        }
                        current = m;
                    } else {
                        want!("get_motd after listen", m, current);
                    }
                }
                Op::Ping { id, time, guid: g, from } => {
                    let r = &peers[from as usize - 2].sock;
                    r.send(server_addr(), &Packet::Ping { id, time, guid: g }.encode());
                    if !listening {
                        continue;
                    }
                    let until = now() + 2 * latency + 200;
                    let d = loop {
                        let (_, d) = within(until - now(), r.recv()).await.ok_or(format!("a ping with id {id} was not answered within 200 ms"))?;
                        // the session says things, too
                        if !opened[from as usize - 2] || d.first() == Some(&0x1c) {
                            break d;
                        }
                    };
                    let Ok(Packet::Pong { guid: pg, motd, .. }) = Packet::decode(&d) else {
                        return Err(format!("the answer to a ping is not a pong: {}", crate::monitor::hex(&d)));
                    };
                    if *guid.get_or_insert(pg) != pg {
                        return Err(format!("the server id changed from {:x} to {pg:x}", guid.unwrap()));
                    }
                    want!("motd of the pong", String::from_utf8_lossy(&motd), current);
                    if let Some(f) = &fields {
                        let parts: Vec<String> = current.split(';').map(|x| x.to_string()).collect();
                        let mut f = f.clone();
                        f[6] = pg.to_string();
                        want!("fields of the motd", parts, f);
                    }
                }
                Op::Pings(all) => {
                    for (i, (id, from)) in all.iter().enumerate() {
                        peers[*from as usize - 2].sock.send(server_addr(), &Packet::Ping { id: *id, time: i as i64, guid: 7 }.encode());
                    }
                    if !listening {
                        continue;
                    }
                    sim::sleep(2 * latency + 200).await;
                    for from in [2u8, 3] {
                        let n = all.iter().filter(|a| a.1 == from).count();
                        let mut pongs = 0;
                        while let Some((_, d)) = peers[from as usize - 2].sock.try_recv() {
                            if let Ok(Packet::Pong { guid: pg, motd, .. }) = Packet::decode(&d) {
                                pongs += 1;
                                want!("server id of the pong", pg, *guid.get_or_insert(pg));
                                want!("motd of the pong", String::from_utf8_lossy(&motd), current);
                            }
                        }
                        if pongs < n {
                            return Err(format!("of {n} pings that arrived from one source at once {pongs} were answered"));
                        }
                    }
                }
                Op::Open { from, fully } => {
                    if !listening {
                        continue;
                    }
                    let i = from as usize - 2;
                    let fresh = !std::mem::replace(&mut opened[i], true);
                    let p = &mut peers[i];
                    if fresh {
                        p.offline(10, 1400).await?;
                        if fully {
                            p.online().await?;
                        }
                    }
                }
                Op::LibPing { loss } => {
                    if !listening {
                        continue;
                    }
                    let mut rng = Rng::new(seed + now());
                    let t0 = now();
                    if loss > 0 {
                        w.policy(Some(Box::new(move |d: &sim::Dgram| {
                            if d.t < t0 + 8000 && rng.next() % 1000 < loss { vec![] } else { vec![(latency, d.data.clone())] }
                        })));
                    }
                    let r = within(60_000, w.on(host(4), RaknetSocket::ping(&server_addr()))).await;
                    w.policy(None);
                    let (lat, m) = r.ok_or("ping was still waiting after 60 s")?.map_err(|e| format!("ping: {e:?}"))?;
                    want!("motd returned by ping", m, current);
                    if lat < 0 || lat as u64 > now() - t0 {
                        return Err(format!("ping returned a latency of {lat} ms after {} ms", now() - t0));
                    }
                }
            }
            // unanswered pings from before listening
            if !listening {
                sim::sleep(1).await;
            }
            if listening {
                sim::sleep(latency * 2 + 50).await;
                for r in &peers {
                    while r.sock.try_recv().is_some() {}
                }
            }
        }
        no_panics()
    })
}

pub fn c14_replies(s: &mut Src) -> Case {
    let seed = s.below(1 << 32);
    let yields = s.pick(&[0, 0, 64]);
    let right = motd(s);
    let time = match s.weighted(&[2, 1, 1]) {
        0 => None,
        1 => Some(s.pick(&[i64::MIN, i64::MAX, -1, 0])),
        _ => Some(s.u64() as i64),
    };
    #[derive(Debug, Clone)]
    enum B {
        Junk(Vec<u8>),
        Cut(usize),
        Magic(usize),
        Len(u16),
        Utf8,
        Id(u8),
        Silence,
    }
    let bad = s.list(0, 2, 6, |s, _| match s.weighted(&[3, 3, 2, 2, 1, 2, 1]) {
        0 => B::Junk(junk_pong(s)),
        1 => B::Cut(s.usize(0, 60)),
        2 => B::Magic(s.usize(0, 15)),
        3 => B::Len(s.int(1, 65535) as u16),
        4 => B::Utf8,
        5 => B::Id(s.below(256) as u8),
        _ => B::Silence,
    });
    s.note(format!("right motd {} bytes {:?}…, time {time:?}, before it {bad:?}", right.len(), right.chars().take(16).collect::<String>()));
    s.nontrivial(!bad.is_empty());
    sim::run(seed, yields, 600_000, move |w| async move {
        w.silent_losses();
        let sa = server_addr();
        let raw = w.raw(sa);
        let t0 = now();
        let task = tokio::spawn(w.on(host(2), async move { RaknetSocket::ping(&sa).await }));
        let good = |time: i64, m: &str| Packet::Pong { time, guid: 99, motd: m.as_bytes().to_vec() }.encode();
        for i in 0..=bad.len() {
            let (src, d) = match within(9000, raw.recv()).await {
                Some(x) => x,
                None if task.is_finished() => break,
                None => return Err(format!("ping sent no further ping within 9 s after bad reply {i}")),
            };
            let Ok(Packet::Ping { time: sent, .. }) = Packet::decode(&d) else { return Err(format!("ping emitted {}", crate::monitor::hex(&d))) };
            clock_near("time of the ping", sent)?;
            let wrong = good(sent, "a wrong motd");
            match bad.get(i) {
                Some(B::Junk(v)) => raw.send(src, v),
                Some(B::Cut(n)) => raw.send(src, &wrong[..(*n).min(wrong.len() - 1)]),
                Some(B::Magic(k)) => {
                    let mut v = wrong.clone();
                    v[17 + k] ^= 0x40;
                    raw.send(src, &v)
                }
                Some(B::Len(extra)) => {
                    let mut v = wrong.clone();
                    let n = u16::from_be_bytes([v[33], v[34]]).saturating_add(*extra);
                    v[33..35].copy_from_slice(&n.to_be_bytes());
                    raw.send(src, &v)
                }
                Some(B::Utf8) => {
                    let mut v = wrong.clone();
                    let n = v.len();
                    v[n - 1] = 0xff;
                    raw.send(src, &v)
                }
                Some(B::Id(b)) => {
                    let mut v = wrong.clone();
                    v[0] = if *b == 0x1c { 0x1d } else { *b };
                    raw.send(src, &v)
                }
                Some(B::Silence) => {}
                None => raw.send(src, &good(time.unwrap_or(sent), &right)),
            }
        }
        let r = within(10_000, task).await.ok_or("ping did not return within 10 s of a valid pong")?;
        no_panics()?;
        match r {
            Err(_) => Err("ping panicked".into()),
            Ok(Err(e)) => Err(format!("ping failed: {e:?}")),
            Ok(Ok((lat, m))) => {
                want!("motd returned by ping", m, right);
                if lat < 0 || lat as u64 > now() - t0 {
                    return Err(format!("ping returned a latency of {lat} ms after {} ms", now() - t0));
                }
                Ok(())
            }
        }
    })
}

fn junk_pong(s: &mut Src) -> Vec<u8> {
    let mut v = junk(s);
    if v.first() == Some(&0x1c) {
        v.truncate(30);
    }
    v
}
