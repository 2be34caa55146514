//! C10, C11, C18: malformed and hostile datagrams, and isolation between connections.
use crate::c_wire::{role, scripted, Role};
use crate::engine::{fill, no_panics, thread_cpu, Case, Check, Rng, Src, Sub};
use crate::monitor::hex;
use crate::peer::Peer;
use crate::scenario::*;
use crate::sim::{self, host, now, server_addr, within, World};
use crate::wire::{self, Frame, Packet, Split, W};
use rust_raknet::{RaknetListener, RaknetSocket};
use std::net::{IpAddr, Ipv4Addr, SocketAddr};
use std::sync::{Arc, Mutex};
use std::time::Duration;

pub const CHECKS: &[Check] = &[
    Check {
        id: "C10",
        subs: &[
            Sub {
                name: "malformed",
                run: c10_malformed,
                quick: 60_000,
                thorough: 1_000_000,
                rule: "malformed, truncated, empty and unknown datagrams and malformed inner messages between the datagrams of a conversation with a scripted peer; non-trivial if at least one was injected while a message was in flight either way",
            },
            Sub {
                name: "hostile",
                run: c10_hostile,
                quick: 40_000,
                thorough: 1_000_000,
                rule: "arbitrary, mutated and extreme datagrams (ranges, indices, sizes) from the peer's address; non-trivial if at least one of them decodes strictly as RakNet or differs from one in a few bytes",
            },
        ],
    },
    Check {
        id: "C11",
        subs: &[
            Sub {
            name: "listener",
            run: c11,
            quick: 40_000,
            thorough: 600_000,
            rule: "generated datagrams from strangers, half-open, open and ended connections at a listening address that also has healthy connections; non-trivial if at least one of them is an offline packet or comes from an address with a connection",
        },
            crate::c_pending::C11_PENDING,
        ],
    },
    Check {
        id: "C18",
        subs: &[
            Sub {
                name: "stall",
                run: c18_stall,
                quick: 12_000,
                thorough: 200_000,
                rule: "one connection is not read, not accepted, flooded, mute, dead, closed or hostile while others exchange messages; non-trivial if at least 20 datagrams reached the bad connection or it ended",
            },
            Sub {
                name: "strangers",
                run: c18_strangers,
                quick: 20_000,
                thorough: 300_000,
                rule: "datagrams for a connection forged from addresses that are not its peer (messages with the expected indices, acknowledgements of datagrams the network lost, disconnects); non-trivial if at least one forged acknowledgement, message or disconnect was sent",
            },
            crate::c_crowd::C18,
            crate::c_multi::C18,
        ],
    },
];

/// Cases take less than 5 ms on a correct library. A case over the bound is run again before it counts.
const CPU: Duration = Duration::from_millis(250);

// ------------------------------------------------------------------ conversations with a scripted peer

/// Messages the peer sent, in order.
type Sent = Vec<(u8, Vec<u8>)>;

fn show(v: &[Vec<u8>]) -> String {
    crate::engine::clip(&v.iter().map(|m| brief(m)).collect::<Vec<_>>().join(" "), 1500)
}

/// Over a network that neither loses nor reorders, every message arrives exactly once.
fn all_arrived(what: &str, sent: &[(u8, Vec<u8>)], got: &[Vec<u8>]) -> Case {
    let got: Vec<Vec<u8>> = got.iter().filter(|m| m.first() == Some(&0xfe)).cloned().collect();
    if let Some(m) = got.iter().find(|m| m.len() < TAG || m[1] > 4) {
        return Err(format!("{what}: a message nobody sent was delivered: {}", hex(m)));
    }
    for (name, classes) in [("ReliableOrdered", &[3u8][..]), ("sequenced", &[1, 4]), ("Reliable", &[2]), ("Unreliable", &[0])] {
        let mut a: Vec<Vec<u8>> = sent.iter().filter(|m| classes.contains(&m.0)).map(|m| m.1.clone()).collect();
        let mut b: Vec<Vec<u8>> = got.iter().filter(|m| classes.contains(&m[1])).cloned().collect();
        if classes == [2] || classes == [0] {
            a.sort();
            b.sort();
        }
        if a != b {
            return Err(format!("{what}: {name} messages sent [{}], delivered [{}]", show(&a), show(&b)));
        }
    }
    Ok(())
}

fn lib_sent(log: &EndLog) -> Result<Sent, String> {
    let mut v = vec![];
    for m in &log.sends {
        match &m.err {
            Some(e) => return Err(format!("send #{} at {} ms failed with {e} though nothing closed the connection", m.idx, m.begin)),
            None => v.push((m.class, m.data.to_vec())),
        }
    }
    if let Some((t, e)) = &log.recv_err {
        return Err(format!("recv failed at {t} ms with {e} though nothing closed the connection"));
    }
    if let Some(f) = log.flushes.iter().find(|f| f.2.is_some()) {
        return Err(format!("flush at {} ms failed with {:?} though nothing closed the connection", f.0, f.2));
    }
    Ok(v)
}

// ------------------------------------------------------------------ C10

#[derive(Clone, Debug)]
enum Bad {
    Empty,
    /// id without meaning on a connection, then filler
    Unknown(u8, usize),
    /// the next legitimate datagram cut to this fraction (per 1000) of its length
    Cut(u64),
    /// unknown reliability class, random rest
    Class(u8, usize),
    /// an acknowledgement (or negative) record list cut short or with a wrong count
    Acks { nack: bool, records: u8, cut: usize, count: Option<u16>, form: u8 },
    /// frame whose length runs past the end
    Long(u8, u16),
    /// fragment of zero parts
    NoParts(u8),
    /// a control message cut short, or with an unknown id
    Inner { class: u8, body: Vec<u8> },
    /// frame with an empty body
    NoBody(u8),
    /// frame set header without frames, possibly cut
    Header(usize),
    /// well-formed frames carrying the expected indices and forged bodies, then a frame that is cut
    /// short (`keep` bytes of it are left): the whole datagram is malformed
    Tail { id: u8, classes: Vec<u8>, size: usize, keep: usize },
}

fn control(s: &mut Src) -> Vec<u8> {
    let a: SocketAddr = if s.chance(1, 5) { "[fd00::7]:19132" } else { "10.0.0.1:19132" }.parse().unwrap();
    match s.below(6) {
        0 => wire::connected_ping(s.u64() as i64),
        1 => wire::connection_request(s.u64(), 1),
        2 => wire::connection_request_accepted(a, s.pick(&[10, 20, 0]), 1, 2),
        3 => wire::new_incoming(a, s.pick(&[10, 20, 0]), 1, 2),
        4 => wire::connected_pong(1, 2),
        _ => vec![s.pick(&[0x04u8, 0x11, 0x1d, 0x8e, 0x90, 0xff, 0x84, 0xa0, 0xc0]), 1, 2, 3],
    }
}

fn gen_bad(s: &mut Src) -> Bad {
    match s.weighted(&[1, 3, 4, 2, 3, 2, 1, 4, 1, 1, 3]) {
        0 => Bad::Empty,
        1 => {
            let id = s.below(256) as u8;
            // meaningful to a listener or a connection
            let id = if matches!(id, 0x15 | 0x80..=0x8f | 0xa0 | 0xc0 | 7 | 8 | 5 | 6 | 1 | 2) { 0x90 } else { id };
            Bad::Unknown(id, s.pick(&[0usize, 1, 3, 20, 1400]))
        }
        2 => Bad::Cut(s.below(1000)),
        3 => Bad::Class(s.int(5, 7) as u8, s.usize(0, 40)),
        4 => {
            let records = s.below(6) as u8;
            Bad::Acks { nack: s.chance(1, 2), records, cut: s.usize(1, 7), count: if s.chance(1, 3) { Some(s.pick(&[6, 100, 1000, 65535])) } else { None }, form: s.pick(&[1, 0, 2, 255]) }
        }
        5 => Bad::Long(s.below(5) as u8, s.pick(&[0x1000, 0xffff, 0x2aff])),
        6 => Bad::NoParts(s.pick(&[3, 2, 0, 4, 1])),
        7 => {
            let mut body = control(s);
            if !matches!(body[0], 4 | 0x11 | 0x1d | 0x8e | 0x90 | 0xff | 0x84 | 0xa0 | 0xc0) {
                let n = s.usize(1, body.len() - 1);
                body.truncate(n);
            }
            Bad::Inner { class: s.pick(&[0, 2, 3]), body }
        }
        8 => Bad::NoBody(s.below(5) as u8),
        9 => Bad::Header(s.usize(1, 4)),
        _ => Bad::Tail { id: s.pick(&[0x84, 0x84, 0x80, 0x88, 0x8c, 0x8d]), classes: s.list(1, 2, 5, |s, _| s.below(5) as u8), size: s.pick(&[TAG, 9, 60, 300]).max(TAG), keep: s.usize(1, 40) },
    }
}

fn send_bad(p: &mut Peer, b: &Bad) {
    match b {
        Bad::Empty => p.send(&[]),
        Bad::Unknown(id, n) => {
            let mut v = fill(*n as u64, n + 1);
            v[0] = *id;
            p.send(&v);
        }
        Bad::Cut(_) => {}
        Bad::Class(c, n) => {
            let mut w = W(vec![0x84]);
            w.u24(p.seq).u8(c << 5).u16((*n * 8) as u16).raw(&fill(1, *n));
            p.send(&w.0);
        }
        Bad::Acks { nack, records, cut, count, form } => {
            let mut w = W(vec![if *nack { 0xa0 } else { 0xc0 }]);
            let n = *records as usize + 1;
            w.u16(count.unwrap_or(n as u16));
            for i in 0..n as u32 {
                w.u8(*form).u24(i * 3);
                if *form != 1 {
                    w.u24(i * 3 + 1);
                }
            }
            let keep = w.0.len().saturating_sub(*cut).max(1);
            p.send(&w.0[..keep]);
        }
        Bad::Long(c, bits) => {
            let f = Frame { class: *c, body: vec![0xfe; 10], reliable: p.rel, ordered: p.ord, sequenced: p.sqd, ..Default::default() };
            let mut v = wire::frames(p.seq, &[f]);
            v[5..7].copy_from_slice(&bits.to_be_bytes());
            p.send(&v);
        }
        Bad::NoParts(c) => {
            let mut f = Frame { class: *c, body: vec![0xfe; 10], split: Some(Split { size: 0, id: 60_000, index: 0 }), ordered: p.ord, sequenced: p.sqd, ..Default::default() };
            if wire::is_reliable(*c) {
                f.reliable = p.rel;
                p.rel += 1;
            }
            p.send_frames(&[f]);
        }
        Bad::Inner { class, body } => {
            p.send_msg(*class, body.clone());
        }
        Bad::NoBody(c) => {
            // consumes no index: nothing was sent
            let mut f = p.frame(*c, vec![]);
            if wire::is_ordered(*c) {
                f.body = vec![4];
            }
            p.send_frames(&[f]);
        }
        Bad::Tail { id, classes, size, keep } => {
            let mut body = vec![9u8; *size];
            body[0] = 0xfe;
            let (mut r, mut o, mut q) = (p.rel, p.ord, p.sqd);
            let mut fs: Vec<Frame> = vec![];
            for c in classes.iter().chain([&3]) {
                fs.push(Frame { class: *c, reliable: r, ordered: o, sequenced: q, body: body.clone(), ..Default::default() });
                r += wire::is_reliable(*c) as u32;
                o += (*c == 3) as u32;
                q += matches!(*c, 1 | 4) as u32;
            }
            let whole = wire::frames(p.seq, &fs[..fs.len() - 1]).len();
            let mut d = wire::frames(p.seq, &fs);
            d.truncate((whole + keep).min(d.len() - 1));
            d[0] = *id;
            p.send(&d);
        }
        Bad::Header(n) => {
            let mut w = W(vec![0x84]);
            w.u24(p.seq);
            p.send(&w.0[..*n]);
        }
    }
}

fn c10_malformed(s: &mut Src) -> Case {
    let role = role(s);
    let mtu = s.pick(&[1400u16, 1400, 400]);
    let seed = s.below(1 << 32);
    let yields = s.pick(&[0, 0, 64]);
    let latency = s.pick(&[1u64, 0, 20]);
    let t = Traffic { classes: vec![3, 3, 2, 0, 1, 4], tiny: None, mtu, max_big: 4000, avg: 5, max: 20, flushes: true };
    let acts = gen_acts(s, &t);
    let script: Vec<(Option<(u8, usize, bool)>, Vec<Bad>, u64)> = s.list(1, 6, 30, |s, _| {
        let msg = if s.chance(2, 3) {
            let class = s.pick(&[3u8, 3, 2, 0, 1, 4]);
            let frag = class == 3 && s.chance(1, 4);
            Some((class, if frag { s.usize(300, 1500) } else { s.usize(TAG, 200) }, frag))
        } else {
            None
        };
        (msg, s.list(0, 1, 5, |s, _| gen_bad(s)), s.pick(&[0u64, 0, 1, 15, 100]))
    });
    s.note(format!("library is the {role:?}, mtu {mtu}, latency {latency}, it sends {}", describe_acts(&acts)));
    s.note(format!("peer ((class, size, fragmented), malformed datagrams before it, wait): {script:?}"));
    let injected: usize = script.iter().map(|x| x.1.len()).sum();
    s.nontrivial(injected > 0 && (script.iter().any(|x| x.0.is_some()) || acts.iter().any(|a| matches!(a, Act::Send { .. }))));
    for (l, f) in [
        ("cut datagram", (|b: &Bad| matches!(b, Bad::Cut(_))) as fn(&Bad) -> bool),
        ("bad acknowledgement", |b| matches!(b, Bad::Acks { .. })),
        ("bad inner message", |b| matches!(b, Bad::Inner { .. })),
        ("unknown id", |b| matches!(b, Bad::Unknown(..))),
        ("empty", |b| matches!(b, Bad::Empty)),
        ("forged frames before a cut one", |b| matches!(b, Bad::Tail { .. })),
    ] {
        s.label_if(script.iter().any(|x| x.1.iter().any(f)), l);
    }
    let cpu = thread_cpu();
    sim::run(seed, yields, 300_000, move |w| async move {
        w.latency(latency);
        let (lib, mut p) = scripted(&w, role, 10, mtu).await?;
        let first = p.got.len();
        let log: Log = Default::default();
        log.lock().unwrap().pending = 1;
        collect(lib.sock.clone(), log.clone());
        tokio::spawn(perform(lib.sock.clone(), log.clone(), 0, 0, 0, acts));
        let mut sent: Sent = vec![];
        for (i, (msg, bads, wait)) in script.iter().enumerate() {
            for b in bads {
                send_bad(&mut p, b);
            }
            if let Some((class, size, frag)) = msg {
                let body = payload(0, 1, 0, i, *class, *size);
                sent.push((*class, body.clone()));
                let fs = if *frag { p.fragments(&body, 290) } else { vec![p.frame(*class, body)] };
                for f in fs.chunks(3) {
                    let (_, d) = p.datagram(f);
                    for b in bads {
                        if let Bad::Cut(n) = b {
                            // never at the end of a frame: that would be a shorter legitimate datagram
                            let ends: Vec<usize> = (1..=f.len()).map(|k| wire::frames(0, &f[..k]).len()).collect();
                            let n = (*n as usize * d.len() / 1000).max(1);
                            if !ends.contains(&n) {
                                p.send(&d[..n]);
                            }
                        }
                    }
                    p.send(&d);
                }
            }
            p.drain(*wait).await;
        }
        let end = now() + 30_000;
        let mut quiet = now();
        while now() < end && (now() < quiet + 1500 || log.lock().unwrap().pending > 0) {
            let before = p.got.len();
            p.next(20).await;
            if p.got.len() > before || log.lock().unwrap().pending > 0 {
                quiet = now();
            }
        }
        no_panics()?;
        let log = log.lock().unwrap();
        let mine = lib_sent(&log)?;
        if log.pending > 0 {
            return Err("a send or flush of the library end did not return within 30 s".into());
        }
        all_arrived("library to peer", &mine, &p.got[first..])?;
        all_arrived("peer to library", &sent, &log.recvs.iter().map(|r| r.1.clone()).collect::<Vec<_>>())
    })?;
    cpu_bound(cpu, injected, CPU)
}

fn cpu_bound(since: Duration, n: usize, most: Duration) -> Case {
    let used = thread_cpu() - since;
    if used > most {
        return Err(format!("{} ms of CPU time for a case with {n} injected datagrams", used.as_millis()));
    }
    Ok(())
}

fn extreme24(s: &mut Src, near: u32) -> u32 {
    match s.weighted(&[3, 2, 2, 1]) {
        0 => near.wrapping_add(s.below(8) as u32),
        1 => s.pick(&[0, 1, 0xff_ffff, 0xff_fffe, 0x80_0000, 0x7f_ffff, 0x80_0001, 0x40_0000]),
        2 => s.below(1 << 24) as u32,
        _ => near.wrapping_sub(s.below(200) as u32) & 0xff_ffff,
    }
}

/// One hostile datagram, and whether it is close to valid RakNet.
fn hostile(s: &mut Src, seq: u32, rel: u32, ord: u32) -> (Vec<u8>, bool) {
    match s.weighted(&[5, 5, 3, 2, 1, 2]) {
        0 => {
            // frames with extreme fields
            let n = if s.chance(1, 10) { s.usize(20, 100) } else { s.usize(1, 4) };
            let shape = s.chance(1, 2);
            let fs: Vec<Frame> = (0..n)
                .map(|i| {
                    if i > 3 {
                        // cheap bulk
                        return Frame { class: 3, reliable: rel + i as u32, ordered: extreme24(s, ord), split: Some(Split { size: 2, id: (i * 7) as u16, index: 0 }), body: vec![0xfe], ..Default::default() };
                    }
                    let class = s.pick(&[3u8, 3, 2, 4, 1, 0]);
                    let body = match s.weighted(&[3, 2, 1]) {
                        0 => vec![0xfe; s.pick(&[1usize, 8, 300])],
                        1 => control(s),
                        _ => {
                            let n = s.usize(1, 10);
                            s.bytes(n)
                        }
                    };
                    let split = if s.chance(1, 2) {
                        let size = s.pick(&[1u32, 2, 3, 0, 4, 0xffff_ffff, 0x8000_0000, 65536]);
                        Some(Split { size, id: s.pick(&[0u16, 1, 65535, 7]), index: if s.chance(1, 3) { s.pick(&[size.wrapping_sub(1), size, 0xffff_ffff, 0x7fff_ffff]) } else { s.below(4) as u32 } })
                    } else {
                        None
                    };
                    Frame {
                        class,
                        reliable: if shape { rel + i as u32 } else { extreme24(s, rel) },
                        ordered: extreme24(s, ord),
                        sequenced: extreme24(s, 0),
                        channel: s.pick(&[0, 1, 31, 255]),
                        split,
                        body,
                    }
                })
                .collect();
            let mut d = wire::frames(extreme24(s, seq) & 0xff_ffff, &fs);
            d[0] = s.pick(&[0x84, 0x80, 0x8c, 0x8d]);
            (d, true)
        }
        1 => {
            // acknowledgements
            let wide = s.chance(1, 2);
            let n = if s.chance(1, 6) { 200 } else { s.usize(1, 6) };
            let salt = s.below(1 << 24) as u32;
            let recs: Vec<(u32, u32)> = (0..n)
                .map(|i| {
                    if i > 5 {
                        return if wide { (salt % (i as u32 + 1), 0xff_ffff - i as u32) } else { (i as u32, i as u32 + 3) };
                    }
                    let a = extreme24(s, 0) & 0xff_ffff;
                    let b = if wide { 0xff_ffff } else { extreme24(s, a) & 0xff_ffff };
                    (a, b)
                })
                .collect();
            let mut d = wire::acks(s.pick(&[0xc0, 0xa0]), &recs, s.chance(1, 2));
            if s.chance(1, 5) {
                let c = s.below(65536) as u16;
                d[1..3].copy_from_slice(&c.to_be_bytes());
            }
            (d, true)
        }
        2 => {
            // a valid datagram with a few bytes changed or cut
            let n = s.usize(1, 300);
            let f = Frame { class: s.pick(&[3, 2, 0, 1, 4]), reliable: rel, ordered: ord, body: vec![0xfe; n], ..Default::default() };
            let mut d = match s.below(3) {
                0 => wire::frames(seq, &[f]),
                1 => wire::frames(seq, &[Frame { split: Some(Split { size: 2, id: 3, index: 0 }), ..f }]),
                _ => wire::ack(&[(0, 3), (5, 5)]),
            };
            for _ in 0..s.usize(1, 4) {
                let i = s.below(d.len().min(24) as u64) as usize;
                d[i] = s.below(256) as u8;
            }
            if s.chance(1, 3) {
                let n = s.usize(0, d.len() - 1);
                d.truncate(n);
            }
            (d, true)
        }
        3 => {
            let n = s.usize(0, 40);
            (s.bytes(n), false)
        }
        4 => {
            let n = s.pick(&[1000usize, 2048, 2049, 9000]);
            let mut d = s.filler(n);
            d[0] = s.pick(&[0x84, 0xc0, 0xa0, 0x00, 0xfe, 0x05]);
            (d, false)
        }
        _ => {
            let mut d = offline(s);
            if d.first() == Some(&0x15) {
                d[0] = 0x12;
            }
            (d, true)
        }
    }
}

fn c10_hostile(s: &mut Src) -> Case {
    let role = role(s);
    let seed = s.below(1 << 32);
    let yields = s.pick(&[0, 0, 64]);
    let t = Traffic { classes: vec![3, 2, 0, 4, 1], tiny: None, mtu: 1400, max_big: 9000, avg: 4, max: 20, flushes: false };
    let acts = gen_acts(s, &t);
    let mut near = false;
    let mut bulk = false;
    let script: Vec<(Vec<u8>, u64)> = s.list(1, 12, 80, |s, i| {
        let (d, n) = hostile(s, 3 + i as u32, 2 + i as u32, 2);
        near |= n;
        bulk |= d.len() > 1000;
        (d, s.pick(&[0u64, 0, 0, 5, 60, 1000]))
    });
    let auto = s.chance(1, 2);
    s.note(format!("library is the {role:?}, it sends {}; peer acknowledges: {auto}", describe_acts(&acts)));
    s.note(format!("peer sends: {}", script.iter().map(|(d, w)| format!("{} (then wait {w})", hex(d))).collect::<Vec<_>>().join("\n  ")));
    s.nontrivial(near);
    s.label_if(bulk, "large datagram");
    let n = script.len();
    let cpu = thread_cpu();
    sim::run(seed, yields, 600_000, move |w| async move {
        let (lib, mut p) = scripted(&w, role, 10, 1400).await?;
        p.auto_ack = auto;
        let log: Log = Default::default();
        log.lock().unwrap().pending = 1;
        let reader = collect(lib.sock.clone(), log.clone());
        tokio::spawn(perform(lib.sock.clone(), log.clone(), 0, 0, 0, acts));
        for (d, wait) in &script {
            p.send(d);
            if *wait > 0 {
                sim::sleep(*wait).await;
                while p.sock.try_recv().is_some() {}
            }
        }
        sim::sleep(500).await;
        no_panics()?;
        // the library still answers its user
        let deadline = now() + 5000;
        while now() < deadline && log.lock().unwrap().pending > 0 {
            sim::sleep(50).await;
        }
        if log.lock().unwrap().pending > 0 {
            // only pauses of the plan may still be running
            let l = log.lock().unwrap();
            if l.sends.iter().any(|x| x.end == u64::MAX && x.begin + 3000 < now()) {
                return Err("a send did not return for 3 s".into());
            }
        }
        match within(5000, lib.sock.close()).await {
            None => return Err("close did not return within 5 s".into()),
            Some(Err(e)) => return Err(format!("close: {e:?}")),
            Some(Ok(())) => {}
        }
        match within(5000, lib.sock.flush()).await {
            Some(Err(_)) => {}
            x => return Err(format!("flush after close: {x:?}")),
        }
        sim::sleep(20_000).await;
        if !reader.is_finished() {
            return Err("recv was still waiting 20 s after close".into());
        }
        if reader.await.is_err() {
            return Err("recv panicked".into());
        }
        no_panics()
    })?;
    cpu_bound(cpu, n, CPU)
}

// ------------------------------------------------------------------ C11

/// An offline packet, valid or mutated.
fn offline(s: &mut Src) -> Vec<u8> {
    let addr = if s.chance(1, 4) { "[fe80::1]:9".parse().unwrap() } else { SocketAddr::new(IpAddr::V4(Ipv4Addr::from(s.below(1 << 32) as u32)), s.below(65536) as u16) };
    let p = match s.below(8) {
        0 => Packet::Req1 { version: s.pick(&[10, 11, 9, 0, 255]), pad: s.pick(&[1354usize, 0, 1, 2030, 2031, 2100, 65000]) },
        1 => Packet::Req2 { addr, mtu: s.pick(&[1400, 0, 1, 28, 60, 87, 88, 400, 65535, 1492]), guid: s.u64() },
        2 => Packet::Ping { id: s.pick(&[1, 2]), time: s.u64() as i64, guid: s.u64() },
        3 => Packet::Pong { time: s.u64() as i64, guid: 1, motd: vec![b'x'; s.usize(0, 50)] },
        4 => Packet::Reply1 { guid: 1, security: s.below(2) as u8, mtu: s.below(65536) as u16 },
        5 => Packet::Reply2 { guid: 1, addr, mtu: s.below(65536) as u16, security: 0 },
        6 => Packet::Disconnect,
        _ => s.pick(&[Packet::Incompatible { version: 1, guid: 2 }, Packet::AlreadyConnected { guid: 7 }]),
    };
    let mut d = p.encode();
    match s.weighted(&[4, 2, 2]) {
        0 => {}
        1 => {
            let n = s.usize(0, d.len());
            d.truncate(n);
        }
        _ => {
            for _ in 0..s.usize(1, 3) {
                let n = d.len().min(60) as u64;
                let i = s.below(n) as usize;
                d[i] = s.below(256) as u8;
            }
        }
    }
    d
}

#[derive(Clone, Debug)]
enum Who {
    Stranger(u8, u16),
    /// a scripted connection by number
    Peer(usize),
}
#[derive(Clone, Debug)]
enum Do {
    Raw(Who, Vec<u8>),
    /// a burst of the same datagram from many addresses
    Burst(Vec<u8>, usize),
    Connect,
    Disconnect(usize, bool),
    Accept,
    DropAccepted,
    Wait(u64),
}

fn c11(s: &mut Src) -> Case {
    let seed = s.below(1 << 32);
    let yields = s.pick(&[0, 0, 64]);
    let latency = s.pick(&[1u64, 0, 20]);
    let healthy = s.usize(1, 2);
    let mut interesting = false;
    let script: Vec<Do> = s.list(1, 14, 80, |s, _| match s.weighted(&[6, 4, 1, 2, 1, 1, 1, 1]) {
        0 => {
            interesting = true;
            Do::Raw(if s.chance(1, 3) { Who::Peer(s.usize(0, 2)) } else { Who::Stranger(s.pick(&[30, 31]), s.pick(&[1u16, 7, 19132])) }, offline(s))
        }
        1 => {
            let (d, _) = hostile(s, 3, 2, 2);
            let peer = s.chance(2, 3);
            interesting |= peer;
            Do::Raw(if peer { Who::Peer(s.usize(0, 2)) } else { Who::Stranger(s.pick(&[30, 31]), s.pick(&[1u16, 7])) }, d)
        }
        2 => {
            interesting = true;
            Do::Burst(offline(s), s.pick(&[15usize, 3, 60, 200]))
        }
        3 => Do::Connect,
        4 => Do::Disconnect(s.usize(0, 2), s.chance(1, 2)),
        5 => Do::Accept,
        6 => Do::DropAccepted,
        _ => Do::Wait(s.pick(&[1u64, 10, 60, 500, 3000])),
    });
    let long = s.chance(1, 12);
    s.note(format!("latency {latency}, {healthy} healthy connections, long pause before the end: {long}"));
    s.note(
        script
            .iter()
            .map(|d| match d {
                Do::Raw(w, d) => format!("{w:?}: {}", hex(d)),
                Do::Burst(d, n) => format!("{n} addresses: {}", hex(d)),
                x => format!("{x:?}"),
            })
            .collect::<Vec<_>>()
            .join("\n  "),
    );
    s.nontrivial(interesting);
    s.label_if(script.iter().any(|d| matches!(d, Do::Burst(..))), "burst");
    s.label_if(script.iter().any(|d| matches!(d, Do::Connect)), "scripted connections");
    let n = script.len();
    let cpu = thread_cpu();
    sim::run(seed, yields, 900_000, move |w| async move {
        let mut l = listener(&w).await?;
        let mut good = vec![];
        for i in 0..healthy {
            good.push(conn(&w, &mut l, 10 + i as u8).await?);
        }
        w.latency(latency);
        let mut peers: Vec<Peer> = vec![];
        let mut accepted: Vec<RaknetSocket> = vec![];
        let mut spoken = now();
        for op in &script {
            // the library sends no keep-alives: idle connections end after a minute
            if now() > spoken + 20_000 {
                for (i, c) in good.iter().enumerate() {
                    exchange(c, i, 5000 + 20 * latency).await.map_err(|e| format!("healthy connection {i} during the script: {e}"))?;
                }
                spoken = now();
            }
            match op {
                Do::Raw(Who::Stranger(h, port), d) => w.inject(latency, SocketAddr::new(host(*h), *port), server_addr(), d),
                Do::Raw(Who::Peer(k), d) => match peers.get(*k) {
                    Some(p) => p.send(d),
                    None => w.inject(latency, SocketAddr::new(host(40 + *k as u8), 5000), server_addr(), d),
                },
                Do::Burst(d, n) => {
                    for i in 0..*n {
                        w.inject(latency + i as u64 / 8, SocketAddr::new(host(60), 1000 + i as u16), server_addr(), d);
                    }
                }
                Do::Connect => {
                    let k = peers.len();
                    if k < 3 {
                        let mut p = Peer::new(&w, SocketAddr::new(host(40 + k as u8), 5000), server_addr());
                        // hostile datagrams may have come from this address before
                        let _ = within(3000, p.connect(10, 1400)).await;
                        peers.push(p);
                    }
                }
                Do::Disconnect(k, raw) => {
                    if let Some(p) = peers.get_mut(*k) {
                        if *raw {
                            p.send(&[0x15]);
                        } else {
                            p.send_msg(3, vec![0x15]);
                        }
                    }
                }
                Do::Accept => {
                    if let Some(Ok(s)) = within(50, l.accept()).await {
                        accepted.push(s);
                    }
                }
                Do::DropAccepted => {
                    accepted.pop();
                }
                Do::Wait(ms) => sim::sleep(*ms).await,
            }
        }
        if long {
            for (i, c) in good.iter().enumerate() {
                exchange(c, i, 5000 + 20 * latency).await.map_err(|e| format!("healthy connection {i} before the pause: {e}"))?;
            }
        }
        sim::sleep(if long { 50_000 } else { 300 }).await;
        no_panics()?;
        check_alive(&w, &mut l, latency).await?;
        for (i, c) in good.iter().enumerate() {
            exchange(c, i, 5000 + 20 * latency).await.map_err(|e| format!("healthy connection {i}: {e}"))?;
        }
        no_panics()
    })?;
    cpu_bound(cpu, n, 4 * CPU)
}

/// The listener answers pings and accepts connections.
async fn check_alive(w: &World, l: &mut RaknetListener, latency: u64) -> Case {
    let t = now();
    match within(200 + 4 * latency, w.on(host(20), RaknetSocket::ping(&server_addr()))).await {
        None => return Err(format!("a ping sent at {t} ms was not answered within {} ms", 200 + 4 * latency)),
        Some(Err(e)) => return Err(format!("ping: {e:?}")),
        Some(Ok((_, m))) => {
            if m != l.get_motd().await {
                return Err(format!("the pong carried {m:?}"));
            }
        }
    }
    let t = now();
    let c = within(4000 + 20 * latency, w.on(host(21), RaknetSocket::connect(&server_addr())))
        .await
        .ok_or_else(|| format!("a connect begun at {t} ms did not return within 4 s"))?
        .map_err(|e| format!("connect: {e:?}"))?;
    let port = c.local_addr().unwrap().port();
    let want = SocketAddr::new(host(21), port);
    let s = loop {
        let s = within(2000, l.accept()).await.ok_or("the new connection was not accepted within 2 s")?.map_err(|e| format!("accept: {e:?}"))?;
        if s.peer_addr().unwrap() == want {
            break s;
        }
    };
    let k = Conn { ends: [Arc::new(c), Arc::new(s)], logs: Default::default(), client_addr: want };
    exchange(&k, 9, 4000 + 20 * latency).await.map_err(|e| format!("new connection: {e}"))?;
    Ok(())
}

/// A message each way, received within `ms`; earlier messages are skipped.
async fn exchange(c: &Conn, k: usize, ms: u64) -> Case {
    for d in 0..2 {
        let m = payload(k, d, 7, (now() % 60_000) as usize, 3, 900);
        let t = now();
        within(ms, c.ends[d].send(&m, rel(3))).await.ok_or("send did not return")?.map_err(|e| format!("send from the {} failed: {e:?}", ["client", "server"][d]))?;
        let other = c.ends[1 - d].clone();
        let r = within(ms, async {
            loop {
                match other.recv().await {
                    Ok(r) if r == m => return Ok(()),
                    Ok(_) => {}
                    Err(e) => return Err(e),
                }
            }
        })
        .await;
        match r {
            None => return Err(format!("a message sent by the {} at {t} ms was not received within {ms} ms", ["client", "server"][d])),
            Some(Err(e)) => return Err(format!("recv: {e:?}")),
            Some(Ok(())) => {}
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C18

#[derive(Clone, Debug)]
enum Trouble {
    /// the application does not read this connection while its peer sends n messages of a size
    Unread { n: usize, size: usize, class: u8, accepted: bool },
    /// the client application does not read while the server sends
    UnreadClient { n: usize, size: usize },
    /// a scripted peer floods with n datagrams of k frames
    Flood { n: usize, k: usize, per_ms: usize, kind: u8 },
    /// a peer that never acknowledges while the server sends n messages
    Mute { n: usize, size: usize },
    /// a peer that vanishes
    Dead { n: usize },
    /// connect and disconnect, n times
    Churn { n: usize, raw: bool },
    /// the server application closes or drops it
    Close(bool),
}

fn c18_stall(s: &mut Src) -> Case {
    let seed = s.below(1 << 32);
    let yields = s.pick(&[0, 0, 64]);
    let latency = s.pick(&[1u64, 0, 10]);
    let deep = s.chance(1, 30);
    let n = |s: &mut Src| if deep { s.usize(500, 3000) } else { s.usize(1, 150) };
    let troubles = s.list(1, 1, 3, |s, _| match s.weighted(&[3, 2, 3, 2, 2, 2, 1]) {
        0 => {
            let class = s.pick(&[3u8, 2, 0]);
            Trouble::Unread { n: n(s), size: if class == 3 { s.pick(&[20usize, 1000, 4000]) } else { s.pick(&[20usize, 1000]) }, class, accepted: s.chance(1, 2) }
        }
        1 => Trouble::UnreadClient { n: n(s), size: s.pick(&[20usize, 1000, 4000]) },
        2 => Trouble::Flood { n: n(s), k: s.pick(&[1usize, 5, 60]), per_ms: s.pick(&[1usize, 20, 1000]), kind: s.below(5) as u8 },
        3 => Trouble::Mute { n: s.usize(1, 60), size: s.pick(&[20usize, 1000, 4000]) },
        4 => Trouble::Dead { n: s.usize(1, 40) },
        5 => Trouble::Churn { n: s.usize(1, 8), raw: s.chance(1, 2) },
        _ => Trouble::Close(s.chance(1, 2)),
    });
    let rounds = s.usize(1, 4);
    let pause = s.pick(&[10u64, 100, 1000]);
    let late = s.chance(1, 10);
    s.note(format!("latency {latency}, {troubles:?}, {rounds} rounds of checks every {pause} ms, again after 65 s: {late}"));
    s.nontrivial(troubles.iter().any(|t| match t {
        Trouble::Unread { n, .. } | Trouble::UnreadClient { n, .. } | Trouble::Flood { n, .. } | Trouble::Mute { n, .. } => *n >= 20,
        _ => true,
    }));
    for t in &troubles {
        s.label(match t {
            Trouble::Unread { .. } => "unread by server",
            Trouble::UnreadClient { .. } => "unread by client",
            Trouble::Flood { .. } => "flood",
            Trouble::Mute { .. } => "mute peer",
            Trouble::Dead { .. } => "dead peer",
            Trouble::Churn { .. } => "churn",
            Trouble::Close(_) => "closed",
        });
    }
    sim::run(seed, yields, 900_000, move |w| async move {
        let mut l = listener(&w).await?;
        let good = [conn(&w, &mut l, 10).await?, conn(&w, &mut l, 11).await?];
        w.latency(latency);
        let keep: Arc<Mutex<Vec<Box<dyn std::any::Any + Send>>>> = Default::default();
        for (i, t) in troubles.iter().enumerate() {
            let h = 50 + i as u8;
            match t.clone() {
                Trouble::Unread { n, size, class, accepted } => {
                    let c = within(10_000, w.on(host(h), RaknetSocket::connect(&server_addr()))).await.ok_or("connect did not return within 10 s")?.map_err(|e| format!("connect: {e:?}"))?;
                    if accepted {
                        let s = within(5000, l.accept()).await.ok_or("accept did not return")?.map_err(|e| format!("accept: {e:?}"))?;
                        keep.lock().unwrap().push(Box::new(s));
                    }
                    let keep = keep.clone();
                    tokio::spawn(async move {
                        for k in 0..n {
                            if c.send(&payload(80, 0, 0, k, class, size), rel(class)).await.is_err() {
                                break;
                            }
                        }
                        keep.lock().unwrap().push(Box::new(c));
                    });
                }
                Trouble::UnreadClient { n, size } => {
                    let (c, s) = pair(&w, &mut l, h).await?;
                    keep.lock().unwrap().push(Box::new(c));
                    let keep = keep.clone();
                    tokio::spawn(async move {
                        for k in 0..n {
                            if s.send(&payload(81, 1, 0, k, 3, size), rel(3)).await.is_err() {
                                break;
                            }
                        }
                        keep.lock().unwrap().push(Box::new(s));
                    });
                }
                Trouble::Flood { n, k, per_ms, kind } => {
                    let mut p = Peer::new(&w, SocketAddr::new(host(h), 5000), server_addr());
                    within(10_000, p.connect(10, 1400)).await.ok_or("handshake of the scripted peer took more than 10 s")??;
                    tokio::spawn(async move {
                        for i in 0..n {
                            match kind {
                                0 | 1 => {
                                    let fs: Vec<Frame> = (0..k).map(|j| p.frame([0u8, 2, 3, 0][(i + j) % if kind == 0 { 1 } else { 4 }], vec![0xfe; 12])).collect();
                                    p.send_frames(&fs);
                                }
                                2 => p.send(&wire::ack(&[(0, 0xff_ffff)])),
                                3 => p.send(&wire::nack(&[(0, 0xff_ffff)])),
                                _ => p.send(&[0xff, 1, 2]),
                            }
                            if i % per_ms == 0 {
                                sim::sleep(1).await;
                            }
                        }
                        loop {
                            p.next(60_000).await;
                        }
                    });
                }
                Trouble::Mute { n, size } => {
                    let mut p = Peer::new(&w, SocketAddr::new(host(h), 5000), server_addr());
                    within(10_000, p.connect(10, 1400)).await.ok_or("handshake of the scripted peer took more than 10 s")??;
                    let s = within(5000, l.accept()).await.ok_or("accept did not return")?.map_err(|e| format!("accept: {e:?}"))?;
                    let keep = keep.clone();
                    tokio::spawn(async move {
                        for k in 0..n {
                            if s.send(&payload(82, 1, 0, k, 3, size), rel(3)).await.is_err() {
                                break;
                            }
                        }
                        keep.lock().unwrap().push(Box::new(s));
                        // keep the socket bound, stay alive, acknowledge nothing
                        loop {
                            sim::sleep(5000).await;
                            p.send_msg(0, wire::connected_ping(1));
                        }
                    });
                }
                Trouble::Dead { n } => {
                    let mut p = Peer::new(&w, SocketAddr::new(host(h), 5000), server_addr());
                    within(10_000, p.connect(10, 1400)).await.ok_or("handshake of the scripted peer took more than 10 s")??;
                    let s = within(5000, l.accept()).await.ok_or("accept did not return")?.map_err(|e| format!("accept: {e:?}"))?;
                    drop(p);
                    let keep = keep.clone();
                    tokio::spawn(async move {
                        for k in 0..n {
                            let _ = s.send(&payload(83, 1, 0, k, 3, 200), rel(3)).await;
                        }
                        keep.lock().unwrap().push(Box::new(s));
                    });
                }
                Trouble::Churn { n, raw } => {
                    let w2 = w.clone();
                    tokio::spawn(async move {
                        for i in 0..n {
                            let mut p = Peer::new(&w2, SocketAddr::new(host(h), 6000 + i as u16), server_addr());
                            let _ = within(10_000, p.connect(10, 1400)).await;
                            if raw {
                                p.send(&[0x15]);
                                p.send_msg(0, vec![0xfe]);
                            } else {
                                p.send_msg(3, vec![0x15]);
                                p.send_msg(3, vec![0xfe]);
                            }
                        }
                    });
                }
                Trouble::Close(dropped) => {
                    let (c, s) = pair(&w, &mut l, h).await?;
                    keep.lock().unwrap().push(Box::new(c));
                    if dropped {
                        drop(s);
                    } else {
                        s.close().await.map_err(|e| format!("close: {e:?}"))?;
                        keep.lock().unwrap().push(Box::new(s));
                    }
                }
            }
        }
        for r in 0..rounds {
            sim::sleep(pause).await;
            for (i, c) in good.iter().enumerate() {
                exchange(c, i, 500 + 10 * latency).await.map_err(|e| format!("healthy connection {i} in round {r}: {e}"))?;
            }
            check_alive(&w, &mut l, latency).await.map_err(|e| format!("round {r}: {e}"))?;
        }
        if late {
            for r in 0..3 {
                sim::sleep(22_000).await;
                for (i, c) in good.iter().enumerate() {
                    exchange(c, i, 500 + 10 * latency).await.map_err(|e| format!("healthy connection {i}, late round {r}: {e}"))?;
                }
            }
            check_alive(&w, &mut l, latency).await.map_err(|e| format!("after 66 s: {e}"))?;
        }
        no_panics()
    })
}

#[derive(Clone, Debug)]
enum Forge {
    /// a message with the next expected indices of the connection
    Message { class: u8, ahead: u32 },
    /// acknowledge everything the victim sent
    Ack,
    Nack,
    Disconnect(bool),
    Junk(Vec<u8>),
}

fn c18_strangers(s: &mut Src) -> Case {
    let seed = s.below(1 << 32);
    let yields = s.pick(&[0, 0, 64]);
    let latency = s.pick(&[1u64, 0, 10]);
    let lossy = s.chance(1, 2);
    let t = Traffic { classes: vec![3, 2, 3], tiny: None, mtu: 1400, max_big: 3000, avg: 4, max: 10, flushes: false };
    let acts = [gen_acts(s, &t), gen_acts(s, &t)];
    // (who is attacked, which foreign address, what)
    let forged: Vec<(usize, u8, Forge, u64)> = s.list(1, 6, 30, |s, _| {
        let f = match s.weighted(&[4, 4, 1, 3, 1]) {
            0 => Forge::Message { class: s.pick(&[3u8, 2, 0, 1, 4]), ahead: s.below(4) as u32 },
            1 => Forge::Ack,
            2 => Forge::Nack,
            3 => Forge::Disconnect(s.chance(1, 2)),
            _ => Forge::Junk({
                let n = s.usize(0, 20);
                s.bytes(n)
            }),
        };
        (s.usize(0, 1), s.below(4) as u8, f, s.pick(&[0u64, 0, 5, 60, 300]))
    });
    s.note(format!("latency {latency}, first 1500 ms lose every data datagram: {lossy}; client sends {}; server sends {}", describe_acts(&acts[0]), describe_acts(&acts[1])));
    s.note(format!("forged (victim 0 client 1 server, address, datagram, wait after): {forged:?}"));
    s.nontrivial(forged.iter().any(|f| !matches!(f.2, Forge::Junk(_) | Forge::Nack)));
    s.label_if(lossy, "data lost while acknowledgements are forged");
    sim::run(seed, yields, 300_000, move |w| async move {
        let mut l = listener(&w).await?;
        let c = conn(&w, &mut l, 10).await?;
        let other = conn(&w, &mut l, 11).await?;
        w.latency(latency);
        sim::sleep(400).await;
        let ends = [c.client_addr, server_addr()];
        let start = now();
        if lossy {
            w.policy(Some(Box::new(move |d: &sim::Dgram| {
                let data = matches!(d.data.first(), Some(0x80..=0x8f));
                if data && d.t < start + 1500 && ends.contains(&d.src) && ends.contains(&d.dst) {
                    vec![]
                } else {
                    vec![(latency, d.data.clone())]
                }
            })));
        }
        for d in 0..2 {
            collect(c.ends[d].clone(), c.logs[d].clone());
            c.logs[d].lock().unwrap().pending = 1;
            tokio::spawn(perform(c.ends[d].clone(), c.logs[d].clone(), 0, d, 0, acts[d].clone()));
        }
        for (i, (victim, from, f, wait)) in forged.iter().enumerate() {
            let me = ends[*victim];
            let peer = ends[1 - *victim];
            let src = match from {
                // same host, other port; same port, other host; the other connection's client; anywhere
                0 => SocketAddr::new(peer.ip(), peer.port() ^ 1),
                1 => SocketAddr::new(host(99), peer.port()),
                2 if *victim == 1 => other.client_addr,
                _ => SocketAddr::new(host(98), 1234),
            };
            let d = match f {
                Forge::Message { class, ahead } => {
                    let fs: Vec<Frame> = (0..4)
                        .map(|k| Frame { class: *class, reliable: 2 + k + ahead, ordered: k + ahead + if *victim == 0 { 1 } else { 2 }, sequenced: k + 1000, body: payload(99, *victim, 0, i, *class, 30), ..Default::default() })
                        .collect();
                    wire::frames(2 + *ahead + i as u32, &fs)
                }
                Forge::Ack => wire::acks(0xc0, &[(0, 3000)], true),
                Forge::Nack => wire::acks(0xa0, &[(0, 3000)], true),
                Forge::Disconnect(true) => vec![0x15],
                Forge::Disconnect(false) => wire::frames(5, &[Frame { class: 0, body: vec![0x15], ..Default::default() }]),
                Forge::Junk(v) => v.clone(),
            };
            // a stranger may hold a connection of its own: only its own may suffer
            w.inject(latency, src, me, &d);
            sim::sleep(*wait).await;
        }
        let deadline = start + 40_000;
        let sent = |d: usize| c.logs[d].lock().unwrap().sends.iter().map(|m| (m.class, m.data.to_vec())).collect::<Sent>();
        let got = |d: usize| c.logs[d].lock().unwrap().recvs.iter().map(|r| r.1.clone()).collect::<Vec<_>>();
        while now() < deadline && ((0..2).any(|d| c.logs[d].lock().unwrap().pending > 0 || got(1 - d).len() < sent(d).len())) {
            sim::sleep(50).await;
        }
        sim::sleep(1000).await;
        no_panics()?;
        for d in 0..2 {
            lib_sent(&c.logs[d].lock().unwrap()).map_err(|e| format!("{} end: {e}", ["client", "server"][d]))?;
            if c.logs[d].lock().unwrap().pending > 0 {
                return Err(format!("a send of the {} did not return", ["client", "server"][d]));
            }
            all_arrived(["client to server", "server to client"][d], &sent(d), &got(1 - d))?;
        }
        for d in 0..2 {
            match within(1000, c.ends[d].flush()).await {
                Some(Ok(())) => {}
                x => return Err(format!("flush at the end: {x:?}")),
            }
        }
        let _ = Role::Client;
        no_panics()
    })
}

/// A generator for other modules.
pub fn some_rng(k: u64) -> Rng {
    Rng::new(k)
}
