//! C12: the packet codec, driven directly. Compiled into the `internals` binary only.
use crate::engine::{Case, Check, Src, Sub};
use crate::monitor::hex;
use crate::wire::{self, Frame, Packet, Split, W};
use rust_raknet::verif::arq::{FrameSetPacket, FrameVec};
use rust_raknet::verif::datatype::{RaknetReader, RaknetWriter};
use rust_raknet::verif::packet::*;
use rust_raknet::verif::utils::Endian;
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr, SocketAddr};

pub const CHECKS: &[Check] = &[Check {
    id: "C12",
    subs: &[
        Sub {
            name: "packets",
            run: packets,
            quick: 300_000,
            thorough: 20_000_000,
            rule: "one packet of each type with generated fields, encoded by the library and by the reference codec, decoded, and cut at every length; every case is non-trivial",
        },
        Sub {
            name: "frames",
            run: frames,
            quick: 300_000,
            thorough: 20_000_000,
            rule: "generated frame sets, both directions and cut at every length; non-trivial if there are several frames or a fragment",
        },
        Sub {
            name: "bytes",
            run: bytes,
            quick: 1_000_000,
            thorough: 60_000_000,
            rule: "arbitrary and mutated bytes through every decoder, compared with the reference codec where that accepts them; non-trivial if at least one decoder accepted them",
        },
        Sub {
            name: "primitives",
            run: primitives,
            quick: 300_000,
            thorough: 20_000_000,
            rule: "generated sequences of writes read back, and generated reads of arbitrary bytes; non-trivial if at least three different primitives were used",
        },
    ],
}];

fn i64v(s: &mut Src) -> i64 {
    s.u64() as i64
}
fn u16v(s: &mut Src) -> u16 {
    match s.weighted(&[2, 1, 2]) {
        0 => s.below(65_536) as u16,
        1 => 65_535 - s.below(3) as u16,
        _ => s.below(300) as u16,
    }
}
fn u24(s: &mut Src) -> u32 {
    match s.weighted(&[2, 1, 2]) {
        0 => s.below(1 << 24) as u32,
        1 => 0xff_ffff - s.below(3) as u32,
        _ => s.below(300) as u32,
    }
}
fn addr(s: &mut Src) -> SocketAddr {
    let port = u16v(s);
    let ip = if s.chance(1, 2) {
        let v = s.below(u64::MAX) as u128;
        let w = match s.weighted(&[2, 1, 1]) {
            0 => v << 64 | s.below(u64::MAX) as u128,
            1 => v,
            _ => u128::MAX - v % 7,
        };
        IpAddr::V6(Ipv6Addr::from(w))
    } else {
        IpAddr::V4(Ipv4Addr::from(match s.weighted(&[2, 1, 1]) {
            0 => s.below(1 << 32) as u32,
            1 => s.below(300) as u32,
            _ => u32::MAX - s.below(300) as u32,
        }))
    };
    SocketAddr::new(ip, port)
}
fn text(s: &mut Src) -> String {
    let n = match s.weighted(&[4, 2, 1]) {
        0 => s.usize(0, 30),
        1 => s.usize(200, 300),
        _ => s.pick(&[65_535usize, 32_768, 1025, 65_534]),
    };
    if n > 1000 {
        return "m".repeat(n);
    }
    (0..n).map(|_| s.pick(&['a', ';', '\u{a7}', '\u{1f600}', '\0', '\u{ffff}', 'Z'])).collect()
}

fn eq<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T) -> Case {
    if got == want {
        Ok(())
    } else {
        Err(format!("decoding gives {what} {got:?}, encoded was {want:?}"))
    }
}
fn same(what: &str, lib: Result<Vec<u8>, rust_raknet::error::RaknetError>, want: &[u8]) -> Case {
    match lib {
        Ok(v) if v == want => Ok(()),
        Ok(v) => Err(format!("{what}: the library encodes {} where the protocol says {}", hex(&v), hex(want))),
        Err(e) => Err(format!("{what}: encoding fails with {e:?}")),
    }
}
/// Every proper prefix shorter than `needed` must be rejected, none may panic.
fn cuts<T>(what: &str, d: &[u8], needed: usize, f: impl Fn(&[u8]) -> Result<T, rust_raknet::error::RaknetError>) -> Case {
    let step = (d.len() / 300).max(1);
    for n in (0..d.len()).step_by(step).chain(needed.saturating_sub(3)..needed) {
        if f(&d[..n]).is_ok() && n < needed {
            return Err(format!("{what} cut to {n} of the {needed} bytes of its fields was accepted: {}", hex(&d[..n])));
        }
    }
    Ok(())
}
type Rd<T> = Result<T, rust_raknet::error::RaknetError>;
fn dec<T>(what: &str, r: Rd<T>) -> Result<T, String> {
    r.map_err(|e| format!("decoding a {what} fails with {e:?}"))
}

fn records(s: &mut Src) -> Vec<(u32, u32)> {
    s.list(0, 5, 300, |s, _| {
        let a = u24(s);
        let b = if s.chance(1, 2) { a } else { a + s.below((0x100_0000 - a as u64).min(70_000)) as u32 };
        (a, b)
    })
}

fn packets(s: &mut Src) -> Case {
    s.nontrivial(true);
    let k = s.below(16);
    s.note(format!("packet kind {k}"));
    match k {
        0 => {
            let (time, guid) = (i64v(s), s.u64());
            let d = Packet::Ping { id: 1, time, guid }.encode();
            s.note(hex(&d));
            same("UnconnectedPing", write_packet_ping(&PacketUnconnectedPing { time, magic: true, guid }), &d)?;
            for id in [1, 2] {
                let mut d = d.clone();
                d[0] = id;
                let p = dec("UnconnectedPing", read_packet_ping(&d))?;
                eq("time", p.time, time)?;
                eq("guid", p.guid, guid)?;
                eq("magic", p.magic, true)?;
            }
            cuts("UnconnectedPing", &d, d.len(), read_packet_ping)
        }
        1 => {
            let (time, guid, motd) = (i64v(s), s.u64(), text(s));
            let d = Packet::Pong { time, guid, motd: motd.clone().into_bytes() }.encode();
            s.note(hex(&d));
            same("UnconnectedPong", write_packet_pong(&PacketUnconnectedPong { time, guid, magic: true, motd: motd.clone() }), &d)?;
            let p = dec("UnconnectedPong", read_packet_pong(&d))?;
            eq("time", p.time, time)?;
            eq("guid", p.guid, guid)?;
            eq("magic", p.magic, true)?;
            eq("motd", p.motd, motd)?;
            cuts("UnconnectedPong", &d, d.len(), read_packet_pong)
        }
        2 => {
            let (version, mtu) = (s.below(256) as u8, s.pick(&[46u16, 47, 400, 1400, 1492, 2000]) + s.below(3) as u16);
            let d = Packet::Req1 { version, pad: mtu as usize - 46 }.encode();
            s.note(hex(&d));
            same("OpenConnectionRequest1", write_packet_connection_open_request_1(&OpenConnectionRequest1 { magic: true, protocol_version: version, mtu_size: mtu }), &d)?;
            let p = dec("OpenConnectionRequest1", read_packet_connection_open_request_1(&d))?;
            eq("version", p.protocol_version, version)?;
            eq("mtu", p.mtu_size, mtu)?;
            eq("magic", p.magic, true)?;
            cuts("OpenConnectionRequest1", &d, 18, read_packet_connection_open_request_1)
        }
        3 => {
            let (guid, security, mtu) = (s.u64(), s.below(256) as u8, u16v(s));
            let d = Packet::Reply1 { guid, security, mtu }.encode();
            s.note(hex(&d));
            same("OpenConnectionReply1", write_packet_connection_open_reply_1(&OpenConnectionReply1 { magic: true, guid, use_encryption: security, mtu_size: mtu }), &d)?;
            let p = dec("OpenConnectionReply1", read_packet_connection_open_reply_1(&d))?;
            eq("guid", p.guid, guid)?;
            eq("security", p.use_encryption, security)?;
            eq("mtu", p.mtu_size, mtu)?;
            eq("magic", p.magic, true)?;
            cuts("OpenConnectionReply1", &d, d.len(), read_packet_connection_open_reply_1)
        }
        4 => {
            let (a, mtu, guid) = (addr(s), u16v(s), s.u64());
            let d = Packet::Req2 { addr: a, mtu, guid }.encode();
            s.note(hex(&d));
            same("OpenConnectionRequest2", write_packet_connection_open_request_2(&OpenConnectionRequest2 { magic: true, address: a, mtu, guid }), &d)?;
            let p = dec("OpenConnectionRequest2", read_packet_connection_open_request_2(&d))?;
            eq("address", p.address, a)?;
            eq("mtu", p.mtu, mtu)?;
            eq("guid", p.guid, guid)?;
            eq("magic", p.magic, true)?;
            cuts("OpenConnectionRequest2", &d, d.len(), read_packet_connection_open_request_2)
        }
        5 => {
            let (guid, a, mtu, security) = (s.u64(), addr(s), u16v(s), s.below(256) as u8);
            let d = Packet::Reply2 { guid, addr: a, mtu, security }.encode();
            s.note(hex(&d));
            same("OpenConnectionReply2", write_packet_connection_open_reply_2(&OpenConnectionReply2 { magic: true, guid, address: a, mtu, encryption_enabled: security }), &d)?;
            let p = dec("OpenConnectionReply2", read_packet_connection_open_reply_2(&d))?;
            eq("guid", p.guid, guid)?;
            eq("address", p.address, a)?;
            eq("mtu", p.mtu, mtu)?;
            eq("security", p.encryption_enabled, security)?;
            eq("magic", p.magic, true)?;
            cuts("OpenConnectionReply2", &d, d.len(), read_packet_connection_open_reply_2)
        }
        6 => {
            let guid = s.u64();
            let d = Packet::AlreadyConnected { guid }.encode();
            s.note(hex(&d));
            same("AlreadyConnected", write_packet_already_connected(&AlreadyConnected { magic: true, guid }), &d)
        }
        7 => {
            let (version, guid) = (s.below(256) as u8, s.u64());
            let d = Packet::Incompatible { version, guid }.encode();
            s.note(hex(&d));
            same(
                "IncompatibleProtocolVersion",
                write_packet_incompatible_protocol_version(&IncompatibleProtocolVersion { server_protocol: version, magic: true, server_guid: guid }),
                &d,
            )?;
            let p = dec("IncompatibleProtocolVersion", read_packet_incompatible_protocol_version(&d))?;
            eq("version", p.server_protocol, version)?;
            eq("guid", p.server_guid, guid)?;
            eq("magic", p.magic, true)?;
            cuts("IncompatibleProtocolVersion", &d, d.len(), read_packet_incompatible_protocol_version)
        }
        8 | 9 => {
            let recs = records(s);
            let id = if k == 8 { 0xc0 } else { 0xa0 };
            let n = recs.len() as u16;
            let d = wire::acks(id, &recs, false);
            s.note(hex(&d));
            let long = wire::acks(id, &recs, true);
            if k == 8 {
                same("Ack", write_packet_ack(&Ack { record_count: n, sequences: recs.clone() }), &d)?;
                for d in [&d, &long] {
                    let p = dec("Ack", read_packet_ack(d))?;
                    eq("records", p.sequences, recs.clone())?;
                    eq("count", p.record_count, n)?;
                    cuts("Ack", d, d.len(), read_packet_ack)?;
                }
            } else {
                same("Nack", write_packet_nack(&Nack { record_count: n, sequences: recs.clone() }), &d)?;
                for d in [&d, &long] {
                    let p = dec("Nack", read_packet_nack(d))?;
                    eq("records", p.sequences, recs.clone())?;
                    eq("count", p.record_count, n)?;
                    cuts("Nack", d, d.len(), read_packet_nack)?;
                }
            }
            Ok(())
        }
        10 => {
            let (guid, time, enc) = (s.u64(), i64v(s), s.below(256) as u8);
            let mut d = wire::connection_request(guid, time);
            *d.last_mut().unwrap() = enc;
            s.note(hex(&d));
            same("ConnectionRequest", write_packet_connection_request(&ConnectionRequest { guid, time, use_encryption: enc }), &d)?;
            let p = dec("ConnectionRequest", read_packet_connection_request(&d))?;
            eq("guid", p.guid, guid)?;
            eq("time", p.time, time)?;
            eq("security", p.use_encryption, enc)?;
            cuts("ConnectionRequest", &d, d.len(), read_packet_connection_request)
        }
        11 => {
            let (a, index, t1, t2) = (addr(s), u16v(s), i64v(s), i64v(s));
            let mut d = wire::connection_request_accepted(a, 10, t1, t2);
            let at = if a.is_ipv4() { 8 } else { 30 };
            d[at..at + 2].copy_from_slice(&index.to_be_bytes());
            s.note(hex(&d));
            same(
                "ConnectionRequestAccepted",
                write_packet_connection_request_accepted(&ConnectionRequestAccepted { client_address: a, system_index: index, request_timestamp: t1, accepted_timestamp: t2 }),
                &d,
            )?;
            // the library does not decode what follows the index, as the number of addresses varies
            for n in [10, 20, 0, 7] {
                let mut d = wire::connection_request_accepted(a, n, t1, t2);
                d[at..at + 2].copy_from_slice(&index.to_be_bytes());
                let p = dec("ConnectionRequestAccepted", read_packet_connection_request_accepted(&d))?;
                eq("address", p.client_address, a)?;
                eq("index", p.system_index, index)?;
            }
            cuts("ConnectionRequestAccepted", &d, at + 2, read_packet_connection_request_accepted)
        }
        12 => {
            let (a, t1, t2) = (addr(s), i64v(s), i64v(s));
            let d = wire::new_incoming(a, 10, t1, t2);
            s.note(hex(&d));
            same("NewIncomingConnection", write_packet_new_incomming_connection(&NewIncomingConnection { server_address: a, request_timestamp: t1, accepted_timestamp: t2 }), &d)?;
            // peers fill in addresses of either family
            let mut w = W(vec![0x13]);
            w.addr(a);
            for _ in 0..10 {
                let x = addr(s);
                w.addr(x);
            }
            w.u64(t1 as u64).u64(t2 as u64);
            for d in [&d, &w.0] {
                let p = dec("NewIncomingConnection", read_packet_new_incomming_connection(d))?;
                eq("address", p.server_address, a)?;
                eq("request time", p.request_timestamp, t1)?;
                eq("accepted time", p.accepted_timestamp, t2)?;
                cuts("NewIncomingConnection", d, d.len(), read_packet_new_incomming_connection)?;
            }
            Ok(())
        }
        13 => {
            let t = i64v(s);
            let d = wire::connected_ping(t);
            s.note(hex(&d));
            same("ConnectedPing", write_packet_connected_ping(&ConnectedPing { client_timestamp: t }), &d)?;
            eq("time", dec("ConnectedPing", read_packet_connected_ping(&d))?.client_timestamp, t)?;
            cuts("ConnectedPing", &d, d.len(), read_packet_connected_ping)
        }
        14 => {
            let (t, u) = (i64v(s), i64v(s));
            let d = wire::connected_pong(t, u);
            s.note(hex(&d));
            same("ConnectedPong", write_packet_connected_pong(&ConnectedPong { client_timestamp: t, server_timestamp: u }), &d)
        }
        _ => {
            for b in 0..=255u8 {
                let known = matches!(b, 0..=3 | 5..=9 | 0x10 | 0x12 | 0x13 | 0x15 | 0x19 | 0x1c | 0x80..=0x8d | 0xa0 | 0xc0 | 0xfe);
                match PacketID::from(b) {
                    Ok(p) if known && (p.to_u8() == b || (0x80..=0x8d).contains(&b)) => {}
                    Err(_) if !known => {}
                    r => return Err(format!("packet id {b:#x} reads as {:?}", r.map(|p| p.to_u8()))),
                }
            }
            Ok(())
        }
    }
}

fn gen_frame(s: &mut Src) -> Frame {
    let class = s.below(5) as u8;
    let mut f = Frame { class, ..Default::default() };
    if wire::is_reliable(class) {
        f.reliable = u24(s);
    }
    if wire::is_sequenced(class) {
        f.sequenced = u24(s);
    }
    if wire::is_ordered(class) {
        f.ordered = u24(s);
        f.channel = s.pick(&[0u8, 1, 31]);
    }
    if s.chance(1, 3) {
        f.split = Some(Split { size: s.below(1 << 32) as u32, id: u16v(s), index: if s.chance(1, 2) { s.below(1 << 32) as u32 } else { 0 } });
    }
    let n = match s.weighted(&[4, 1, 1]) {
        0 => s.usize(1, 30),
        1 => s.usize(1, 1400),
        _ => s.pick(&[8191usize, 255, 256, 32]),
    };
    f.body = s.filler(n);
    f
}

fn to_lib(f: &Frame, seq: u32) -> FrameSetPacket {
    let mut x = FrameSetPacket::new(crate::scenario::rel(f.class), f.body.clone());
    x.sequence_number = seq;
    x.reliable_frame_index = f.reliable;
    x.sequenced_frame_index = f.sequenced;
    x.ordered_frame_index = f.ordered;
    x.order_channel = f.channel;
    if let Some(p) = &f.split {
        x.flags |= 16;
        x.compound_size = p.size;
        x.compound_id = p.id;
        x.fragment_index = p.index;
    }
    x
}
fn from_lib(x: &FrameSetPacket) -> Frame {
    Frame {
        class: x.flags >> 5,
        reliable: x.reliable_frame_index,
        sequenced: x.sequenced_frame_index,
        ordered: x.ordered_frame_index,
        channel: x.order_channel,
        split: if x.is_fragment() { Some(Split { size: x.compound_size, id: x.compound_id, index: x.fragment_index }) } else { None },
        body: x.data.clone(),
    }
}

fn frames(s: &mut Src) -> Case {
    let seq = u24(s);
    let fs: Vec<Frame> = s.list(1, 3, 12, |s, _| gen_frame(s));
    let id = s.pick(&[0x84u8, 0x80, 0x8d, 0x8c, 0x88]);
    s.nontrivial(fs.len() > 1 || fs.iter().any(|f| f.split.is_some()));
    s.note(format!("seq {seq}: {}", fs.iter().map(crate::monitor::show).collect::<Vec<_>>().join(" ")));
    // one frame, as the library sends it
    for f in &fs {
        let want = wire::frames(seq, std::slice::from_ref(f));
        let x = to_lib(f, seq);
        same("frame set", x.serialize(), &want)?;
        eq("reliable", x.is_reliable().unwrap(), wire::is_reliable(f.class))?;
        eq("sequenced", x.is_sequenced().unwrap(), wire::is_sequenced(f.class))?;
        eq("ordered", x.is_ordered().unwrap(), wire::is_ordered(f.class))?;
        eq("fragment", x.is_fragment(), f.split.is_some())?;
    }
    let mut d = wire::frames(seq, &fs);
    d[0] = id;
    let v = dec("frame set", FrameVec::new(d.clone()))?;
    eq("id", v.id, id)?;
    eq("sequence number", v.sequence_number, seq)?;
    let got: Vec<Frame> = v.frames.iter().map(from_lib).collect();
    for (i, f) in fs.iter().enumerate() {
        if got.get(i) != Some(f) {
            return Err(format!("frame {i} decodes to {:?}, encoded was {}", got.get(i).map(crate::monitor::show), crate::monitor::show(f)));
        }
        eq("sequence number of the frame", v.frames[i].sequence_number, seq)?;
    }
    eq("number of frames", got.len(), fs.len())?;
    // cut anywhere: whole frames only
    let mut ends = vec![4usize];
    let mut w = W(vec![0; 4]);
    for f in &fs {
        f.write(&mut w);
        ends.push(w.0.len());
    }
    let step = (d.len() / 200).max(1);
    for n in (0..d.len()).step_by(step).chain(ends.iter().map(|e| e - 1)) {
        match (FrameVec::new(d[..n].to_vec()), ends.iter().position(|e| *e == n)) {
            (Err(_), _) => {}
            (Ok(v), Some(k)) => eq("number of frames of a frame set cut between frames", v.frames.len(), k)?,
            (Ok(v), None) => return Err(format!("a frame set cut to {n} of {} bytes, inside a frame, decodes to {} frames", d.len(), v.frames.len())),
        }
    }
    Ok(())
}

fn valid(s: &mut Src) -> Vec<u8> {
    match s.below(14) {
        0 => Packet::Ping { id: 1, time: i64v(s), guid: s.u64() }.encode(),
        1 => Packet::Pong { time: i64v(s), guid: s.u64(), motd: text(s).into_bytes().into_iter().take(60).collect() }.encode(),
        2 => Packet::Req1 { version: 10, pad: s.usize(0, 60) }.encode(),
        3 => Packet::Reply1 { guid: s.u64(), security: 0, mtu: u16v(s) }.encode(),
        4 => Packet::Req2 { addr: addr(s), mtu: u16v(s), guid: s.u64() }.encode(),
        5 => Packet::Reply2 { guid: s.u64(), addr: addr(s), mtu: u16v(s), security: 0 }.encode(),
        6 => Packet::Incompatible { version: 3, guid: s.u64() }.encode(),
        7 => wire::ack(&records(s)),
        8 => wire::nack(&records(s)),
        9 => wire::connection_request(s.u64(), i64v(s)),
        10 => wire::connection_request_accepted(addr(s), 10, 1, 2),
        11 => wire::new_incoming(addr(s), 10, 1, 2),
        12 => wire::connected_ping(i64v(s)),
        _ => {
            let fs: Vec<Frame> = s.list(1, 2, 4, |s, _| gen_frame(s));
            wire::frames(u24(s), &fs)
        }
    }
}

fn bytes(s: &mut Src) -> Case {
    let mut d = if s.chance(2, 3) {
        valid(s)
    } else {
        let n = s.usize(0, 80);
        s.filler(n)
    };
    if s.chance(1, 3) {
        if let Some(b) = d.first_mut() {
            *b = s.pick(&[0x84u8, 0xc0, 0xa0, 1, 0x1c, 5, 6, 7, 8, 0x19, 9, 0x10, 0x13, 0]);
        }
    }
    let edits = s.list(0, 1, 4, |s, _| (s.below(4), s.u64(), s.below(256) as u8));
    for (k, at, b) in edits {
        let n = d.len();
        if n == 0 {
            break;
        }
        let at = (at % n as u64) as usize;
        match k {
            0 => d[at] = b,
            1 => d.truncate(at),
            2 => d[at] ^= 1 << (b % 8),
            _ => {
                d.insert(at, b);
            }
        }
    }
    s.note(hex(&d));
    let strict = Packet::decode(&d).ok();
    let mut ok = 0;
    macro_rules! run {
        ($f:expr) => {{
            let r = $f(&d);
            ok += r.is_ok() as u32;
            r
        }};
    }
    let ping = run!(read_packet_ping);
    let pong = run!(read_packet_pong);
    let q1 = run!(read_packet_connection_open_request_1);
    let q2 = run!(read_packet_connection_open_request_2);
    let r1 = run!(read_packet_connection_open_reply_1);
    let r2 = run!(read_packet_connection_open_reply_2);
    let inc = run!(read_packet_incompatible_protocol_version);
    let ack = run!(read_packet_ack);
    let nack = run!(read_packet_nack);
    let _ = run!(read_packet_connection_request);
    let _ = run!(read_packet_connection_request_accepted);
    let _ = run!(read_packet_new_incomming_connection);
    let _ = run!(read_packet_connected_ping);
    let fv = FrameVec::new(d.clone());
    ok += fv.is_ok() as u32;
    s.nontrivial(ok > 0);
    match strict {
        Some(Packet::Ping { time, guid, .. }) => {
            let p = dec("ping", ping)?;
            eq("time and guid", (p.time, p.guid), (time, guid))
        }
        Some(Packet::Pong { time, guid, motd }) => match String::from_utf8(motd) {
            Err(_) => Ok(()),
            Ok(m) => {
                let p = dec("pong", pong)?;
                eq("time, guid and motd", (p.time, p.guid, p.motd), (time, guid, m))
            }
        },
        Some(Packet::Req1 { version, pad }) => {
            let p = dec("request 1", q1)?;
            eq("version and mtu", (p.protocol_version, p.mtu_size as usize), (version, pad + 46))
        }
        Some(Packet::Reply1 { guid, security, mtu }) => {
            let p = dec("reply 1", r1)?;
            eq("fields", (p.guid, p.use_encryption, p.mtu_size), (guid, security, mtu))
        }
        Some(Packet::Req2 { addr, mtu, guid }) => {
            let p = dec("request 2", q2)?;
            eq("fields", (p.address, p.mtu, p.guid), (addr, mtu, guid))
        }
        Some(Packet::Reply2 { guid, addr, mtu, security }) => {
            let p = dec("reply 2", r2)?;
            eq("fields", (p.guid, p.address, p.mtu, p.encryption_enabled), (guid, addr, mtu, security))
        }
        Some(Packet::Incompatible { version, guid }) => {
            let p = dec("incompatible version", inc)?;
            eq("fields", (p.server_protocol, p.server_guid), (version, guid))
        }
        Some(Packet::Ack(r)) => eq("records", dec("ack", ack)?.sequences, r),
        Some(Packet::Nack(r)) => eq("records", dec("nack", nack)?.sequences, r),
        Some(Packet::Frames { seq, frames, .. }) => {
            let v = dec("frame set", fv)?;
            eq("sequence number", v.sequence_number, seq)?;
            let got: Vec<Frame> = v.frames.iter().map(from_lib).collect();
            if got != frames {
                return Err(format!("decodes to {got:?}, encoded was {frames:?}"));
            }
            Ok(())
        }
        _ => Ok(()),
    }
}

#[derive(Clone, Debug, PartialEq)]
enum V {
    U8(u8),
    U16(u16, bool),
    U24(u32, bool),
    U32(u32, bool),
    U64(u64, bool),
    I64(i64, bool),
    Str(String),
    Addr(SocketAddr),
    Magic,
    Raw(Vec<u8>),
}
fn endian(big: bool) -> Endian {
    if big { Endian::Big } else { Endian::Little }
}

fn primitives(s: &mut Src) -> Case {
    let vs: Vec<V> = s.list(1, 8, 40, |s, _| {
        let big = s.chance(1, 2);
        match s.below(10) {
            0 => V::U8(s.below(256) as u8),
            1 => V::U16(u16v(s), big),
            2 => V::U24(u24(s), big),
            3 => V::U32(s.below(1 << 32) as u32, big),
            4 => V::U64(s.u64(), big),
            5 => V::I64(i64v(s), big),
            6 => V::Str(text(s)),
            7 => V::Addr(addr(s)),
            8 => V::Magic,
            _ => {
                let n = s.usize(0, 20);
                V::Raw(s.filler(n))
            }
        }
    });
    s.note(crate::engine::clip(&format!("{vs:?}"), 600));
    let mut kinds: Vec<std::mem::Discriminant<V>> = vec![];
    vs.iter().map(std::mem::discriminant).for_each(|d| if !kinds.contains(&d) { kinds.push(d) });
    s.nontrivial(kinds.len() >= 3);
    let mut w = RaknetWriter::new();
    let mut want = W(vec![]);
    for v in &vs {
        let r = match v {
            V::U8(x) => { want.u8(*x); w.write_u8(*x) }
            V::U16(x, b) => { want.raw(&if *b { x.to_be_bytes() } else { x.to_le_bytes() }); w.write_u16(*x, endian(*b)) }
            V::U24(x, b) => { let y = x.to_be_bytes(); want.raw(&if *b { [y[1], y[2], y[3]] } else { [y[3], y[2], y[1]] }); w.write_u24(*x, endian(*b)) }
            V::U32(x, b) => { want.raw(&if *b { x.to_be_bytes() } else { x.to_le_bytes() }); w.write_u32(*x, endian(*b)) }
            V::U64(x, b) => { want.raw(&if *b { x.to_be_bytes() } else { x.to_le_bytes() }); w.write_u64(*x, endian(*b)) }
            V::I64(x, b) => { want.raw(&if *b { x.to_be_bytes() } else { x.to_le_bytes() }); w.write_i64(*x, endian(*b)) }
            V::Str(x) => { want.u16(x.len() as u16).raw(x.as_bytes()); w.write_string(x) }
            V::Addr(x) => { want.addr(*x); w.write_address(*x) }
            V::Magic => { want.raw(&wire::MAGIC); w.write_magic().map(|_| ()) }
            V::Raw(x) => { want.raw(x); w.write(x) }
        };
        r.map_err(|e| format!("writing {v:?} fails with {e:?}"))?;
    }
    let d = w.get_raw_payload();
    if d != want.0 {
        return Err(format!("written as {} where {} was due", hex(&d), hex(&want.0)));
    }
    let read = |r: &mut RaknetReader, v: &V| -> Result<V, rust_raknet::error::RaknetError> {
        Ok(match v {
            V::U8(_) => V::U8(r.read_u8()?),
            V::U16(_, b) => V::U16(r.read_u16(endian(*b))?, *b),
            V::U24(_, b) => V::U24(r.read_u24(endian(*b))?, *b),
            V::U32(_, b) => V::U32(r.read_u32(endian(*b))?, *b),
            V::U64(_, b) => V::U64(r.read_u64(endian(*b))?, *b),
            V::I64(_, b) => V::I64(r.read_i64(endian(*b))?, *b),
            V::Str(_) => V::Str(r.read_string()?),
            V::Addr(_) => V::Addr(r.read_address()?),
            V::Magic => {
                if r.read_magic()? {
                    V::Magic
                } else {
                    V::Raw(vec![])
                }
            }
            V::Raw(x) => {
                let mut b = vec![0; x.len()];
                r.read(&mut b)?;
                V::Raw(b)
            }
        })
    };
    let mut r = RaknetReader::new(d.clone());
    for v in &vs {
        match read(&mut r, v) {
            Ok(x) if x == *v => {}
            x => return Err(format!("{v:?} reads back as {x:?}")),
        }
    }
    eq("position", r.pos(), d.len() as u64)?;
    // the same reads of something else never panic, and never deliver more than there is
    let cut = s.usize(0, d.len());
    let other = if s.chance(1, 2) {
        d[..cut].to_vec()
    } else {
        let n = s.usize(0, 60);
        s.filler(n)
    };
    let shorter = other.len() < d.len() && d.starts_with(&other);
    let mut r = RaknetReader::new(other);
    let mut failed = false;
    for v in &vs {
        let x = read(&mut r, v);
        if shorter && !failed && matches!(&x, Ok(x) if x != v) {
            return Err(format!("{v:?} reads as {x:?} when the buffer is cut short"));
        }
        failed |= x.is_err();
    }
    if shorter && !failed {
        return Err("all values could be read from a buffer that is too short".into());
    }
    Ok(())
}
