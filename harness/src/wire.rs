//! An independent RakNet codec, written from the protocol description, not from the code under test.
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr, SocketAddr};

pub const MAGIC: [u8; 16] =
    [0x00, 0xff, 0xff, 0x00, 0xfe, 0xfe, 0xfe, 0xfe, 0xfd, 0xfd, 0xfd, 0xfd, 0x12, 0x34, 0x56, 0x78];

pub const UNRELIABLE: u8 = 0;
pub const UNRELIABLE_SEQ: u8 = 1;
pub const RELIABLE: u8 = 2;
pub const RELIABLE_ORD: u8 = 3;
pub const RELIABLE_SEQ: u8 = 4;

pub fn is_reliable(c: u8) -> bool {
    c >= 2
}
pub fn is_sequenced(c: u8) -> bool {
    c == 1 || c == 4
}
pub fn is_ordered(c: u8) -> bool {
    c == 1 || c == 3 || c == 4
}

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Split {
    pub size: u32,
    pub id: u16,
    pub index: u32,
}

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Frame {
    pub class: u8,
    pub reliable: u32,
    pub sequenced: u32,
    pub ordered: u32,
    pub channel: u8,
    pub split: Option<Split>,
    pub body: Vec<u8>,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Packet {
    Frames { id: u8, seq: u32, frames: Vec<Frame> },
    Ack(Vec<(u32, u32)>),
    Nack(Vec<(u32, u32)>),
    Ping { id: u8, time: i64, guid: u64 },
    Pong { time: i64, guid: u64, motd: Vec<u8> },
    Req1 { version: u8, pad: usize },
    Reply1 { guid: u64, security: u8, mtu: u16 },
    Req2 { addr: SocketAddr, mtu: u16, guid: u64 },
    Reply2 { guid: u64, addr: SocketAddr, mtu: u16, security: u8 },
    Incompatible { version: u8, guid: u64 },
    AlreadyConnected { guid: u64 },
    Disconnect,
}

pub struct W(pub Vec<u8>);
impl W {
    pub fn u8(&mut self, v: u8) -> &mut W {
        self.0.push(v);
        self
    }
    pub fn u16(&mut self, v: u16) -> &mut W {
        self.0.extend_from_slice(&v.to_be_bytes());
        self
    }
    pub fn u24(&mut self, v: u32) -> &mut W {
        self.0.extend_from_slice(&v.to_le_bytes()[..3]);
        self
    }
    pub fn u32(&mut self, v: u32) -> &mut W {
        self.0.extend_from_slice(&v.to_be_bytes());
        self
    }
    pub fn u64(&mut self, v: u64) -> &mut W {
        self.0.extend_from_slice(&v.to_be_bytes());
        self
    }
    pub fn raw(&mut self, v: &[u8]) -> &mut W {
        self.0.extend_from_slice(v);
        self
    }
    pub fn addr(&mut self, a: SocketAddr) -> &mut W {
        match a.ip() {
            IpAddr::V4(ip) => {
                self.u8(4);
                for b in ip.octets() {
                    self.u8(!b);
                }
                self.u16(a.port());
            }
            IpAddr::V6(ip) => {
                // version, family (AF_INET6 = 23, little endian), port, flow info, address, scope id
                self.u8(6).raw(&[23, 0]).u16(a.port()).u32(0).raw(&ip.octets()).u32(0);
            }
        }
        self
    }
}

#[derive(Debug, PartialEq, Eq)]
pub struct Bad(pub &'static str);

pub struct R<'a>(pub &'a [u8]);
impl<'a> R<'a> {
    pub fn take(&mut self, n: usize) -> Result<&'a [u8], Bad> {
        if self.0.len() < n {
            return Err(Bad("cut short"));
        }
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        Ok(a)
    }
    pub fn u8(&mut self) -> Result<u8, Bad> {
        Ok(self.take(1)?[0])
    }
    pub fn u16(&mut self) -> Result<u16, Bad> {
        Ok(u16::from_be_bytes(self.take(2)?.try_into().unwrap()))
    }
    pub fn u24(&mut self) -> Result<u32, Bad> {
        let b = self.take(3)?;
        Ok(u32::from_le_bytes([b[0], b[1], b[2], 0]))
    }
    pub fn u32(&mut self) -> Result<u32, Bad> {
        Ok(u32::from_be_bytes(self.take(4)?.try_into().unwrap()))
    }
    pub fn u64(&mut self) -> Result<u64, Bad> {
        Ok(u64::from_be_bytes(self.take(8)?.try_into().unwrap()))
    }
    pub fn magic(&mut self) -> Result<(), Bad> {
        if self.take(16)? == MAGIC {
            Ok(())
        } else {
            Err(Bad("wrong magic"))
        }
    }
    pub fn addr(&mut self) -> Result<SocketAddr, Bad> {
        match self.u8()? {
            4 => {
                let b = self.take(4)?;
                let ip = Ipv4Addr::new(!b[0], !b[1], !b[2], !b[3]);
                Ok(SocketAddr::new(IpAddr::V4(ip), self.u16()?))
            }
            6 => {
                self.take(2)?;
                let port = self.u16()?;
                self.take(4)?;
                let o: [u8; 16] = self.take(16)?.try_into().unwrap();
                self.take(4)?;
                Ok(SocketAddr::new(IpAddr::V6(Ipv6Addr::from(o)), port))
            }
            _ => Err(Bad("address family")),
        }
    }
}

impl Frame {
    pub fn write(&self, w: &mut W) {
        w.u8((self.class << 5) | if self.split.is_some() { 16 } else { 0 });
        w.u16((self.body.len() * 8) as u16);
        if is_reliable(self.class) {
            w.u24(self.reliable);
        }
        if is_sequenced(self.class) {
            w.u24(self.sequenced);
        }
        if is_ordered(self.class) {
            w.u24(self.ordered).u8(self.channel);
        }
        if let Some(s) = &self.split {
            w.u32(s.size).u16(s.id).u32(s.index);
        }
        w.raw(&self.body);
    }
    pub fn read(r: &mut R) -> Result<Frame, Bad> {
        let flags = r.u8()?;
        let mut f = Frame { class: flags >> 5, ..Default::default() };
        if f.class > 4 {
            return Err(Bad("reliability"));
        }
        if flags & 0x0f != 0 {
            return Err(Bad("reserved flag bits"));
        }
        let bits = r.u16()?;
        if bits == 0 || bits % 8 != 0 {
            return Err(Bad("frame length"));
        }
        if is_reliable(f.class) {
            f.reliable = r.u24()?;
        }
        if is_sequenced(f.class) {
            f.sequenced = r.u24()?;
        }
        if is_ordered(f.class) {
            f.ordered = r.u24()?;
            f.channel = r.u8()?;
        }
        if flags & 16 != 0 {
            f.split = Some(Split { size: r.u32()?, id: r.u16()?, index: r.u32()? });
        }
        f.body = r.take((bits / 8) as usize)?.to_vec();
        Ok(f)
    }
}

pub fn frames(seq: u32, fs: &[Frame]) -> Vec<u8> {
    let mut w = W(vec![]);
    let cont = fs.iter().any(|f| f.split.as_ref().map(|s| s.index != 0).unwrap_or(false));
    w.u8(0x80 | 4 | if cont { 8 } else { 0 }).u24(seq);
    for f in fs {
        f.write(&mut w);
    }
    w.0
}

/// Acknowledgement records; single numbers in the single form unless `long`.
pub fn acks(id: u8, recs: &[(u32, u32)], long: bool) -> Vec<u8> {
    let mut w = W(vec![id]);
    w.u16(recs.len() as u16);
    for (a, b) in recs {
        if a == b && !long {
            w.u8(1).u24(*a);
        } else {
            w.u8(0).u24(*a).u24(*b);
        }
    }
    w.0
}
pub fn ack(recs: &[(u32, u32)]) -> Vec<u8> {
    acks(0xc0, recs, false)
}
pub fn nack(recs: &[(u32, u32)]) -> Vec<u8> {
    acks(0xa0, recs, false)
}

impl Packet {
    pub fn encode(&self) -> Vec<u8> {
        let mut w = W(vec![]);
        match self {
            Packet::Frames { id, seq, frames: fs } => {
                let mut v = frames(*seq, fs);
                v[0] = *id;
                return v;
            }
            Packet::Ack(r) => return ack(r),
            Packet::Nack(r) => return nack(r),
            Packet::Ping { id, time, guid } => {
                w.u8(*id).u64(*time as u64).raw(&MAGIC).u64(*guid);
            }
            Packet::Pong { time, guid, motd } => {
                w.u8(0x1c).u64(*time as u64).u64(*guid).raw(&MAGIC).u16(motd.len() as u16).raw(motd);
            }
            Packet::Req1 { version, pad } => {
                w.u8(5).raw(&MAGIC).u8(*version).raw(&vec![0; *pad]);
            }
            Packet::Reply1 { guid, security, mtu } => {
                w.u8(6).raw(&MAGIC).u64(*guid).u8(*security).u16(*mtu);
            }
            Packet::Req2 { addr, mtu, guid } => {
                w.u8(7).raw(&MAGIC).addr(*addr).u16(*mtu).u64(*guid);
            }
            Packet::Reply2 { guid, addr, mtu, security } => {
                w.u8(8).raw(&MAGIC).u64(*guid).addr(*addr).u16(*mtu).u8(*security);
            }
            Packet::Incompatible { version, guid } => {
                w.u8(0x19).u8(*version).raw(&MAGIC).u64(*guid);
            }
            Packet::AlreadyConnected { guid } => {
                w.u8(0x12).raw(&MAGIC).u64(*guid);
            }
            Packet::Disconnect => {
                w.u8(0x15);
            }
        }
        w.0
    }

    /// Strict decoding: every byte accounted for.
    pub fn decode(d: &[u8]) -> Result<Packet, Bad> {
        let mut r = R(d);
        let id = r.u8()?;
        let p = match id {
            0x80..=0x8f => {
                let seq = r.u24()?;
                let mut fs = vec![];
                while !r.0.is_empty() {
                    fs.push(Frame::read(&mut r)?);
                }
                if fs.is_empty() {
                    return Err(Bad("frame set without frames"));
                }
                Packet::Frames { id, seq, frames: fs }
            }
            0xc0 | 0xa0 => {
                let n = r.u16()?;
                let mut v = vec![];
                for _ in 0..n {
                    let single = r.u8()?;
                    let a = r.u24()?;
                    let b = match single {
                        1 => a,
                        0 => r.u24()?,
                        _ => return Err(Bad("record form")),
                    };
                    if a > b {
                        return Err(Bad("inverted range"));
                    }
                    v.push((a, b));
                }
                if id == 0xc0 {
                    Packet::Ack(v)
                } else {
                    Packet::Nack(v)
                }
            }
            1 | 2 => {
                let time = r.u64()? as i64;
                r.magic()?;
                Packet::Ping { id, time, guid: r.u64()? }
            }
            0x1c => {
                let time = r.u64()? as i64;
                let guid = r.u64()?;
                r.magic()?;
                let n = r.u16()?;
                Packet::Pong { time, guid, motd: r.take(n as usize)?.to_vec() }
            }
            5 => {
                r.magic()?;
                let version = r.u8()?;
                let pad = r.0.len();
                r.take(pad)?;
                Packet::Req1 { version, pad }
            }
            6 => {
                r.magic()?;
                Packet::Reply1 { guid: r.u64()?, security: r.u8()?, mtu: r.u16()? }
            }
            7 => {
                r.magic()?;
                Packet::Req2 { addr: r.addr()?, mtu: r.u16()?, guid: r.u64()? }
            }
            8 => {
                r.magic()?;
                Packet::Reply2 { guid: r.u64()?, addr: r.addr()?, mtu: r.u16()?, security: r.u8()? }
            }
            0x19 => {
                let version = r.u8()?;
                r.magic()?;
                Packet::Incompatible { version, guid: r.u64()? }
            }
            0x12 => {
                r.magic()?;
                Packet::AlreadyConnected { guid: r.u64()? }
            }
            0x15 => Packet::Disconnect,
            _ => return Err(Bad("unknown packet id")),
        };
        if !r.0.is_empty() {
            return Err(Bad("trailing bytes"));
        }
        Ok(p)
    }
}

// Messages inside frames.

pub fn connection_request(guid: u64, time: i64) -> Vec<u8> {
    let mut w = W(vec![9]);
    w.u64(guid).u64(time as u64).u8(0);
    w.0
}
pub fn connection_request_accepted(client: SocketAddr, addrs: usize, req: i64, acc: i64) -> Vec<u8> {
    let mut w = W(vec![0x10]);
    w.addr(client).u16(0);
    for _ in 0..addrs {
        w.addr("255.255.255.255:19132".parse().unwrap());
    }
    w.u64(req as u64).u64(acc as u64);
    w.0
}
pub fn new_incoming(server: SocketAddr, addrs: usize, req: i64, acc: i64) -> Vec<u8> {
    let mut w = W(vec![0x13]);
    w.addr(server);
    for _ in 0..addrs {
        w.addr("0.0.0.0:0".parse().unwrap());
    }
    w.u64(req as u64).u64(acc as u64);
    w.0
}
pub fn connected_ping(t: i64) -> Vec<u8> {
    let mut w = W(vec![0]);
    w.u64(t as u64);
    w.0
}
pub fn connected_pong(t: i64, s: i64) -> Vec<u8> {
    let mut w = W(vec![3]);
    w.u64(t as u64).u64(s as u64);
    w.0
}

/// Merge sorted numbers into ranges.
pub fn ranges(nums: &[u32]) -> Vec<(u32, u32)> {
    let mut v: Vec<(u32, u32)> = vec![];
    for n in nums {
        match v.last_mut() {
            Some(l) if l.1 + 1 == *n => l.1 = *n,
            _ => v.push((*n, *n)),
        }
    }
    v
}
