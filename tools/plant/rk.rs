//! A minimal hand-written RakNet peer over a blocking UDP socket.
#![allow(dead_code)]
use std::net::{SocketAddr, UdpSocket};
use std::time::{Duration, Instant};

pub const MAGIC: [u8; 16] = [
    0x00, 0xff, 0xff, 0x00, 0xfe, 0xfe, 0xfe, 0xfe, 0xfd, 0xfd, 0xfd, 0xfd, 0x12, 0x34, 0x56, 0x78,
];
pub const UNRELIABLE: u8 = 0;
pub const UNRELIABLE_SEQ: u8 = 1;
pub const RELIABLE: u8 = 2;
pub const ORDERED: u8 = 3;
pub const RELIABLE_SEQ: u8 = 4;

pub fn u24(n: u32) -> [u8; 3] {
    let b = n.to_le_bytes();
    [b[0], b[1], b[2]]
}
pub fn r24(b: &[u8]) -> u32 {
    u32::from_le_bytes([b[0], b[1], b[2], 0])
}
pub fn address(a: SocketAddr) -> Vec<u8> {
    let mut v = vec![4];
    if let SocketAddr::V4(a) = a {
        v.extend(a.ip().octets().iter().map(|b| !b));
        v.extend(a.port().to_be_bytes());
    }
    v
}
pub fn read_address(b: &[u8]) -> SocketAddr {
    SocketAddr::from(([!b[1], !b[2], !b[3], !b[4]], u16::from_be_bytes([b[5], b[6]])))
}

#[derive(Clone, Debug, Default)]
pub struct Frame {
    pub rel: u8,
    pub ri: u32,
    pub si: u32,
    pub oi: u32,
    /// size, id, index
    pub frag: Option<(u32, u16, u32)>,
    pub data: Vec<u8>,
}
impl Frame {
    pub fn new(rel: u8, ri: u32, oi: u32, data: &[u8]) -> Self {
        Frame { rel, ri, si: 0, oi, frag: None, data: data.to_vec() }
    }
    pub fn bytes(&self) -> Vec<u8> {
        let mut v = vec![self.rel << 5 | if self.frag.is_some() { 16 } else { 0 }];
        v.extend((self.data.len() as u16 * 8).to_be_bytes());
        if matches!(self.rel, 2..=4) {
            v.extend(u24(self.ri));
        }
        if matches!(self.rel, 1 | 4) {
            v.extend(u24(self.si));
        }
        if matches!(self.rel, 1 | 3 | 4) {
            v.extend(u24(self.oi));
            v.push(0);
        }
        if let Some((size, id, index)) = self.frag {
            v.extend(size.to_be_bytes());
            v.extend(id.to_be_bytes());
            v.extend(index.to_be_bytes());
        }
        v.extend(&self.data);
        v
    }
}
pub fn datagram(seq: u32, frames: &[Frame]) -> Vec<u8> {
    let mut v = vec![0x84];
    v.extend(u24(seq));
    for f in frames {
        v.extend(f.bytes());
    }
    v
}
pub fn parse(b: &[u8]) -> (u32, Vec<Frame>) {
    let seq = r24(&b[1..]);
    let (mut p, mut out) = (4, vec![]);
    while p < b.len() {
        let flags = b[p];
        let len = (u16::from_be_bytes([b[p + 1], b[p + 2]]) / 8) as usize;
        p += 3;
        let mut f = Frame { rel: flags >> 5, ..Default::default() };
        if matches!(f.rel, 2..=4) {
            f.ri = r24(&b[p..]);
            p += 3;
        }
        if matches!(f.rel, 1 | 4) {
            f.si = r24(&b[p..]);
            p += 3;
        }
        if matches!(f.rel, 1 | 3 | 4) {
            f.oi = r24(&b[p..]);
            p += 4;
        }
        if flags & 16 != 0 {
            f.frag = Some((
                u32::from_be_bytes(b[p..p + 4].try_into().unwrap()),
                u16::from_be_bytes(b[p + 4..p + 6].try_into().unwrap()),
                u32::from_be_bytes(b[p + 6..p + 10].try_into().unwrap()),
            ));
            p += 10;
        }
        f.data = b[p..p + len].to_vec();
        p += len;
        out.push(f);
    }
    (seq, out)
}
/// An ACK (0xc0) or NACK (0xa0) of ranges.
pub fn ranges(id: u8, r: &[(u32, u32)]) -> Vec<u8> {
    let mut v = vec![id];
    v.extend((r.len() as u16).to_be_bytes());
    for (a, b) in r {
        v.push((a == b) as u8);
        v.extend(u24(*a));
        if a != b {
            v.extend(u24(*b));
        }
    }
    v
}
pub fn parse_ranges(b: &[u8]) -> Vec<(u32, u32)> {
    let n = u16::from_be_bytes([b[1], b[2]]);
    let (mut p, mut out) = (3, vec![]);
    for _ in 0..n {
        let single = b[p] == 1;
        let a = r24(&b[p + 1..]);
        p += 4;
        let mut e = a;
        if !single {
            e = r24(&b[p..]);
            p += 3;
        }
        out.push((a, e));
    }
    out
}

pub struct Peer {
    pub s: UdpSocket,
    pub to: SocketAddr,
    /// next datagram, reliable and ordered number to use
    pub seq: u32,
    pub ri: u32,
    pub oi: u32,
}
impl Peer {
    pub fn me(&self) -> SocketAddr {
        self.s.local_addr().unwrap()
    }
    pub fn raw(&self, b: &[u8]) {
        self.s.send_to(b, self.to).unwrap();
    }
    pub fn recv(&self, ms: u64) -> Option<Vec<u8>> {
        self.s.set_read_timeout(Some(Duration::from_millis(ms.max(1)))).unwrap();
        let mut b = [0u8; 4096];
        self.s.recv_from(&mut b).ok().map(|(n, _)| b[..n].to_vec())
    }
    /// The next datagram that satisfies f.
    pub fn expect(&self, ms: u64, f: impl Fn(&[u8]) -> bool) -> Option<Vec<u8>> {
        let t = Instant::now();
        while t.elapsed() < Duration::from_millis(ms) {
            if let Some(b) = self.recv(50) {
                if f(&b) {
                    return Some(b);
                }
            }
        }
        None
    }
    pub fn send(&mut self, frames: &[Frame]) {
        let b = datagram(self.seq, frames);
        self.seq += 1;
        self.raw(&b);
    }
    pub fn ordered(&mut self, data: &[u8]) {
        let f = Frame::new(ORDERED, self.ri, self.oi, data);
        self.ri += 1;
        self.oi += 1;
        self.send(&[f]);
    }
    pub fn ack(&self, a: u32, b: u32) {
        self.raw(&ranges(0xc0, &[(a, b)]));
    }
    /// Collects the data frames that arrive in `ms`, acknowledging each datagram if `ack`.
    pub fn collect(&self, ms: u64, ack: bool) -> Vec<(u32, Frame)> {
        let t = Instant::now();
        let mut out = vec![];
        while t.elapsed() < Duration::from_millis(ms) {
            if let Some(b) = self.recv(10) {
                if (0x80..=0x8d).contains(&b[0]) {
                    let (seq, frames) = parse(&b);
                    if ack {
                        self.ack(seq, seq);
                    }
                    out.extend(frames.into_iter().map(|f| (seq, f)));
                }
            }
        }
        out
    }
    pub fn request1(&self, version: u8) -> Option<Vec<u8>> {
        let mut b = vec![5];
        b.extend(MAGIC);
        b.push(version);
        b.resize(1400 - 28, 0);
        self.raw(&b);
        self.expect(1000, |b| b[0] == 6 || b[0] == 0x19)
    }
    pub fn request2(&self, mtu: u16, claimed: SocketAddr) -> Option<Vec<u8>> {
        let mut b = vec![7];
        b.extend(MAGIC);
        b.extend(address(claimed));
        b.extend(mtu.to_be_bytes());
        b.extend(7u64.to_be_bytes());
        self.raw(&b);
        self.expect(1000, |b| b[0] == 8 || b[0] == 0x12)
    }
    pub fn online(&mut self) {
        let mut b = vec![9];
        b.extend(7u64.to_be_bytes());
        b.extend(1234i64.to_be_bytes());
        b.push(0);
        self.ordered(&b);
        let accepted = |b: &[u8]| (0x80..=0x8d).contains(&b[0]) && parse(b).1.iter().any(|f| f.data[0] == 0x10);
        let b = self.expect(3000, accepted).expect("no ConnectionRequestAccepted");
        let seq = parse(&b).0;
        self.ack(seq, seq);
        let mut b = vec![0x13];
        b.extend(address(self.to));
        for _ in 0..10 {
            b.extend(address("0.0.0.0:0".parse().unwrap()));
        }
        b.extend([0; 16]);
        self.ordered(&b);
    }
    pub fn new(to: SocketAddr) -> Self {
        Peer { s: UdpSocket::bind("127.0.0.1:0").unwrap(), to, seq: 0, ri: 0, oi: 0 }
    }
    /// A client connected to a listener.
    pub fn connect(to: SocketAddr, mtu: u16) -> Self {
        let mut p = Self::new(to);
        p.request1(10).expect("no reply1");
        p.request2(mtu, to).expect("no reply2");
        p.online();
        p
    }
    /// A server that lets the next client connect with the MTU given.
    pub fn serve(s: UdpSocket, mtu: u16) -> Self {
        let mut p = Peer { s, to: "127.0.0.1:9".parse().unwrap(), seq: 0, ri: 0, oi: 0 };
        let mut b = [0u8; 4096];
        p.s.set_read_timeout(None).unwrap();
        loop {
            let (n, from) = p.s.recv_from(&mut b).unwrap();
            p.to = from;
            match b[0] {
                5 => {
                    let mut r = vec![6];
                    r.extend(MAGIC);
                    r.extend(9u64.to_be_bytes());
                    r.push(0);
                    r.extend(mtu.to_be_bytes());
                    p.raw(&r);
                }
                7 => {
                    let mut r = vec![8];
                    r.extend(MAGIC);
                    r.extend(9u64.to_be_bytes());
                    r.extend(address(from));
                    r.extend(mtu.to_be_bytes());
                    r.push(0);
                    p.raw(&r);
                }
                0x80..=0x8d => {
                    let (seq, frames) = parse(&b[..n]);
                    p.ack(seq, seq);
                    for f in frames {
                        if f.data[0] == 9 {
                            let mut r = vec![0x10];
                            r.extend(address(from));
                            r.extend([0, 0]);
                            for _ in 0..10 {
                                r.extend(address("255.255.255.255:19132".parse().unwrap()));
                            }
                            r.extend([0; 16]);
                            p.ordered(&r);
                        }
                        if f.data[0] == 0x13 {
                            return p;
                        }
                    }
                }
                _ => {}
            }
        }
    }
    pub fn bind() -> (UdpSocket, SocketAddr) {
        let s = UdpSocket::bind("127.0.0.1:0").unwrap();
        let a = s.local_addr().unwrap();
        (s, a)
    }
}

pub fn fail(what: &str) -> ! {
    eprintln!("FAILED: {what}");
    std::process::exit(1)
}
pub fn game(n: u32, len: usize) -> Vec<u8> {
    let mut v = vec![0xfe];
    v.extend(n.to_be_bytes());
    while v.len() < len {
        v.push((v.len() as u32).wrapping_mul(31).wrapping_add(n) as u8);
    }
    v
}
