//! Reference RakNet peers that speak the wire protocol through `wire`, never through the library.
use crate::sim::{self, RawSock, World};
use crate::wire::{self, Bad, Frame, Packet, Split};
use std::collections::{BTreeMap, BTreeSet};
use std::net::SocketAddr;

pub struct Rx {
    pub t: u64,
    pub src: SocketAddr,
    pub raw: Vec<u8>,
    pub pkt: Result<Packet, Bad>,
}

pub struct Peer {
    pub sock: RawSock,
    pub remote: SocketAddr,
    pub auto_ack: bool,
    pub seq: u32,
    pub rel: u32,
    pub ord: u32,
    pub sqd: u32,
    pub split: u16,
    pub guid: u64,
    pub model: Reasm,
    /// Messages the library endpoint sent us, as the reference reassembly sees them.
    pub got: Vec<Vec<u8>>,
}

impl Peer {
    pub fn new(w: &World, local: SocketAddr, remote: SocketAddr) -> Peer {
        Peer {
            sock: w.raw(local),
            remote,
            auto_ack: true,
            seq: 0,
            rel: 0,
            ord: 0,
            sqd: 0,
            split: 0,
            guid: 0x1122_3344_5566_7788,
            model: Reasm::default(),
            got: vec![],
        }
    }
    pub fn send(&self, d: &[u8]) {
        self.sock.send(self.remote, d)
    }
    pub fn send_pkt(&self, p: &Packet) {
        self.send(&p.encode())
    }
    /// Build a frame with the next indices of its class.
    pub fn frame(&mut self, class: u8, body: Vec<u8>) -> Frame {
        let mut f = Frame { class, body, ..Default::default() };
        if wire::is_reliable(class) {
            f.reliable = self.rel;
            self.rel = (self.rel + 1) & 0xff_ffff;
        }
        if wire::is_ordered(class) {
            f.ordered = self.ord;
        }
        if class == wire::RELIABLE_ORD {
            self.ord = (self.ord + 1) & 0xff_ffff;
        }
        if wire::is_sequenced(class) {
            f.sequenced = self.sqd;
            self.sqd = (self.sqd + 1) & 0xff_ffff;
        }
        f
    }
    /// Split a ReliableOrdered message into fragments of at most `chunk` bytes.
    pub fn fragments(&mut self, body: &[u8], chunk: usize) -> Vec<Frame> {
        let n = body.len().div_ceil(chunk);
        let id = self.split;
        self.split = self.split.wrapping_add(1);
        let ord = self.ord;
        self.ord = (self.ord + 1) & 0xff_ffff;
        body.chunks(chunk)
            .enumerate()
            .map(|(i, c)| {
                let f = Frame {
                    class: wire::RELIABLE_ORD,
                    reliable: self.rel,
                    ordered: ord,
                    split: Some(Split { size: n as u32, id, index: i as u32 }),
                    body: c.to_vec(),
                    ..Default::default()
                };
                self.rel = (self.rel + 1) & 0xff_ffff;
                f
            })
            .collect()
    }
    /// Put frames into one datagram with the next sequence number.
    pub fn datagram(&mut self, fs: &[Frame]) -> (u32, Vec<u8>) {
        let s = self.seq;
        self.seq = (self.seq + 1) & 0xff_ffff;
        (s, wire::frames(s, fs))
    }
    pub fn send_frames(&mut self, fs: &[Frame]) -> u32 {
        let (s, d) = self.datagram(fs);
        self.send(&d);
        s
    }
    pub fn send_msg(&mut self, class: u8, body: Vec<u8>) -> u32 {
        let f = self.frame(class, body);
        self.send_frames(&[f])
    }

    /// Next datagram within `ms` virtual milliseconds.
    pub async fn next(&mut self, ms: u64) -> Option<Rx> {
        let (src, d) = sim::within(ms, self.sock.recv()).await?;
        let pkt = Packet::decode(&d);
        if let Ok(Packet::Frames { seq, frames, .. }) = &pkt {
            if self.auto_ack {
                self.send(&wire::ack(&[(*seq, *seq)]));
            }
            for f in frames {
                self.got.extend(self.model.insert(f));
            }
        }
        Some(Rx { t: sim::now(), src, raw: d.to_vec(), pkt })
    }
    /// Everything that arrives during the next `ms` virtual milliseconds.
    pub async fn drain(&mut self, ms: u64) -> Vec<Rx> {
        let end = sim::now() + ms;
        let mut v = vec![];
        while sim::now() < end {
            match self.next(end - sim::now()).await {
                Some(r) => v.push(r),
                None => break,
            }
        }
        v
    }
    pub fn got_msg(&self, id: u8) -> Option<&Vec<u8>> {
        self.got.iter().find(|m| m[0] == id)
    }

    /// Client role: the whole handshake against a library listener over a fault-free network.
    pub async fn connect(&mut self, version: u8, mtu: u16) -> Result<(), String> {
        self.offline(version, mtu).await?;
        self.online().await
    }
    pub async fn offline(&mut self, version: u8, mtu: u16) -> Result<(), String> {
        self.send_pkt(&Packet::Req1 { version, pad: (mtu as usize).saturating_sub(46) });
        loop {
            match self.next(5000).await {
                None => return Err("no OpenConnectionReply1 within 5 s".into()),
                Some(Rx { pkt: Ok(Packet::Reply1 { .. }), .. }) => break,
                Some(_) => {}
            }
        }
        self.send_pkt(&Packet::Req2 { addr: self.remote, mtu, guid: self.guid });
        loop {
            match self.next(5000).await {
                None => return Err("no OpenConnectionReply2 within 5 s".into()),
                Some(Rx { pkt: Ok(Packet::Reply2 { .. }), .. }) => return Ok(()),
                Some(_) => {}
            }
        }
    }
    pub async fn online(&mut self) -> Result<(), String> {
        let (a, saved) = (self.auto_ack, self.got.len());
        self.auto_ack = true;
        self.send_msg(wire::RELIABLE_ORD, wire::connection_request(self.guid, 777));
        while self.got[saved..].iter().all(|m| m[0] != 0x10) {
            if self.next(5000).await.is_none() {
                return Err("no ConnectionRequestAccepted within 5 s".into());
            }
        }
        let r = self.remote;
        self.send_msg(wire::RELIABLE_ORD, wire::new_incoming(r, 10, 777, 778));
        self.drain(300).await;
        self.auto_ack = a;
        Ok(())
    }

    /// Server role: the whole handshake with a library client over a fault-free network.
    pub async fn serve(&mut self, mtu: u16) -> Result<(), String> {
        loop {
            match self.next(10_000).await {
                None => return Err("no OpenConnectionRequest1 within 10 s".into()),
                Some(Rx { src, pkt: Ok(Packet::Req1 { .. }), .. }) => {
                    self.remote = src;
                    break;
                }
                Some(_) => {}
            }
        }
        self.send_pkt(&Packet::Reply1 { guid: self.guid, security: 0, mtu });
        loop {
            match self.next(10_000).await {
                None => return Err("no OpenConnectionRequest2 within 10 s".into()),
                Some(Rx { pkt: Ok(Packet::Req2 { .. }), .. }) => break,
                Some(_) => {}
            }
        }
        self.send_pkt(&Packet::Reply2 { guid: self.guid, addr: self.remote, mtu, security: 0 });
        let (a, saved) = (self.auto_ack, self.got.len());
        self.auto_ack = true;
        while self.got[saved..].iter().all(|m| m[0] != 9) {
            if self.next(10_000).await.is_none() {
                return Err("no ConnectionRequest within 10 s".into());
            }
        }
        let r = self.remote;
        self.send_msg(wire::RELIABLE_ORD, wire::connection_request_accepted(r, 10, 777, 778));
        while self.got[saved..].iter().all(|m| m[0] != 0x13) {
            if self.next(10_000).await.is_none() {
                return Err("no NewIncomingConnection within 10 s".into());
            }
        }
        self.drain(300).await;
        self.auto_ack = a;
        Ok(())
    }
}

/// Reference receive side: reliable deduplication, ordering, sequencing and reassembly.
#[derive(Default)]
pub struct Reasm {
    reliable: BTreeSet<u32>,
    ordered: BTreeMap<u32, Vec<u8>>,
    pub next_ord: u32,
    next_seq: u32,
    parts: BTreeMap<u16, BTreeMap<u32, Vec<u8>>>,
}
impl Reasm {
    pub fn insert(&mut self, f: &Frame) -> Vec<Vec<u8>> {
        if wire::is_reliable(f.class) && !self.reliable.insert(f.reliable) {
            return vec![];
        }
        let mut body = f.body.clone();
        if let Some(s) = &f.split {
            let p = self.parts.entry(s.id).or_default();
            p.insert(s.index, body);
            if p.len() < s.size as usize {
                return vec![];
            }
            body = self.parts.remove(&s.id).unwrap().into_values().flatten().collect();
        }
        match f.class {
            wire::RELIABLE_ORD => {
                self.ordered.insert(f.ordered, body);
                let mut out = vec![];
                while let Some(b) = self.ordered.remove(&self.next_ord) {
                    out.push(b);
                    self.next_ord += 1;
                }
                out
            }
            c if wire::is_sequenced(c) => {
                if f.sequenced < self.next_seq {
                    return vec![];
                }
                self.next_seq = f.sequenced + 1;
                vec![body]
            }
            _ => vec![body],
        }
    }
}
