//! Monitors over the recorded traffic of one endpoint: well-formedness (C06),
//! truth and completeness of acknowledgements (C07), retransmission (C08).
use crate::engine::Case;
use crate::scenario::TAG;
use crate::sim::Ev;
use crate::wire::{self, Frame, Packet};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::net::SocketAddr;

/// What the endpoint `me` emitted towards `peer`, decoded.
#[derive(Default)]
pub struct Emitted {
    /// ReliableOrdered messages by ordered index, if all their parts were emitted
    pub ordered: BTreeMap<u32, Vec<u8>>,
    /// other messages in order of first emission
    pub others: Vec<(u8, Vec<u8>)>,
    pub datagrams: usize,
    pub retransmissions: usize,
    pub fragments: usize,
}

pub fn hex(d: &[u8]) -> String {
    let mut s: String = d.iter().take(40).map(|b| format!("{b:02x}")).collect();
    if d.len() > 40 {
        s += &format!("… ({} bytes)", d.len());
    }
    s
}

pub fn well_formed(evs: &[Ev], me: SocketAddr, peer: SocketAddr, mtu: u16) -> Result<Emitted, String> {
    let mut out = Emitted::default();
    let mut seqs: HashSet<u32> = HashSet::new();
    let mut rels: HashMap<u32, Frame> = HashMap::new();
    // ordered index -> (split id, size, index -> body), or a whole message
    let mut parts: BTreeMap<u32, (Option<(u16, u32)>, BTreeMap<u32, Vec<u8>>)> = BTreeMap::new();
    for e in evs.iter().filter(|e| e.sent && e.d.src == me && e.d.dst == peer) {
        let d = &e.d;
        let p = Packet::decode(&d.data).map_err(|b| format!("at {} ms {me} emitted a datagram that is not RakNet ({}): {}", d.t, b.0, hex(&d.data)))?;
        let connected = matches!(p, Packet::Frames { .. } | Packet::Ack(_) | Packet::Nack(_) | Packet::Disconnect);
        if connected && d.data.len() + 28 > mtu as usize {
            return Err(format!("at {} ms {me} emitted a datagram of {} bytes, {} with IP and UDP headers, over the MTU {mtu}", d.t, d.data.len(), d.data.len() + 28));
        }
        out.datagrams += 1;
        let Packet::Frames { id, seq, frames } = p else { continue };
        if id > 0x8d {
            return Err(format!("frame set with id {id:02x}"));
        }
        if !seqs.insert(seq) {
            return Err(format!("at {} ms {me} reused datagram sequence number {seq}", d.t));
        }
        for f in frames {
            if f.channel > 31 {
                return Err(format!("order channel {}", f.channel));
            }
            if wire::is_reliable(f.class) {
                if let Some(old) = rels.get(&f.reliable) {
                    if *old != f {
                        return Err(format!(
                            "at {} ms {me} sent reliable index {} with different content: {} then {}",
                            d.t, f.reliable, show(old), show(&f)
                        ));
                    }
                    out.retransmissions += 1;
                    continue;
                }
                rels.insert(f.reliable, f.clone());
            }
            if let Some(s) = &f.split {
                out.fragments += 1;
                if s.size == 0 || s.index >= s.size {
                    return Err(format!("fragment {} of {}", s.index, s.size));
                }
                if f.class != wire::RELIABLE_ORD {
                    return Err(format!("fragment of class {}", f.class));
                }
            }
            if f.class == wire::RELIABLE_ORD {
                let e = parts.entry(f.ordered).or_insert_with(|| (f.split.as_ref().map(|s| (s.id, s.size)), BTreeMap::new()));
                if e.0 != f.split.as_ref().map(|s| (s.id, s.size)) {
                    return Err(format!("frames of ordered index {} disagree on their fragment group: {}", f.ordered, show(&f)));
                }
                let idx = f.split.as_ref().map(|s| s.index).unwrap_or(0);
                if e.1.insert(idx, f.body.clone()).is_some() {
                    return Err(format!("two different reliable frames carry part {} of ordered index {}", idx, f.ordered));
                }
            } else {
                out.others.push((f.class, f.body.clone()));
            }
        }
    }
    for (want, (have, (split, bodies))) in parts.into_iter().enumerate() {
        if want as u32 != have {
            return Err(format!("{me} used ordered index {have} where {want} was due"));
        }
        let size = split.map(|s| s.1).unwrap_or(1);
        if bodies.len() as u32 == size {
            out.ordered.insert(have, bodies.into_values().flatten().collect());
        }
    }
    // reliable indices are contiguous as well
    let n = rels.len() as u32;
    if let Some(m) = rels.keys().find(|k| **k >= n) {
        return Err(format!("{me} used reliable index {m} but only {n} different ones"));
    }
    Ok(out)
}

pub fn show(f: &Frame) -> String {
    format!(
        "[class {} rel {} seqd {} ord {} split {:?} body {}]",
        f.class, f.reliable, f.sequenced, f.ordered, f.split.as_ref().map(|s| (s.id, s.index, s.size)), hex(&f.body)
    )
}

fn frame_seq(d: &[u8]) -> Option<u32> {
    match d {
        [0x80..=0x8d, a, b, c, ..] => Some(*a as u32 | (*b as u32) << 8 | (*c as u32) << 16),
        _ => None,
    }
}

/// `end`: the endpoint was open and observed until then.
pub fn acknowledgements(evs: &[Ev], me: SocketAddr, peer: SocketAddr, end: u64) -> Result<(usize, usize), String> {
    const WITHIN: u64 = 1000;
    let mut received: BTreeMap<u32, u64> = BTreeMap::new();
    let mut proper: BTreeMap<u32, u64> = BTreeMap::new();
    let mut max: Option<u32> = None;
    // numbers skipped at some time: number -> time
    let mut skipped: BTreeMap<u32, u64> = BTreeMap::new();
    let mut nacked: BTreeMap<u32, u64> = BTreeMap::new();
    let mut acked: BTreeMap<u32, u64> = BTreeMap::new();
    let (mut na, mut nn) = (0, 0);
    for e in evs {
        let d = &e.d;
        if !e.sent && d.src == peer && d.dst == me {
            let Some(s) = frame_seq(&d.data) else { continue };
            received.entry(s).or_insert(d.t);
            if !matches!(Packet::decode(&d.data), Ok(Packet::Frames { .. })) {
                continue;
            }
            proper.entry(s).or_insert(d.t);
            let from = max.map(|m| m + 1).unwrap_or(0);
            if s >= from {
                if s - from < 100_000 {
                    for k in from..s {
                        skipped.entry(k).or_insert(d.t);
                    }
                }
                max = Some(s);
            }
        }
        if e.sent && d.src == me && d.dst == peer {
            match Packet::decode(&d.data) {
                Ok(Packet::Ack(recs)) => {
                    for (a, b) in recs {
                        if (b - a) as usize >= received.len() {
                            return Err(format!("at {} ms {me} acknowledged {a}..{b} but only {} datagrams had arrived", d.t, received.len()));
                        }
                        for n in a..=b {
                            if !received.contains_key(&n) {
                                return Err(format!("at {} ms {me} acknowledged datagram {n}, which had not arrived", d.t));
                            }
                            acked.entry(n).or_insert(d.t);
                            na += 1;
                        }
                    }
                }
                Ok(Packet::Nack(recs)) => {
                    for (a, b) in recs {
                        if b > max.unwrap_or(0) {
                            return Err(format!("at {} ms {me} reported {a}..{b} missing though nothing above {:?} had arrived", d.t, max));
                        }
                        for n in a..=b {
                            if !skipped.contains_key(&n) {
                                return Err(format!("at {} ms {me} reported datagram {n} missing, which was never skipped", d.t));
                            }
                            nacked.entry(n).or_insert(d.t);
                            nn += 1;
                        }
                    }
                }
                _ => {}
            }
        }
    }
    for (s, t) in &proper {
        if t + WITHIN <= end && acked.get(s).map(|a| *a > t + WITHIN).unwrap_or(true) {
            return Err(format!("datagram {s} arrived at {me} at {t} ms and was not acknowledged within {WITHIN} ms"));
        }
    }
    for (s, t) in &skipped {
        let filled = proper.get(s).copied().unwrap_or(u64::MAX);
        if *s >= 1 && t + WITHIN <= end && filled > t + 300 && nacked.get(s).map(|a| *a > t + WITHIN).unwrap_or(true) {
            return Err(format!("datagram {s} was skipped at {me} at {t} ms (a higher one arrived) and was not reported missing within {WITHIN} ms"));
        }
    }
    Ok((na, nn))
}

/// Longest time an unacknowledged reliable frame may rest: the 12 s bound and a tick or two.
pub const RESEND_BOUND: u64 = 12_000 + 200;
const PROMPT: u64 = 200;

#[derive(Default)]
pub struct Resends {
    pub resends: usize,
    pub nacks_answered: usize,
    pub acked: usize,
    pub implicit: usize,
}

pub fn retransmission(evs: &[Ev], me: SocketAddr, peer: SocketAddr, end: u64) -> Result<Resends, String> {
    struct F {
        tx: Vec<(u64, u32)>,
        acked: Option<u64>,
        /// must be sent again by then, because of this
        due: Option<(u64, String)>,
    }
    let mut fs: BTreeMap<u32, F> = BTreeMap::new();
    let mut owner: HashMap<u32, Vec<u32>> = HashMap::new();
    // current number of every outstanding frame
    let mut current: BTreeMap<u32, u32> = BTreeMap::new();
    let mut unreliable: HashSet<Vec<u8>> = HashSet::new();
    let mut out = Resends::default();
    let mut used_max = 0;
    for e in evs {
        let d = &e.d;
        if e.sent && d.src == me && d.dst == peer {
            let Ok(Packet::Frames { seq, frames, .. }) = Packet::decode(&d.data) else { continue };
            used_max = used_max.max(seq);
            for f in frames {
                if !wire::is_reliable(f.class) {
                    if f.body.len() >= TAG && f.body[0] == 0xfe && !unreliable.insert(f.body.clone()) {
                        return Err(format!("at {} ms {me} transmitted an unreliable frame again: {}", d.t, show(&f)));
                    }
                    continue;
                }
                let x = fs.entry(f.reliable).or_insert(F { tx: vec![], acked: None, due: None });
                if let Some(a) = x.acked {
                    if d.t > a {
                        return Err(format!(
                            "at {} ms {me} retransmitted reliable frame {} (as datagram {seq}), which had been acknowledged at {a} ms; transmissions {:?}",
                            d.t, f.reliable, x.tx
                        ));
                    }
                }
                if let Some((t, old)) = x.tx.last() {
                    out.resends += 1;
                    if x.acked.is_none() && d.t - t > RESEND_BOUND {
                        return Err(format!("{me} left reliable frame {} unacknowledged and untransmitted from {t} to {} ms", f.reliable, d.t));
                    }
                    current.remove(old);
                }
                if let Some((t, why)) = x.due.take() {
                    if d.t > t {
                        return Err(format!("reliable frame {} {why}, but it was retransmitted only at {} ms", f.reliable, d.t));
                    }
                    out.nacks_answered += 1;
                }
                x.tx.push((d.t, seq));
                owner.entry(seq).or_default().push(f.reliable);
                if x.acked.is_none() {
                    current.insert(seq, f.reliable);
                }
            }
        }
        if !e.sent && d.src == peer && d.dst == me {
            match Packet::decode(&d.data) {
                Ok(Packet::Ack(recs)) => {
                    for (a, b) in &recs {
                        if *b > used_max {
                            continue;
                        }
                        for n in *a..=*b {
                            for r in owner.get(&n).into_iter().flatten() {
                                let x = fs.get_mut(r).unwrap();
                                if x.acked.is_none() {
                                    x.acked = Some(d.t);
                                    x.due = None;
                                    out.acked += 1;
                                    current.remove(&x.tx.last().unwrap().1);
                                }
                            }
                        }
                    }
                    let top = recs.iter().map(|r| r.1).filter(|b| *b <= used_max).max().unwrap_or(0);
                    for (s, r) in current.range(1..top.max(1)) {
                        let x = fs.get_mut(r).unwrap();
                        if x.due.is_none() {
                            x.due = Some((d.t + PROMPT, format!("(datagram {s}) was passed over by an acknowledgement of {top} at {} ms", d.t)));
                            out.implicit += 1;
                        }
                    }
                }
                Ok(Packet::Nack(recs)) => {
                    for (a, b) in recs {
                        for (s, r) in current.range(a..=b) {
                            let x = fs.get_mut(r).unwrap();
                            if x.due.is_none() {
                                x.due = Some((d.t + PROMPT, format!("(datagram {s}) was reported missing at {} ms", d.t)));
                            }
                        }
                    }
                }
                _ => {}
            }
        }
    }
    for (r, x) in &fs {
        if x.acked.is_some() {
            continue;
        }
        let last = x.tx.last().unwrap();
        if end > last.0 + RESEND_BOUND {
            return Err(format!("{me} never retransmitted unacknowledged reliable frame {r} after {} ms (observed until {end} ms); transmissions {:?}", last.0, x.tx));
        }
        if let Some((t, why)) = &x.due {
            if end > *t {
                return Err(format!("reliable frame {r} {why}, but it was not retransmitted within {PROMPT} ms"));
            }
        }
    }
    Ok(out)
}

/// Numbers of the datagrams with frames that arrived at `me`.
pub fn arrived(evs: &[Ev], me: SocketAddr, peer: SocketAddr) -> BTreeSet<u32> {
    evs.iter().filter(|e| !e.sent && e.d.src == peer && e.d.dst == me).filter_map(|e| frame_seq(&e.d.data)).collect()
}

pub fn ok(_: impl Sized) -> Case {
    Ok(())
}
