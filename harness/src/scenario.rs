//! Generated sessions: a listener, some clients, traffic plans for both ends of every
//! connection, and a fault plan for the network between them.
use crate::engine::{fill, mix, Rng, Src};
use crate::sim::{self, host, now, server_addr, Dgram, World};
use crate::wire::Packet;
use rust_raknet::{RaknetListener, RaknetSocket, Reliability};
use std::collections::HashMap;
use std::fmt::Write;
use std::net::SocketAddr;
use std::sync::{Arc, Mutex};

pub fn rel(class: u8) -> Reliability {
    match class {
        0 => Reliability::Unreliable,
        1 => Reliability::UnreliableSequenced,
        2 => Reliability::Reliable,
        3 => Reliability::ReliableOrdered,
        _ => Reliability::ReliableSequenced,
    }
}
pub const CLASS: [&str; 5] = ["U", "US", "R", "RO", "RS"];

#[derive(Clone, Debug)]
pub enum Act {
    Send { class: u8, size: usize },
    Pause(u64),
    Flush,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Any,
    Frames,
    Ack,
    Nack,
}
#[derive(Clone, Debug)]
pub enum Hit {
    Drop,
    Dup(u64),
    Delay(u64),
}

/// Faults apply to datagrams sent in `[from, until)`, relative to the moment set by `start`.
#[derive(Clone, Debug, Default)]
pub struct Faults {
    pub until: u64,
    /// per mille, client to server and back
    pub loss: [u64; 2],
    pub dup: u64,
    pub dup_delay: u64,
    pub jitter: u64,
    pub jitter_max: u64,
    pub blackouts: Vec<(u8, u64, u64)>,
    /// (direction, kind, nth datagram of that kind in that direction, what happens to it)
    pub hits: Vec<(u8, Kind, u64, Hit)>,
    /// (direction, first and last reliable frame of that direction, until when every transmission of it is lost)
    pub holes: Vec<(u8, u32, u32, u64)>,
    /// (direction, kind, from, how long): all datagrams of that kind are lost
    pub mute: Option<(u8, Kind, u64, u64)>,
    pub salt: u64,
}

impl Faults {
    pub fn none(&self) -> bool {
        self.loss == [0, 0] && self.dup == 0 && self.jitter == 0 && self.blackouts.is_empty() && self.hits.is_empty() && self.holes.is_empty() && self.mute.is_none()
    }
    pub fn lossless_in_order(&self) -> bool {
        self.loss == [0, 0]
            && self.jitter == 0
            && self.blackouts.is_empty()
            && self.holes.is_empty()
            && self.mute.is_none()
            && self.hits.iter().all(|h| matches!(h.3, Hit::Dup(_)))
    }
    pub fn describe(&self) -> String {
        if self.none() {
            return "no faults".into();
        }
        let mut s = format!("faults for {} ms:", self.until);
        if self.loss != [0, 0] {
            let _ = write!(s, " loss {}/{} per mille (c->s/s->c)", self.loss[0], self.loss[1]);
        }
        if self.dup > 0 {
            let _ = write!(s, " dup {} per mille up to {} ms later", self.dup, self.dup_delay);
        }
        if self.jitter > 0 {
            let _ = write!(s, " delay {} per mille by up to {} ms", self.jitter, self.jitter_max);
        }
        for b in &self.blackouts {
            let _ = write!(s, " blackout dir{} at {}+{}ms", b.0, b.1, b.2);
        }
        for h in &self.holes {
            let _ = write!(s, " hole(dir{} reliable frames {}..={} until {} ms)", h.0, h.1, h.2, h.3);
        }
        if let Some(m) = &self.mute {
            let _ = write!(s, " mute(dir{} {:?} at {}+{}ms)", m.0, m.1, m.2, m.3);
        }
        for h in &self.hits {
            let _ = write!(s, " hit(dir{} {:?} #{} {:?})", h.0, h.1, h.2, h.3);
        }
        s
    }

    pub fn gen(s: &mut Src) -> Faults {
        let mut f = Faults { salt: s.below(1 << 32), ..Default::default() };
        f.until = s.int(200, 4000);
        let mode = s.weighted(&[2, 5, 3, 2, 2]);
        match mode {
            0 => {}
            1 => {
                f.hits = s.list(1, 3, 10, |s, _| {
                    let dir = s.below(2) as u8;
                    let kind = s.pick(&[Kind::Frames, Kind::Frames, Kind::Ack, Kind::Nack, Kind::Any]);
                    let nth = match s.weighted(&[3, 1]) {
                        0 => s.below(6),
                        _ => s.below(40),
                    };
                    let hit = match s.weighted(&[3, 3, 2]) {
                        0 => Hit::Drop,
                        1 => Hit::Dup(delay(s)),
                        _ => Hit::Delay(delay(s)),
                    };
                    (dir, kind, nth, hit)
                });
            }
            2 => {
                f.loss = [s.pick(&[0, 50, 100, 200, 400, 600]), s.pick(&[0, 50, 100, 200, 400, 600])];
                f.dup = s.pick(&[0, 0, 50, 200, 500]);
                f.dup_delay = delay(s);
                f.jitter = s.pick(&[0, 0, 100, 300, 700]);
                f.jitter_max = delay(s);
            }
            3 => {
                f.blackouts = s.list(1, 1, 3, |s, _| (s.below(3) as u8, s.below(3000), s.int(20, 2500)));
                f.dup = s.pick(&[0, 0, 200]);
                f.dup_delay = delay(s);
            }
            _ => {
                f.dup = s.pick(&[0, 100, 500, 900]);
                f.dup_delay = delay(s);
                f.jitter = s.pick(&[0, 100, 500, 900]);
                f.jitter_max = delay(s);
            }
        }
        f
    }

    /// Faults that last: single frames that never get through, or one kind of datagram that does not,
    /// for up to three minutes, while everything else does.
    pub fn starving(s: &mut Src) -> Faults {
        let mut f = Faults { salt: s.below(1 << 32), ..Default::default() };
        f.until = match s.weighted(&[2, 1, 1]) {
            0 => s.int(1000, 20_000),
            1 => s.int(20_000, 70_000),
            _ => s.int(70_000, 180_000),
        };
        // Sends wait for what is outstanding, so only one direction may starve: the other keeps both ends alive.
        let dir = s.below(2) as u8;
        if s.chance(3, 4) {
            f.holes = s.list(1, 1, 4, |s, _| {
                let first = match s.weighted(&[3, 1]) {
                    0 => s.below(6),
                    _ => s.below(300),
                } as u32;
                let n = s.pick(&[0, 0, 0, 1, 5, 40, 300]);
                let t = match s.weighted(&[2, 1]) {
                    0 => f.until,
                    _ => s.int(100, f.until),
                };
                (dir, first, first + n, t)
            });
        }
        if f.holes.is_empty() || s.chance(1, 3) {
            let from = s.pick(&[0, 0, 100, 1000]);
            let (d, kind) = s.pick(&[(dir, Kind::Frames), (1 - dir, Kind::Ack), (dir, Kind::Nack), (1 - dir, Kind::Nack)]);
            f.mute = Some((d, kind, from, s.int(100, f.until)));
        }
        if s.chance(1, 3) {
            f.dup = s.pick(&[50, 200, 500]);
            f.dup_delay = delay(s);
        }
        f
    }

    /// The fault plan as a network policy. Directions are relative to `server`.
    pub fn policy(&self, server: SocketAddr, start: u64, latency: u64, mtu: Option<u16>) -> sim::Policy {
        let f = self.clone();
        let mut rng = Rng::new(f.salt);
        let mut counts: HashMap<(u8, u8), u64> = HashMap::new();
        let mut first: [Option<u32>; 2] = [None; 2];
        Box::new(move |d: &Dgram| {
            let data = match mtu {
                Some(m) => rewrite_mtu(&d.data, m),
                None => d.data.clone(),
            };
            let dir = if d.dst == server { 0u8 } else { 1 };
            if d.t < start || d.t >= start + f.until {
                return vec![(latency, data)];
            }
            let rt = d.t - start;
            let kind = match d.data.first() {
                Some(0x80..=0x8f) => 1u8,
                Some(0xc0) => 2,
                Some(0xa0) => 3,
                _ => 0,
            };
            let nk = {
                let c = counts.entry((dir, kind)).or_default();
                *c += 1;
                *c - 1
            };
            let na = {
                let c = counts.entry((dir, 9)).or_default();
                *c += 1;
                *c - 1
            };
            for (hd, hk, n, hit) in &f.hits {
                let m = match hk {
                    Kind::Any => na == *n,
                    Kind::Frames => kind == 1 && nk == *n,
                    Kind::Ack => kind == 2 && nk == *n,
                    Kind::Nack => kind == 3 && nk == *n,
                };
                if *hd == dir && m {
                    return match hit {
                        Hit::Drop => vec![],
                        Hit::Dup(x) => vec![(latency, data.clone()), (latency + x, data)],
                        Hit::Delay(x) => vec![(latency + x, data)],
                    };
                }
            }
            if kind == 1 && !f.holes.is_empty() {
                if let Ok(Packet::Frames { frames, .. }) = Packet::decode(&d.data) {
                    for fr in frames.iter().filter(|fr| crate::wire::is_reliable(fr.class)) {
                        let base = *first[dir as usize].get_or_insert(fr.reliable);
                        let i = fr.reliable.wrapping_sub(base) & 0xff_ffff;
                        if f.holes.iter().any(|h| h.0 == dir && h.1 <= i && i <= h.2 && rt < h.3) {
                            return vec![];
                        }
                    }
                }
            }
            if let Some((md, mk, at, len)) = &f.mute {
                let m = match mk {
                    Kind::Any => true,
                    Kind::Frames => kind == 1,
                    Kind::Ack => kind == 2,
                    Kind::Nack => kind == 3,
                };
                if m && *md == dir && rt >= *at && rt < at + len {
                    return vec![];
                }
            }
            for (bd, at, len) in &f.blackouts {
                if (*bd == dir || *bd == 2) && rt >= *at && rt < at + len {
                    return vec![];
                }
            }
            let roll = |r: &mut Rng, p: u64| r.next() % 1000 < p;
            if roll(&mut rng, f.loss[dir as usize]) {
                return vec![];
            }
            let mut v = vec![];
            let base = if roll(&mut rng, f.jitter) { latency + rng.next() % (f.jitter_max + 1) } else { latency };
            v.push((base, data.clone()));
            if roll(&mut rng, f.dup) {
                v.push((base + rng.next() % (f.dup_delay + 1), data));
            }
            v
        })
    }
}

/// A delay in ms, from negligible to longer than any retransmission timer in use.
pub fn delay(s: &mut Src) -> u64 {
    match s.weighted(&[3, 3, 2, 1]) {
        0 => s.below(12),
        1 => s.int(10, 150),
        2 => s.int(100, 900),
        _ => s.int(800, 4000),
    }
}

/// Rewrite the MTU field of an OpenConnectionReply1 in flight.
pub fn rewrite_mtu(d: &Arc<[u8]>, mtu: u16) -> Arc<[u8]> {
    if d.first() == Some(&6) && d.len() == 28 {
        let mut v = d.to_vec();
        v[26..28].copy_from_slice(&mtu.to_be_bytes());
        v.into()
    } else {
        d.clone()
    }
}

pub fn payload(conn: usize, dir: usize, task: usize, idx: usize, class: u8, size: usize) -> Vec<u8> {
    let h = mix((conn as u64) << 48 | (dir as u64) << 44 | (task as u64) << 36 | (class as u64) << 32 | idx as u64);
    let mut v = vec![0xfe];
    if size >= TAG {
        v.extend_from_slice(&[class, conn as u8, dir as u8, task as u8, (idx >> 16) as u8, (idx >> 8) as u8, idx as u8]);
    }
    let rest = size - v.len().min(size);
    match h % 5 {
        0 if size >= TAG => v.extend(std::iter::repeat(0).take(rest)),
        1 if size >= TAG => v.extend(std::iter::repeat(0xfe).take(rest)),
        2 if size >= TAG => v.extend((0..rest).map(|i| i as u8)),
        _ => v.extend(fill(h, rest)),
    }
    v.truncate(size);
    v
}
/// Messages at least this long carry their identity.
pub const TAG: usize = 8;

#[derive(Clone)]
pub struct Traffic {
    pub classes: Vec<u8>,
    /// class of messages shorter than TAG bytes, if any are generated
    pub tiny: Option<u8>,
    pub mtu: u16,
    pub max_big: usize,
    pub avg: usize,
    pub max: usize,
    pub flushes: bool,
}

pub fn gen_size(s: &mut Src, class: u8, t: &Traffic) -> usize {
    let lim = t.mtu as usize - 60;
    match s.weighted(&[6, 2, 2, 3]) {
        0 => s.usize(TAG, 40),
        1 => s.usize(TAG, lim - 1),
        2 => {
            if t.tiny == Some(class) {
                s.usize(1, TAG - 1)
            } else {
                s.usize(TAG, 20)
            }
        }
        _ => {
            if class == 3 {
                match s.weighted(&[3, 2, 1]) {
                    // around multiples of the fragment size
                    0 => (lim * s.usize(1, 4)).saturating_sub(2) + s.usize(0, 4),
                    1 => s.usize(lim, lim * 8),
                    _ => s.usize(lim, t.max_big.max(lim + 1)),
                }
            } else {
                lim - 1 - s.usize(0, 3)
            }
        }
    }
}

pub fn gen_acts(s: &mut Src, t: &Traffic) -> Vec<Act> {
    s.list(0, t.avg, t.max, |s, _| {
        let k = s.weighted(&[8, 3, if t.flushes { 1 } else { 0 }]);
        match k {
            0 => {
                let class = s.pick(&t.classes);
                let size = gen_size(s, class, t);
                Act::Send { class, size }
            }
            1 => Act::Pause(match s.weighted(&[3, 3, 1]) {
                0 => s.below(10),
                1 => s.int(10, 200),
                _ => s.int(200, 1500),
            }),
            _ => Act::Flush,
        }
    })
}

/// One to three runs of messages sent without a pause between them: together far more than one
/// datagram, and more groups or messages than a byte counts, queue behind what is unacknowledged.
pub fn gen_bursts(s: &mut Src, classes: &[u8], mtu: u16, most: usize) -> Vec<Act> {
    let lim = mtu as usize - 60;
    let runs: Vec<Vec<Act>> = s.list(1, 1, 3, |s, _| {
        let class = s.pick(classes);
        let big = class == 3 && s.chance(1, 2);
        let top = if big { most / 2 } else { most };
        // log-distributed, weighted to the long end
        let mut n = top;
        for _ in 0..s.below(4) {
            n = n / 2 + 1;
        }
        let n = s.usize(n.min(8), n);
        let size = if big { lim + s.usize(0, 40) } else { s.usize(TAG, 40) };
        let mut v = vec![Act::Send { class, size }; n];
        if classes.len() > 1 && s.chance(1, 2) {
            // several classes in one queue
            let also = s.list(1, 2, 5, |s, _| s.pick(classes));
            for (i, a) in v.iter_mut().enumerate() {
                if i % (also.len() + 1) != 0 {
                    *a = Act::Send { class: also[i % (also.len() + 1) - 1], size: TAG + i % 20 };
                }
            }
        }
        v.push(if s.chance(1, 3) { Act::Flush } else { Act::Pause(s.below(300)) });
        v
    });
    runs.concat()
}

pub fn describe_acts(a: &[Act]) -> String {
    let mut out: Vec<(String, usize)> = vec![];
    for a in a {
        let x = match a {
            Act::Send { class, size } => format!("{}({})", CLASS[*class as usize], size),
            Act::Pause(ms) => format!("wait {ms}"),
            Act::Flush => "flush".into(),
        };
        match out.last_mut() {
            Some((y, n)) if *y == x => *n += 1,
            _ => out.push((x, 1)),
        }
    }
    out.into_iter().map(|(x, n)| if n > 1 { format!("{n} x {x}") } else { x }).collect::<Vec<_>>().join(", ")
}

#[derive(Clone)]
pub struct SendRec {
    pub task: usize,
    pub idx: usize,
    pub class: u8,
    pub data: Arc<Vec<u8>>,
    pub begin: u64,
    pub end: u64,
    pub order: usize,
    pub err: Option<String>,
}
#[derive(Default)]
pub struct EndLog {
    pub sends: Vec<SendRec>,
    pub recvs: Vec<(u64, Vec<u8>)>,
    pub recv_err: Option<(u64, String)>,
    /// (begin, end, error)
    pub flushes: Vec<(u64, u64, Option<String>)>,
    /// for each of them the sends that had been accepted when it began
    pub flush_over: Vec<Vec<usize>>,
    pub pending: usize,
}
pub type Log = Arc<Mutex<EndLog>>;

pub struct Conn {
    /// client end, server end
    pub ends: [Arc<RaknetSocket>; 2],
    pub logs: [Log; 2],
    pub client_addr: SocketAddr,
}

pub fn es(e: &dyn std::fmt::Debug) -> String {
    format!("{e:?}")
}

/// Start a listener at the server address.
pub async fn listener(w: &World) -> Result<RaknetListener, String> {
    let mut l = w.on(host(1), RaknetListener::bind(&server_addr())).await.map_err(|e| format!("bind: {e:?}"))?;
    l.listen().await;
    Ok(l)
}

/// Connect one client from `h` and accept it.
pub async fn pair(w: &World, l: &mut RaknetListener, h: u8) -> Result<(RaknetSocket, RaknetSocket), String> {
    let addr = server_addr();
    let c = sim::within(20_000, w.on(host(h), RaknetSocket::connect(&addr)));
    let (c, s) = tokio::join!(c, sim::within(20_000, l.accept()));
    let c = c.ok_or("connect did not return within 20 s on a perfect network")?.map_err(|e| format!("connect: {e:?}"))?;
    let s = s.ok_or("accept did not return within 20 s")?.map_err(|e| format!("accept: {e:?}"))?;
    Ok((c, s))
}

pub async fn conn(w: &World, l: &mut RaknetListener, h: u8) -> Result<Conn, String> {
    let (c, s) = pair(w, l, h).await?;
    let client_addr = s.peer_addr().unwrap();
    Ok(Conn { ends: [Arc::new(c), Arc::new(s)], logs: Default::default(), client_addr })
}

/// Read everything from one end into its log.
pub fn collect(sock: Arc<RaknetSocket>, log: Log) -> tokio::task::JoinHandle<()> {
    tokio::spawn(async move {
        loop {
            let r = sock.recv().await;
            let mut l = log.lock().unwrap();
            match r {
                Ok(m) => l.recvs.push((now(), m)),
                Err(e) => {
                    l.recv_err = Some((now(), es(&e)));
                    break;
                }
            }
        }
    })
}

/// Perform a task's acts on one end.
pub async fn perform(sock: Arc<RaknetSocket>, log: Log, conn: usize, dir: usize, task: usize, acts: Vec<Act>) {
    for (idx, a) in acts.into_iter().enumerate() {
        match a {
            Act::Pause(ms) => sim::sleep(ms).await,
            Act::Flush => {
                let begin = now();
                let over: Vec<usize> = log.lock().unwrap().sends.iter().enumerate().filter(|s| s.1.end != u64::MAX && s.1.err.is_none()).map(|s| s.0).collect();
                let r = sock.flush().await;
                let mut l = log.lock().unwrap();
                l.flushes.push((begin, now(), r.err().map(|e| es(&e))));
                l.flush_over.push(over);
            }
            Act::Send { class, size } => {
                let data = Arc::new(payload(conn, dir, task, idx, class, size));
                let begin = now();
                let at = {
                    let mut l = log.lock().unwrap();
                    let order = l.sends.len();
                    l.sends.push(SendRec { task, idx, class, data: data.clone(), begin, end: u64::MAX, order, err: None });
                    order
                };
                let r = sock.send(&data, rel(class)).await;
                let mut l = log.lock().unwrap();
                l.sends[at].end = now();
                l.sends[at].err = r.err().map(|e| es(&e));
            }
        }
    }
    log.lock().unwrap().pending -= 1;
}

/// A complete session plan.
#[derive(Clone)]
pub struct Plan {
    pub seed: u64,
    pub yields: u64,
    pub latency: u64,
    pub mtu: u16,
    /// host of each client
    pub hosts: Vec<u8>,
    /// acts[conn][dir][task]
    pub acts: Vec<[Vec<Vec<Act>>; 2]>,
    pub faults: Faults,
    /// every end keeps its own port number on every host
    pub same_port: bool,
    /// every end also sends this many short unreliable messages, one each 10 s
    pub keepalive: usize,
    /// what each end's set_loss_rate is given
    pub own_loss: [Option<u8>; 2],
}

impl Plan {
    /// One connection whose ends send bursts.
    pub fn bursts(s: &mut Src, classes: &[u8], mtu: u16, most: usize) -> Plan {
        let seed = s.below(1 << 32);
        let yields = s.pick(&[0, 0, 32]);
        let latency = s.pick(&[1, 0, 5, 30]);
        let faults = Faults::gen(s);
        let both = s.chance(1, 3);
        let mut one = |on: bool| vec![if on { gen_bursts(s, classes, mtu, most) } else { vec![] }];
        let a = one(true);
        let b = one(both);
        let acts = vec![if s.chance(1, 2) { [a, b] } else { [b, a] }];
        Plan { seed, yields, latency, mtu, hosts: vec![2], acts, faults, same_port: false, keepalive: 0, own_loss: [None; 2] }
    }
    /// One connection under lasting faults.
    pub fn starved(s: &mut Src, t: &Traffic, burst: usize) -> Plan {
        let seed = s.below(1 << 32);
        let yields = s.pick(&[0, 0, 32]);
        let latency = s.pick(&[1, 0, 5, 30]);
        let faults = Faults::starving(s);
        let mut one = || vec![if s.chance(1, 3) { gen_bursts(s, &t.classes, t.mtu, burst) } else { gen_acts(s, t) }];
        let acts = vec![[one(), one()]];
        let keepalive = faults.until as usize / 10_000 + 1;
        Plan { seed, yields, latency, mtu: t.mtu, hosts: vec![2], acts, faults, same_port: false, keepalive, own_loss: [None; 2] }
    }
    pub fn gen(s: &mut Src, t: &Traffic, conns: usize, tasks: usize, faulty: bool) -> Plan {
        let seed = s.below(1 << 32);
        let yields = s.pick(&[0, 0, 32, 100]);
        let latency = s.pick(&[1, 1, 0, 5, 30, 120]);
        let faults = if faulty { Faults::gen(s) } else { Faults::default() };
        let n = s.usize(1, conns);
        let same_port = n > 1 && s.chance(1, 2);
        let hosts = (0..n).map(|i| if same_port { 10 + i as u8 } else { s.pick(&[2, 2, 3]) }).collect();
        let acts = (0..n)
            .map(|_| {
                let mut one = || {
                    let k = s.usize(1, tasks);
                    (0..k).map(|_| gen_acts(s, t)).collect::<Vec<_>>()
                };
                [one(), one()]
            })
            .collect();
        Plan { seed, yields, latency, mtu: t.mtu, hosts, acts, faults, same_port, keepalive: 0, own_loss: [None; 2] }
    }
    pub fn describe(&self) -> String {
        let mut s = format!("mtu {} latency {} ms, yields {}/256, {}", self.mtu, self.latency, self.yields, self.faults.describe());
        for (c, a) in self.acts.iter().enumerate() {
            for (d, ts) in a.iter().enumerate() {
                for (t, acts) in ts.iter().enumerate() {
                    if !acts.is_empty() {
                        let _ = write!(s, "\nconn {} {} task {}: {}", c, ["client", "server"][d], t, describe_acts(acts));
                    }
                }
            }
        }
        s
    }
    pub fn sends(&self) -> impl Iterator<Item = (u8, usize)> + '_ {
        self.acts.iter().flatten().flatten().flatten().filter_map(|a| match a {
            Act::Send { class, size } => Some((*class, *size)),
            _ => None,
        })
    }
}

pub struct Session {
    pub listener: RaknetListener,
    pub conns: Vec<Conn>,
    pub start: u64,
}

/// Establish the plan's connections over a perfect network, then switch its faults on.
pub async fn establish(w: &World, p: &Plan) -> Result<Session, String> {
    let clean = Faults { until: 0, ..Default::default() };
    let mtu = if p.mtu != 1400 { Some(p.mtu) } else { None };
    w.policy(Some(clean.policy(server_addr(), 0, p.latency, mtu)));
    let mut listener = listener(w).await?;
    let mut conns = vec![];
    for h in &p.hosts {
        if p.same_port {
            w.next_port(45000);
        }
        conns.push(conn(w, &mut listener, *h).await?);
    }
    // let the handshake's own traffic settle
    sim::sleep(400 + 4 * p.latency).await;
    for k in &mut conns {
        for (end, rate) in k.ends.iter_mut().zip(p.own_loss) {
            if let Some(rate) = rate {
                Arc::get_mut(end).ok_or("harness: an end is shared already")?.set_loss_rate(rate);
            }
        }
    }
    let start = now();
    w.policy(Some(p.faults.policy(server_addr(), start, p.latency, mtu)));
    Ok(Session { listener, conns, start })
}

impl Session {
    /// Start readers on both ends of every connection, and the plan's senders.
    pub fn start_traffic(&self, p: &Plan) {
        for (c, k) in self.conns.iter().enumerate() {
            for d in 0..2 {
                collect(k.ends[d].clone(), k.logs[d].clone());
                k.logs[d].lock().unwrap().pending = p.acts[c][d].len();
                for (t, acts) in p.acts[c][d].iter().enumerate() {
                    tokio::spawn(perform(k.ends[d].clone(), k.logs[d].clone(), c, d, t, acts.clone()));
                }
                if p.keepalive > 0 {
                    k.logs[d].lock().unwrap().pending += 1;
                    let acts = (0..p.keepalive).flat_map(|_| [Act::Send { class: 0, size: TAG }, Act::Pause(10_000)]).collect();
                    tokio::spawn(perform(k.ends[d].clone(), k.logs[d].clone(), c, d, 99, acts));
                }
            }
        }
    }
    pub fn senders_done(&self) -> bool {
        self.conns.iter().all(|c| c.logs.iter().all(|l| l.lock().unwrap().pending == 0))
    }
    /// Every message of these classes that must arrive has arrived (at least once). Of the
    /// ReliableSequenced ones that is the newest, or any newer sequenced one.
    pub fn delivered(&self, classes: &[u8]) -> bool {
        let rest: Vec<u8> = classes.iter().copied().filter(|c| *c != 4).collect();
        self.conns.iter().all(|c| {
            (0..2).all(|d| {
                let (a, b) = (c.logs[d].lock().unwrap(), c.logs[1 - d].lock().unwrap());
                missing(&a, &b, &rest).is_none() && (!classes.contains(&4) || newest_arrived(&a, &b))
            })
        })
    }
    /// Wait until all senders are done and all messages of `classes` have arrived, or the deadline passes;
    /// then linger to catch late duplicates.
    pub async fn settle(&self, classes: &[u8], deadline: u64, linger: u64) {
        let mut done = None;
        loop {
            if done.is_none() && self.senders_done() {
                done = Some(now());
            }
            if done.is_some() && self.delivered(classes) {
                break;
            }
            // what is sent last has the same time to arrive as what is sent first
            if now() >= deadline && done.map(|t| now() >= t + 40_000).unwrap_or(now() >= deadline + 60_000) {
                break;
            }
            sim::sleep(50).await;
        }
        sim::sleep(linger).await;
    }
    /// No end has failed: no send, flush or recv returned an error.
    pub fn healthy(&self) -> Result<(), String> {
        for (c, k) in self.conns.iter().enumerate() {
            for d in 0..2 {
                let l = k.logs[d].lock().unwrap();
                let who = format!("connection {} {} end", c, ["client", "server"][d]);
                if let Some(s) = l.sends.iter().find(|s| s.err.is_some()) {
                    return Err(format!(
                        "{who}: send #{} ({} of {} bytes) at {} ms failed with {} though nothing closed the connection",
                        s.idx, CLASS[s.class as usize], s.data.len(), s.begin, s.err.as_ref().unwrap()
                    ));
                }
                if let Some(f) = l.flushes.iter().find(|f| f.2.is_some()) {
                    return Err(format!("{who}: flush at {} ms failed with {}", f.0, f.2.as_ref().unwrap()));
                }
                if let Some((t, e)) = &l.recv_err {
                    return Err(format!("{who}: recv failed at {t} ms with {e} though nothing closed the connection"));
                }
            }
        }
        Ok(())
    }
}

fn counts<'a>(it: impl Iterator<Item = &'a [u8]>) -> HashMap<&'a [u8], i64> {
    let mut m = HashMap::new();
    for x in it {
        *m.entry(x).or_default() += 1;
    }
    m
}

/// First accepted message of one of the given classes that has not arrived.
fn missing(from: &EndLog, to: &EndLog, classes: &[u8]) -> Option<SendRec> {
    let mut got = counts(to.recvs.iter().map(|r| &r.1[..]));
    for s in from.sends.iter().filter(|s| s.err.is_none() && classes.contains(&s.class)) {
        let e = got.entry(&s.data[..]).or_default();
        *e -= 1;
        if *e < 0 {
            return Some(s.clone());
        }
    }
    None
}

fn newest_arrived(from: &EndLog, to: &EndLog) -> bool {
    let Some(n) = from.sends.iter().filter(|s| s.class == 4 && s.err.is_none()).map(|s| s.order).max() else {
        return true;
    };
    from.sends[n..].iter().filter(|s| s.class == 1 || s.class == 4).any(|s| to.recvs.iter().rev().any(|r| r.1 == *s.data))
}

pub fn brief(d: &[u8]) -> String {
    if d.len() >= TAG && d[0] == 0xfe && (d[1] as usize) < 5 {
        format!(
            "[{} conn{} dir{} task{} #{} {} bytes]",
            CLASS[d[1] as usize], d[2], d[3], d[4],
            (d[5] as usize) << 16 | (d[6] as usize) << 8 | d[7] as usize, d.len()
        )
    } else {
        format!("{:02x?}", &d[..d.len().min(24)])
    }
}

/// Is the received message of this class? Tagged messages say so; shorter ones are of the tiny class.
pub fn class_of(d: &[u8], tiny: Option<u8>) -> Option<u8> {
    if d.len() >= TAG {
        Some(d[1])
    } else {
        tiny
    }
}

/// ReliableOrdered: per sending task, exactly once and in order.
pub fn check_ordered(from: &EndLog, to: &EndLog, tasks: usize, tiny: Option<u8>) -> Result<(), String> {
    for t in 0..tasks {
        let want: Vec<&Arc<Vec<u8>>> = from.sends.iter().filter(|s| s.class == 3 && s.task == t && s.err.is_none()).map(|s| &s.data).collect();
        let got: Vec<&Vec<u8>> = to
            .recvs
            .iter()
            .map(|r| &r.1)
            .filter(|d| class_of(d, tiny) == Some(3) && (tasks == 1 || d.len() < TAG || d[4] as usize == t))
            .collect();
        for i in 0..want.len().max(got.len()) {
            match (want.get(i), got.get(i)) {
                (Some(w), Some(g)) if w[..] == g[..] => {}
                (Some(w), Some(g)) => {
                    return Err(format!("ReliableOrdered message {i} of a task should be {} but recv returned {}", brief(w), brief(g)))
                }
                (Some(w), None) => return Err(format!("ReliableOrdered message {} was never delivered ({} of {} arrived)", brief(w), got.len(), want.len())),
                (None, Some(g)) => return Err(format!("recv returned a ReliableOrdered message that should not be there: {}", brief(g))),
                _ => unreachable!(),
            }
        }
    }
    Ok(())
}

/// Reliable: each exactly once, in any order.
pub fn check_reliable(from: &EndLog, to: &EndLog, tiny: Option<u8>) -> Result<(), String> {
    let want = counts(from.sends.iter().filter(|s| s.class == 2 && s.err.is_none()).map(|s| &s.data[..]));
    let got = counts(to.recvs.iter().map(|r| &r.1[..]).filter(|d| class_of(d, tiny) == Some(2)));
    for (k, n) in &want {
        let g = got.get(k).copied().unwrap_or(0);
        if g != *n {
            return Err(format!("Reliable message {} sent {} time(s) was delivered {} time(s)", brief(k), n, g));
        }
    }
    for k in got.keys() {
        if !want.contains_key(k) {
            return Err(format!("recv returned a Reliable message nobody sent: {}", brief(k)));
        }
    }
    Ok(())
}

/// Sequenced: strictly increasing send order; newest ReliableSequenced not lost; all if `all`.
pub fn check_sequenced(from: &EndLog, to: &EndLog, all: bool) -> Result<(), String> {
    let order: HashMap<&[u8], usize> = from.sends.iter().filter(|s| s.class == 1 || s.class == 4).map(|s| (&s.data[..], s.order)).collect();
    let mut last: Option<usize> = None;
    let mut seen = 0;
    for (t, d) in &to.recvs {
        if !matches!(class_of(d, None), Some(1) | Some(4)) {
            continue;
        }
        let Some(o) = order.get(&d[..]) else {
            return Err(format!("recv returned a sequenced message nobody sent: {}", brief(d)));
        };
        if let Some(l) = last {
            if *o == l {
                return Err(format!("sequenced message {} was returned twice (again at {t} ms)", brief(d)));
            }
            if *o < l {
                return Err(format!("sequenced message {} was returned at {t} ms after a newer one", brief(d)));
            }
        }
        last = Some(*o);
        seen += 1;
    }
    if let Some(n) = from.sends.iter().filter(|s| s.class == 4 && s.err.is_none()).map(|s| s.order).max() {
        if last.map(|l| l < n).unwrap_or(true) {
            return Err(format!("the newest ReliableSequenced message {} was never delivered, nor any newer one", brief(&from.sends[n].data)));
        }
    }
    if all {
        let n = from.sends.iter().filter(|s| (s.class == 1 || s.class == 4) && s.err.is_none()).count();
        if n != seen {
            return Err(format!("{seen} of {n} sequenced messages delivered over a network that neither loses nor reorders"));
        }
    }
    Ok(())
}

/// Every received message was sent by the other end of this connection; `exact`: every unreliable message arrives exactly once.
pub fn check_integrity(from: &EndLog, to: &EndLog, exact: bool) -> Result<(), String> {
    let want = counts(from.sends.iter().map(|s| &s.data[..]));
    for (t, d) in &to.recvs {
        if !want.contains_key(&d[..]) {
            return Err(format!("recv returned at {t} ms a message its peer never sent: {}", brief(d)));
        }
    }
    if exact {
        let got = counts(to.recvs.iter().map(|r| &r.1[..]));
        for s in from.sends.iter().filter(|s| s.class == 0 && s.err.is_none()) {
            let g = got.get(&s.data[..]).copied().unwrap_or(0);
            if g != want[&s.data[..]] {
                return Err(format!("Unreliable message {} was delivered {} times over a perfect network", brief(&s.data), g));
            }
        }
    }
    Ok(())
}
