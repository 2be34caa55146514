//! C09, C15, C16, C17: flush, close, timeouts and the end of a listener.
use crate::c_wire::{role, scripted, Role};
use crate::engine::{no_panics, Case, Check, Rng, Src, Sub};
use crate::peer::Peer;
use crate::scenario::*;
use crate::sim::{self, host, now, server_addr, within};
use crate::wire::{self, Frame, Packet};
use rust_raknet::error::RaknetError;
use rust_raknet::{RaknetListener, RaknetSocket};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::net::SocketAddr;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};

pub const CHECKS: &[Check] = &[
    Check {
        id: "C09",
        subs: &[
            Sub {
                name: "session",
                run: c09_session,
                quick: 40_000,
                thorough: 600_000,
                rule: "flushes between the sends of generated sessions over a faulty network; non-trivial if a flush began while an accepted reliable message of its end had not arrived",
            },
            Sub {
                name: "scripted",
                run: c09_scripted,
                quick: 30_000,
                thorough: 600_000,
                rule: "flushes while a scripted peer withholds, delays, repeats and forges acknowledgements; non-trivial if a flush had to wait",
            },
            Sub {
                name: "closed",
                run: c09_closed,
                quick: 20_000,
                thorough: 300_000,
                rule: "flushes pending or begun when the connection is closed from either side or by its listener; non-trivial if at least one was pending",
            },
        ],
    },
    Check {
        id: "C15",
        subs: &[
            crate::c_pending::C15_UNACCEPTED,
            Sub {
                name: "close",
                run: c15_close,
                quick: 40_000,
                thorough: 500_000,
                rule: "close or drop of either end after generated traffic, with unread messages on both sides and lost disconnect notices; non-trivial if messages were unread or unacknowledged when the connection was closed",
            },
            Sub {
                name: "peer",
                run: c15_peer,
                quick: 30_000,
                thorough: 300_000,
                rule: "a scripted peer disconnects by datagram or by frame, alone or together with messages; non-trivial if messages were unread at that moment",
            },
            Sub {
                name: "races",
                run: c15_races,
                quick: 40_000,
                thorough: 500_000,
                rule: "sends, flushes, receives and closes of both ends interleaved by several tasks; non-trivial if at least two calls were pending when the first close was called",
            },
            Sub {
                name: "notice",
                run: c15_notice,
                quick: 20_000,
                thorough: 300_000,
                rule: "the library closes or drops a connection whose scripted peer has left holes in its messages, half-sent fragments and unacknowledged datagrams behind; non-trivial if anything was incomplete",
            },
            Sub {
                name: "instant",
                run: c15_instant,
                quick: 8000,
                thorough: 200_000,
                rule: "sockets dropped, closed or given an errand at the very moment connect or accept returns them, some by an acceptor that the scheduler runs before anything the library has just started; non-trivial if one end was dropped or closed without any wait",
            },
        ],
    },
    Check {
        id: "C16",
        subs: &[
            Sub {
                name: "silence",
                run: c16_silence,
                quick: 4000,
                thorough: 300_000,
                rule: "the peer's last datagram arrives at a generated moment of a generated conversation; every case is non-trivial: the connection must live for 60 s and be closed by 65 s",
            },
            Sub {
                name: "alive",
                run: c16_alive,
                quick: 4000,
                thorough: 300_000,
                rule: "several minutes with one datagram at least every 60 s; non-trivial if one of the pauses is longer than 30 s",
            },
            Sub {
                name: "hours",
                run: c16_hours,
                quick: 64,
                thorough: 1200,
                rule: "two ends of the library that exchange a message now and then for hours (thorough: days) of virtual time, sometimes over a faulty network; every case is non-trivial",
            },
        ],
    },
    Check {
        id: "C17",
        subs: &[
            Sub {
                name: "close",
                run: c17,
                quick: 14_000,
                thorough: 400_000,
                rule: "close or drop of a listener with connections in generated states; non-trivial if it has at least one connection that is not idle",
            },
            Sub {
                name: "instant",
                run: c17_instant,
                quick: 4000,
                thorough: 60_000,
                rule: "listeners dropped or closed a few scheduler turns or milliseconds after bind or listen, repeatedly on one address; non-trivial if one was ended without waiting",
            },
            crate::c_cancel::C17,
            crate::c_real::C17,
        ],
    },
];

fn side(d: usize) -> &'static str {
    ["client", "server"][d]
}
fn closed(e: &RaknetError) -> bool {
    matches!(e, RaknetError::ConnectionClosed)
}

// ------------------------------------------------------------------ C09

fn c09_session(s: &mut Src) -> Case {
    let mtu = s.pick(&[1400u16, 1400, 400]);
    let t = Traffic { classes: vec![3, 3, 2, 2, 0, 4, 1], tiny: None, mtu, max_big: 9000, avg: 6, max: 25, flushes: true };
    let mut p = Plan::gen(s, &t, 1, 3, true);
    // end most of the plans with a flush
    for a in p.acts.iter_mut().flatten().flatten() {
        if s.chance(2, 3) {
            a.push(Act::Flush);
        }
    }
    s.note(p.describe());
    let waited = Arc::new(AtomicBool::new(false));
    let nt = waited.clone();
    let limit = 150_000 + p.faults.until;
    let plan = p.clone();
    let r = sim::run(p.seed, p.yields, limit, move |w| async move {
        let ses = establish(&w, &plan).await?;
        ses.start_traffic(&plan);
        ses.settle(&[2, 3], ses.start + plan.faults.until + 60_000, 300).await;
        no_panics()?;
        ses.healthy()?;
        if !ses.senders_done() {
            return Err(format!("a send or flush had not returned {} s after the network recovered", 60));
        }
        for (c, k) in ses.conns.iter().enumerate() {
            for d in 0..2 {
                let l = k.logs[d].lock().unwrap();
                let other = k.logs[1 - d].lock().unwrap();
                let at: HashMap<&[u8], u64> = other.recvs.iter().map(|r| (&r.1[..], r.0)).collect();
                for (f, over) in l.flushes.iter().zip(&l.flush_over) {
                    if f.2.is_some() {
                        continue;
                    }
                    for m in over.iter().map(|i| &l.sends[*i]).filter(|m| m.class == 2 || m.class == 3) {
                        let a = at.get(&m.data[..]).copied();
                        if a.map(|a| a > f.0).unwrap_or(true) {
                            waited.store(true, Ordering::Relaxed);
                        }
                        if a.map(|a| a > f.1).unwrap_or(true) {
                            return Err(format!(
                                "connection {c}: the flush of the {} begun at {} ms returned at {} ms, but {} accepted before at {} ms was available to the peer {}",
                                side(d), f.0, f.1, brief(&m.data), m.end,
                                match a { Some(a) => format!("only at {a} ms"), None => "never".into() }
                            ));
                        }
                    }
                }
            }
        }
        Ok(())
    });
    s.nontrivial(nt.load(Ordering::Relaxed));
    r
}

/// Frames a library end sent, and when each of their datagrams was acknowledged.
#[derive(Default)]
struct AckModel {
    frames: Vec<(u32, Frame)>,
    acked: HashMap<u32, u64>,
}
impl AckModel {
    fn message_acks(&self) -> HashMap<Vec<u8>, u64> {
        let mut whole: HashMap<Vec<u8>, u64> = HashMap::new();
        let mut parts: BTreeMap<(u16, u32), BTreeMap<u32, (Vec<u8>, u64)>> = BTreeMap::new();
        for (seq, f) in &self.frames {
            let Some(t) = self.acked.get(seq) else { continue };
            match &f.split {
                None => {
                    let e = whole.entry(f.body.clone()).or_insert(*t);
                    *e = (*e).min(*t);
                }
                Some(sp) => {
                    let e = parts.entry((sp.id, sp.size)).or_default().entry(sp.index).or_insert((f.body.clone(), *t));
                    e.1 = e.1.min(*t);
                }
            }
        }
        for ((_, size), p) in parts {
            if p.len() == size as usize {
                let t = p.values().map(|x| x.1).max().unwrap();
                whole.insert(p.into_values().flat_map(|x| x.0).collect(), t);
            }
        }
        whole
    }
}

fn c09_scripted(s: &mut Src) -> Case {
    let role = role(s);
    let mtu = s.pick(&[1400u16, 400]);
    let seed = s.below(1 << 32);
    let yields = s.pick(&[0, 0, 64]);
    let latency = s.pick(&[1u64, 1, 20]);
    let t = Traffic { classes: vec![3, 3, 2, 2, 0, 4, 1], tiny: None, mtu, max_big: 3000, avg: 4, max: 12, flushes: true };
    let tasks = s.usize(1, 3);
    let mut acts: Vec<Vec<Act>> = (0..tasks).map(|_| gen_acts(s, &t)).collect();
    for a in acts.iter_mut() {
        if s.chance(3, 4) {
            a.push(Act::Flush);
        }
    }
    // per mille: acknowledge at once, later, never (until the end), report missing
    let now_p = s.pick(&[500u64, 0, 200, 800]);
    let late_p = s.pick(&[300u64, 0, 150]);
    let nack_p = s.pick(&[0u64, 100, 400]);
    let forge = s.chance(1, 3);
    let ranges = s.chance(1, 3);
    // at times the peer is not heard of for almost a minute
    let silent = s.chance(1, 10);
    let until = if silent { s.int(5000, 57_000) } else { s.int(100, 3000) };
    let (now_p, late_p, nack_p, forge) = if silent { (0, 0, 0, false) } else { (now_p, late_p, nack_p, forge) };
    s.label_if(silent && until > 30_000, "peer silent for more than 30 s");
    s.note(format!(
        "library is the {role:?}, mtu {mtu}, latency {latency}; for {until} ms the peer acknowledges {now_p} per mille of the datagrams at once, {late_p} up to 400 ms later, reports {nack_p} missing, ignores the rest; forged numbers {forge}, ranges {ranges}"
    ));
    for (i, a) in acts.iter().enumerate() {
        s.note(format!("task {i}: {}", describe_acts(a)));
    }
    let waited = Arc::new(AtomicBool::new(false));
    let nt = waited.clone();
    let r = sim::run(seed, yields, 300_000, move |w| async move {
        w.latency(latency);
        let (lib, mut p) = scripted(&w, role, 10, mtu).await?;
        p.auto_ack = false;
        let log: Log = Default::default();
        log.lock().unwrap().pending = acts.len();
        for (i, a) in acts.iter().enumerate() {
            tokio::spawn(perform(lib.sock.clone(), log.clone(), 0, 0, i, a.clone()));
        }
        let start = now();
        let mut m = AckModel::default();
        let mut rng = Rng::new(seed);
        let mut later: Vec<(u64, u32)> = vec![];
        let mut withheld: Vec<u32> = vec![];
        let end = start + until + 60_000;
        let mut last = start;
        while now() < end {
            let open = now() < start + until;
            if let Some(r) = p.next(5).await {
                if let Ok(Packet::Frames { seq, frames, .. }) = r.pkt {
                    last = now();
                    for f in frames {
                        m.frames.push((seq, f));
                    }
                    let x = rng.next() % 1000;
                    if !open || x < now_p {
                        later.push((now(), seq));
                    } else if x < now_p + late_p {
                        later.push((now() + rng.next() % 400, seq));
                    } else if x < now_p + late_p + nack_p {
                        p.send(&wire::nack(&[(seq, seq)]));
                        withheld.push(seq);
                    } else {
                        withheld.push(seq);
                    }
                    if forge && open {
                        p.send(&wire::ack(&[(seq + 500, seq + 510)]));
                    }
                }
            }
            if !open {
                later.extend(withheld.drain(..).map(|q| (now(), q)));
            }
            let mut due: Vec<u32> = later.iter().filter(|l| l.0 <= now()).map(|l| l.1).collect();
            later.retain(|l| l.0 > now());
            due.sort_unstable();
            due.dedup();
            if !due.is_empty() {
                for q in &due {
                    m.acked.entry(*q).or_insert(now() + latency);
                }
                if ranges {
                    p.send(&wire::ack(&wire::ranges(&due)));
                } else {
                    for q in due {
                        p.send(&wire::ack(&[(q, q)]));
                    }
                }
            }
            if now() > (start + until).max(last) + 1000 {
                let l = log.lock().unwrap();
                if l.pending == 0 && l.sends.iter().all(|x| now() > x.end + 1000) {
                    break;
                }
            }
        }
        no_panics()?;
        let l = log.lock().unwrap();
        if l.pending > 0 {
            return Err(format!("a send or flush had not returned {} ms after everything was acknowledged", now() - last));
        }
        if let Some(m) = l.sends.iter().find(|m| m.err.is_some()) {
            return Err(format!("send #{} failed: {:?}", m.idx, m.err));
        }
        let acks = m.message_acks();
        let mut all_done = 0;
        for x in l.sends.iter() {
            all_done = all_done.max(x.end);
            if wire::is_reliable(x.class) {
                match acks.get(&x.data[..]) {
                    Some(t) => all_done = all_done.max(*t),
                    None => return Err(format!("{} was never sent completely", brief(&x.data))),
                }
            }
        }
        for (f, over) in l.flushes.iter().zip(&l.flush_over) {
            if let Some(e) = &f.2 {
                return Err(format!("the flush begun at {} ms failed with {e} though nothing closed the connection", f.0));
            }
            if f.1 > f.0 + 20 {
                waited.store(true, Ordering::Relaxed);
            }
            for x in over.iter().map(|i| &l.sends[*i]).filter(|x| wire::is_reliable(x.class)) {
                let t = acks[&x.data[..]];
                if t > f.1 {
                    return Err(format!("the flush begun at {} ms returned at {} ms, but {}, accepted at {} ms, was acknowledged only at {t} ms", f.0, f.1, brief(&x.data), x.end));
                }
            }
            if f.1 > f.0.max(all_done) + 300 {
                return Err(format!("the flush begun at {} ms returned only at {} ms though everything ever sent was acknowledged by {all_done} ms", f.0, f.1));
            }
        }
        Ok(())
    });
    s.nontrivial(nt.load(Ordering::Relaxed));
    r
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum End {
    Local,
    Raw,
    InFrame(u8),
    Listener,
}

fn c09_closed(s: &mut Src) -> Case {
    let role = role(s);
    let seed = s.below(1 << 32);
    let yields = s.pick(&[0, 0, 64]);
    let latency = s.pick(&[1u64, 0, 20]);
    let end = match s.weighted(&[3, 2, 2, if role == Role::Listener { 2 } else { 0 }]) {
        0 => End::Local,
        1 => End::Raw,
        2 => End::InFrame(s.pick(&[2u8, 3, 0])),
        _ => End::Listener,
    };
    let sends: Vec<(u8, usize)> = s.list(0, 2, 6, |s, _| {
        let c = s.pick(&[3u8, 2, 0, 4]);
        (c, if c == 3 { s.pick(&[20usize, 3000]) } else { 20 })
    });
    let flushes: Vec<u64> = s.list(1, 2, 5, |s, _| s.pick(&[0u64, 1, 50, 500]));
    let wait = s.pick(&[100u64, 0, 3, 1000, 10_000]);
    s.note(format!("library is the {role:?}, latency {latency}; sends {sends:?}, never acknowledged; flushes after {flushes:?} ms; at {wait} ms closed by {end:?}"));
    s.nontrivial(sends.iter().any(|x| x.0 != 0) && flushes.iter().any(|f| *f <= wait));
    sim::run(seed, yields, 200_000, move |w| async move {
        w.latency(latency);
        let (lib, mut p) = scripted(&w, role, 10, 1400).await?;
        p.auto_ack = false;
        let mut listener = lib.listener;
        for (i, (c, n)) in sends.iter().enumerate() {
            match within(1000, lib.sock.send(&payload(0, 0, 0, i, *c, *n), rel(*c))).await {
                Some(Ok(())) => {}
                x => return Err(format!("send {i}: {x:?}")),
            }
        }
        let reliable = sends.iter().any(|x| x.0 != 0);
        let start = now();
        let log: Arc<Mutex<Vec<(u64, u64, Result<(), RaknetError>)>>> = Default::default();
        for f in &flushes {
            let (k, log, f) = (lib.sock.clone(), log.clone(), *f);
            tokio::spawn(async move {
                sim::sleep(f).await;
                let b = now();
                let r = k.flush().await;
                log.lock().unwrap().push((b, now(), r));
            });
        }
        sim::sleep(wait).await;
        let bound = match end {
            End::Local => {
                match within(1000, lib.sock.close()).await {
                    Some(Ok(())) => {}
                    x => return Err(format!("close: {x:?}")),
                }
                100
            }
            End::Raw => {
                p.send(&[0x15]);
                100 + latency
            }
            End::InFrame(c) => {
                p.send_msg(c, vec![0x15]);
                100 + latency
            }
            End::Listener => {
                match within(30_000, listener.as_mut().unwrap().close()).await {
                    Some(Ok(())) => {}
                    x => return Err(format!("RaknetListener::close: {x:?}")),
                }
                100
            }
        };
        let at = now() + bound;
        sim::sleep((at - now()).max(start + 600 - start.min(now()))).await;
        sim::sleep(1000).await;
        no_panics()?;
        for (b, e, r) in log.lock().unwrap().iter() {
            match r {
                Ok(()) if reliable => return Err(format!("a flush begun at {b} ms returned Ok at {e} ms though nothing was acknowledged")),
                Ok(()) if *b > at => return Err(format!("a flush begun at {b} ms returned Ok on a connection closed by {at} ms")),
                Ok(()) => {}
                Err(x) if !closed(x) => return Err(format!("a flush begun at {b} ms failed with {x:?} instead of ConnectionClosed")),
                Err(_) => {
                    if *e > at.max(*b) {
                        return Err(format!("a flush begun at {b} ms noticed only at {e} ms that the connection was closed by {at} ms"));
                    }
                }
            }
        }
        if log.lock().unwrap().len() != flushes.len() {
            return Err("a flush was still waiting more than a second after the connection was closed".into());
        }
        match within(1000, lib.sock.flush()).await {
            Some(Err(RaknetError::ConnectionClosed)) => Ok(()),
            x => Err(format!("flush of a closed connection: {x:?}")),
        }
    })
}

// ------------------------------------------------------------------ C15

#[derive(Clone, Copy, Debug, PartialEq)]
enum How {
    Close,
    Drop,
}

/// Receive until an error, at most `ms`.
async fn drain(sock: &RaknetSocket, log: &Log, ms: u64) -> Result<RaknetError, String> {
    let end = now() + ms;
    loop {
        match within(end.saturating_sub(now()), sock.recv()).await {
            None => return Err(format!("recv neither returned a message nor failed within {ms} ms")),
            Some(Ok(m)) => log.lock().unwrap().recvs.push((now(), m)),
            Some(Err(e)) => return Ok(e),
        }
    }
}

/// What an end received is part of what was sent: nothing foreign, no duplicates, ordered messages in order.
fn subset(from: &EndLog, to: &EndLog) -> Case {
    check_integrity(from, to, false)?;
    let mut seen = HashSet::new();
    for (_, m) in &to.recvs {
        if matches!(m.get(1), Some(2) | Some(3) | Some(4)) && !seen.insert(m.clone()) {
            return Err(format!("{} was received twice", brief(m)));
        }
    }
    let order: HashMap<&[u8], usize> = from.sends.iter().map(|s| (&s.data[..], s.order)).collect();
    let mut last: Option<usize> = None;
    for (_, m) in to.recvs.iter().filter(|r| r.1.get(1) == Some(&3)) {
        let o = order[&m[..]];
        if last.map(|l| l >= o).unwrap_or(false) {
            return Err(format!("{} was received after a later message", brief(m)));
        }
        last = Some(o);
    }
    Ok(())
}

/// Everything covered by a successful flush of `from` is in `to`.
fn flushed_arrived(who: &str, from: &EndLog, to: &EndLog) -> Case {
    let got: HashSet<&[u8]> = to.recvs.iter().map(|r| &r.1[..]).collect();
    for (f, over) in from.flushes.iter().zip(&from.flush_over) {
        if f.2.is_none() {
            for m in over.iter().map(|i| &from.sends[*i]).filter(|m| m.class == 2 || m.class == 3) {
                if !got.contains(&m.data[..]) {
                    return Err(format!("{who}: {} was flushed by its sender at {} ms but recv did not return it before the error", brief(&m.data), f.1));
                }
            }
        }
    }
    Ok(())
}

fn c15_close(s: &mut Src) -> Case {
    let seed = s.below(1 << 32);
    let yields = s.pick(&[0, 0, 64]);
    let latency = s.pick(&[1u64, 0, 5, 40]);
    let t = Traffic { classes: vec![3, 3, 2, 0, 4], tiny: None, mtu: 1400, max_big: 6000, avg: 4, max: 12, flushes: true };
    let mut acts = [gen_acts(s, &t), gen_acts(s, &t)];
    for a in acts.iter_mut() {
        if s.chance(2, 3) {
            a.push(Act::Flush);
        }
        // messages that may be in flight at the close
        a.extend(gen_acts(s, &Traffic { flushes: false, avg: 1, max: 4, ..t.clone() }));
    }
    let who = s.usize(0, 1);
    let how = s.pick(&[How::Close, How::Close, How::Drop]);
    let readers = [s.chance(1, 3), s.chance(1, 3)];
    let late = s.pick(&[0u64, 0, 10, 1000, 5000]);
    let lose = s.pick(&[0usize, 0, 1, 5, 9, 10_000]);
    let pre = s.pick(&[0u64, 0, 1, 30, 60, 400]);
    let closers = s.usize(1, 3);
    s.note(format!(
        "latency {latency}; client: {}; server: {}; then after {pre} ms the {} {how:?}s ({closers} times); readers from the start: client {} server {}, the others start {late} ms later; first {lose} disconnect notices lost",
        describe_acts(&acts[0]), describe_acts(&acts[1]), side(who), readers[0], readers[1]
    ));
    let any = |d: usize| acts[d].iter().any(|a| matches!(a, Act::Send { .. }));
    s.nontrivial((0..2).any(|d| any(d) && !readers[1 - d]));
    s.label_if(lose >= 10_000, "every notice lost");
    s.label_if(how == How::Drop, "dropped");
    sim::run(seed, yields, 400_000, move |w| async move {
        let mut l = listener(&w).await?;
        let c = conn(&w, &mut l, 10).await?;
        w.latency(latency);
        let addrs = [c.client_addr, server_addr()];
        sim::sleep(300).await;
        let mut ends = [Some(c.ends[0].clone()), Some(c.ends[1].clone())];
        let logs = c.logs;
        drop(c.ends);
        let mut tasks = vec![];
        for d in 0..2 {
            let k = ends[d].clone().unwrap();
            logs[d].lock().unwrap().pending = 1;
            tasks.push(tokio::spawn(perform(k.clone(), logs[d].clone(), 0, d, 0, acts[d].clone())));
            if readers[d] && !(how == How::Drop && d == who) {
                collect(k, logs[d].clone());
            }
        }
        for t in tasks {
            if within(60_000, t).await.is_none() {
                return Err("the sends and flushes did not return within 60 s".into());
            }
        }
        sim::sleep(pre).await;
        no_panics()?;
        // notices of either form, to the peer of the closing end
        let lost = Arc::new(AtomicU64::new(0));
        let through = Arc::new(AtomicU64::new(0));
        {
            let (lost, through, dst) = (lost.clone(), through.clone(), addrs[1 - who]);
            w.policy(Some(Box::new(move |d: &sim::Dgram| {
                let notice = d.dst == dst
                    && match Packet::decode(&d.data) {
                        Ok(Packet::Disconnect) => true,
                        Ok(Packet::Frames { frames, .. }) => frames.iter().any(|f| f.body == [0x15]),
                        _ => false,
                    };
                if notice {
                    if (lost.load(Ordering::Relaxed) as usize) < lose {
                        lost.fetch_add(1, Ordering::Relaxed);
                        return vec![];
                    }
                    through.fetch_add(1, Ordering::Relaxed);
                }
                vec![(latency, d.data.clone())]
            })));
        }
        let t0 = now();
        let mine = ends[who].take().unwrap();
        match how {
            How::Drop => drop(mine),
            How::Close => {
                let hs: Vec<_> = (0..closers)
                    .map(|_| {
                        let k = mine.clone();
                        tokio::spawn(async move { within(1000, k.close()).await })
                    })
                    .collect();
                for h in hs {
                    match h.await {
                        Ok(Some(Ok(()))) => {}
                        x => return Err(format!("close: {x:?}")),
                    }
                }
                match within(1000, mine.send(&payload(0, who, 9, 0, 3, 20), rel(3))).await {
                    Some(Err(RaknetError::ConnectionClosed)) => {}
                    x => return Err(format!("send after close: {x:?}")),
                }
                match within(1000, mine.flush()).await {
                    Some(Err(RaknetError::ConnectionClosed)) => {}
                    x => return Err(format!("flush after close: {x:?}")),
                }
                match within(1000, mine.close()).await {
                    Some(Ok(())) => {}
                    x => return Err(format!("second close: {x:?}")),
                }
                if readers[who] {
                    sim::sleep(20_000).await;
                    if logs[who].lock().unwrap().recv_err.is_none() {
                        return Err(format!("recv of the {} was still waiting 20 s after close", side(who)));
                    }
                } else {
                    sim::sleep(late).await;
                    drain(&mine, &logs[who], 20_000).await.map_err(|e| format!("{} after close: {e}", side(who)))?;
                    match within(100, mine.recv()).await {
                        Some(Err(_)) => {}
                        x => return Err(format!("recv after it had failed: {:?}", x.map(|r| r.is_ok()))),
                    }
                }
                let (a, b) = (logs[1 - who].lock().unwrap(), logs[who].lock().unwrap());
                flushed_arrived(&format!("closing {}", side(who)), &a, &b)?;
                subset(&a, &b)?;
            }
        }
        no_panics()?;
        // the other end
        let peer = ends[1 - who].take().unwrap();
        let wait = if lose >= 10_000 { 66_000 } else { 4000 };
        let left = (t0 + wait).saturating_sub(now());
        sim::sleep(left).await;
        if lose < 9 && through.load(Ordering::Relaxed) == 0 {
            return Err(format!("the {} was closed but sent only {} disconnect notices", side(who), lost.load(Ordering::Relaxed)));
        }
        if through.load(Ordering::Relaxed) > 0 || lose >= 10_000 {
            match within(1000, peer.send(&payload(0, 1 - who, 9, 1, 3, 20), rel(3))).await {
                Some(Err(RaknetError::ConnectionClosed)) => {}
                x => return Err(format!("the {} still did not know {} ms after the close: send returned {x:?}", side(1 - who), now() - t0)),
            }
            match within(1000, peer.flush()).await {
                Some(Err(RaknetError::ConnectionClosed)) => {}
                x => return Err(format!("flush of the {}: {x:?}", side(1 - who))),
            }
            if readers[1 - who] {
                sim::sleep(if lose >= 10_000 { 11_000 } else { 100 }).await;
                if logs[1 - who].lock().unwrap().recv_err.is_none() {
                    return Err(format!("recv of the {} was still waiting {} ms after the close of the {}", side(1 - who), now() - t0, side(who)));
                }
            } else {
                drain(&peer, &logs[1 - who], 12_000).await.map_err(|e| format!("{} after the close of the {}: {e}", side(1 - who), side(who)))?;
            }
            let (a, b) = (logs[who].lock().unwrap(), logs[1 - who].lock().unwrap());
            flushed_arrived(&format!("{} after the close of the {}", side(1 - who), side(who)), &a, &b)?;
            subset(&a, &b)?;
            match within(1000, peer.close()).await {
                Some(Ok(())) => {}
                x => return Err(format!("close of the {}: {x:?}", side(1 - who))),
            }
        }
        no_panics()
    })
}

/// Polls a future up to `n` times in this turn of the scheduler and the next ones, without ever leaving the run queue.
struct Busy<F> {
    f: F,
    n: u64,
}
impl<F: std::future::Future> std::future::Future for Busy<F> {
    type Output = Option<F::Output>;
    fn poll(self: std::pin::Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> std::task::Poll<Self::Output> {
        let this = unsafe { self.get_unchecked_mut() };
        match unsafe { std::pin::Pin::new_unchecked(&mut this.f) }.poll(cx) {
            std::task::Poll::Ready(x) => std::task::Poll::Ready(Some(x)),
            std::task::Poll::Pending if this.n == 0 => std::task::Poll::Ready(None),
            std::task::Poll::Pending => {
                this.n -= 1;
                cx.waker().wake_by_ref();
                std::task::Poll::Pending
            }
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Fate {
    Drop,
    Close,
    SendDrop,
    FlushDrop,
    FlushClose,
    Keep,
}

async fn turns(n: u64) {
    for _ in 0..n {
        tokio::task::yield_now().await;
    }
}

/// What becomes of a socket; a kept one is returned.
async fn suffer(k: RaknetSocket, f: Fate, wait: u64, d: usize, c: usize) -> Result<Option<RaknetSocket>, String> {
    turns(wait).await;
    let m = payload(c, d, 0, 0, 3, 3000);
    match f {
        Fate::Drop => drop(k),
        Fate::Keep => return Ok(Some(k)),
        Fate::SendDrop => {
            let _ = k.send(&m, rel(3)).await;
        }
        Fate::FlushDrop | Fate::FlushClose | Fate::Close => {
            if f != Fate::Close && k.send(&m, rel(3)).await.is_ok() {
                within(30_000, k.flush()).await.ok_or("flush did not return within 30 s")?.ok();
            }
            if f != Fate::FlushDrop {
                match within(1000, k.close()).await {
                    Some(Ok(())) => return Ok(Some(k)),
                    x => return Err(format!("close: {x:?}")),
                }
            }
        }
    }
    Ok(None)
}

fn c15_instant(s: &mut Src) -> Case {
    let seed = s.below(1 << 32);
    let yields = s.pick(&[0, 0, 0, 64]);
    let latency = s.pick(&[1u64, 0, 7]);
    let busy = s.pick(&[60u64, 60, 0]);
    let fates: Vec<[(Fate, u64); 2]> = s.list(1, 3, 6, |s, _| {
        let mut one = || (s.pick(&[Fate::Drop, Fate::Drop, Fate::Close, Fate::SendDrop, Fate::FlushDrop, Fate::FlushClose, Fate::Keep, Fate::Keep]), if s.chance(1, 4) { s.int(1, 5) } else { 0 });
        [one(), one()]
    });
    s.note(format!("latency {latency}, yields {yields}/256, acceptor {}; fates and turns before them (client, server): {fates:?}", if busy > 0 { "busy" } else { "waiting" }));
    s.nontrivial(fates.iter().flatten().any(|f| f.1 == 0 && matches!(f.0, Fate::Drop | Fate::Close)));
    s.label_if(fates.iter().any(|f| f[1] == (Fate::Drop, 0)), "dropped when accepted");
    s.label_if(fates.iter().any(|f| f[0] == (Fate::Drop, 0)), "dropped when connected");
    sim::run(seed, yields, 400_000, move |w| async move {
        let mut l = listener(&w).await?;
        w.latency(latency);
        let n = fates.len();
        let f2 = fates.clone();
        let acceptor = tokio::spawn(async move {
            let mut kept = vec![];
            let mut seen = 0;
            while seen < n {
                let got = if busy == 0 { Some(l.accept().await) } else { Busy { f: l.accept(), n: busy }.await };
                match got {
                    None => sim::sleep(1).await,
                    Some(Err(e)) => return Err(format!("accept: {e:?}")),
                    Some(Ok(k)) => {
                        seen += 1;
                        let c = k.peer_addr().unwrap().ip();
                        let c = (0..n).find(|i| host(10 + *i as u8) == c).ok_or("accepted a stranger")?;
                        if f2[c][1] == (Fate::Drop, 0) {
                            drop(k);
                        } else {
                            kept.push((c, suffer(k, f2[c][1].0, f2[c][1].1, 1, c).await?));
                        }
                    }
                }
            }
            Ok((l, kept))
        });
        let mut clients = vec![];
        for (c, f) in fates.iter().copied().enumerate() {
            let w = w.clone();
            clients.push(tokio::spawn(async move {
                let k = match within(20_000, w.on(host(10 + c as u8), RaknetSocket::connect(&server_addr()))).await.ok_or("connect did not return within 20 s")? {
                    Ok(k) => k,
                    // the other end may be gone already
                    Err(RaknetError::ConnectionClosed) if f[1].0 != Fate::Keep => return Ok(None),
                    Err(e) => return Err(format!("connect: {e:?}")),
                };
                let at = SocketAddr::new(host(10 + c as u8), k.local_addr().unwrap().port());
                suffer(k, f[0].0, f[0].1, 0, c).await.map(|k| Some((at, k)))
            }));
        }
        let mut ends: Vec<Option<(SocketAddr, Option<RaknetSocket>)>> = vec![];
        for c in clients {
            ends.push(within(60_000, c).await.ok_or("a client was still busy after 60 s")?.map_err(|e| format!("client: {e}"))??);
        }
        let (mut l, kept) = within(60_000, acceptor).await.ok_or("accept had not returned every connection after 60 s")?.map_err(|e| format!("acceptor: {e}"))??;
        let t0 = now();
        sim::sleep(5000).await;
        no_panics()?;
        // the end that was kept has heard of the other's
        let log: Log = Default::default();
        for (d, who, c, k) in ends.iter().enumerate().filter_map(|(c, e)| e.as_ref().and_then(|e| e.1.as_ref()).map(|k| (0, "client", c, k))).chain(kept.iter().filter_map(|(c, k)| k.as_ref().map(|k| (1, "server", *c, k)))) {
            let other = fates[c][1 - d];
            let mine = fates[c][d];
            if mine.0 == Fate::Keep && other.0 == Fate::Keep {
                k.send(&payload(c, d, 0, 1, 3, 20), rel(3)).await.map_err(|e| format!("connection {c}: send of the {who}: {e:?} though neither end was closed"))?;
                within(5000, k.flush()).await.ok_or(format!("connection {c}: flush of the {who} did not return"))?.map_err(|e| format!("connection {c}: flush of the {who}: {e:?}"))?;
                continue;
            }
            match within(1000, k.send(&payload(c, d, 0, 1, 3, 20), rel(3))).await {
                Some(Err(RaknetError::ConnectionClosed)) => {}
                x => return Err(format!("connection {c}: send of the {who} ({mine:?}, its peer {other:?}) {} ms after both: {x:?}", now() - t0)),
            }
            let at = log.lock().unwrap().recvs.len();
            drain(k, &log, 12_000).await.map_err(|e| format!("connection {c}: the {who} ({mine:?}, its peer {other:?}): {e}"))?;
            if mine.0 == Fate::Keep && matches!(other.0, Fate::FlushDrop | Fate::FlushClose) {
                let want = payload(c, 1 - d, 0, 0, 3, 3000);
                if !log.lock().unwrap().recvs[at..].iter().any(|r| r.1 == want) {
                    return Err(format!("connection {c}: the message flushed by the peer of the {who} before it was ended did not arrive"));
                }
            }
        }
        sim::sleep((t0 + 20_000).saturating_sub(now())).await;
        for (c, (at, k)) in ends.iter().enumerate().filter_map(|(c, e)| e.as_ref().map(|e| (c, e))) {
            if k.is_none() && w.bound(*at) {
                return Err(format!("connection {c}: the client's port is still bound {} ms after its socket was dropped", now() - t0));
            }
        }
        // and the listener is as before
        for c in 0..n as u8 {
            let (a, b) = pair(&w, &mut l, 10 + c).await.map_err(|e| format!("another connection from host {c}: {e}"))?;
            a.send(&payload(1, 0, 5, 0, 3, 50), rel(3)).await.map_err(|e| format!("another connection: send: {e:?}"))?;
            match within(3000, b.recv()).await {
                Some(Ok(m)) if m == payload(1, 0, 5, 0, 3, 50) => {}
                x => return Err(format!("another connection: recv: {x:?}")),
            }
        }
        no_panics()
    })
}

fn c15_peer(s: &mut Src) -> Case {
    let role = role(s);
    let seed = s.below(1 << 32);
    let yields = s.pick(&[0, 0, 64]);
    let latency = s.pick(&[1u64, 0, 20]);
    // groups of messages, one datagram each
    let groups: Vec<Vec<(u8, usize)>> = s.list(0, 3, 12, |s, _| {
        s.list(1, 2, 5, |s, _| {
            let c = s.pick(&[3u8, 2, 0, 3, 4, 1]);
            (c, s.usize(TAG, 60))
        })
    });
    let form = s.weighted(&[2, 2, 2]);
    let class = s.pick(&[2u8, 3, 0]);
    let gap = s.pick(&[0u64, 0, 1, 100]);
    let reader = s.chance(1, 3);
    let late = s.pick(&[0u64, 20, 3000]);
    let again = s.chance(1, 3);
    let unacked = s.chance(1, 2);
    s.note(format!(
        "library is the {role:?}, latency {latency}; datagrams of messages {groups:?}; after {gap} ms a disconnect by {}; reader from the start {reader}, else {late} ms later; disconnect repeated {again}; the library has unacknowledged messages {unacked}",
        ["datagram", "frame", "frame behind the last messages"][form]
    ));
    s.nontrivial(!groups.is_empty() && !reader);
    sim::run(seed, yields, 200_000, move |w| async move {
        w.latency(latency);
        let (lib, mut p) = scripted(&w, role, 10, 1400).await?;
        let log: Log = Default::default();
        let handle = reader.then(|| collect(lib.sock.clone(), log.clone()));
        if unacked {
            p.auto_ack = false;
            for i in 0..3 {
                lib.sock.send(&payload(5, 0, 0, i, 3, 20), rel(3)).await.map_err(|e| format!("send: {e:?}"))?;
            }
        }
        let mut sent: Vec<Vec<u8>> = vec![];
        let mut k = 0;
        let n = groups.len();
        let mut sequenced: Option<Vec<u8>> = None;
        for (i, g) in groups.iter().enumerate() {
            let mut fs = vec![];
            for (c, size) in g {
                let b = payload(0, 1, 0, k, *c, *size);
                k += 1;
                sent.push(b.clone());
                if wire::is_sequenced(*c) {
                    sequenced = Some(b.clone());
                }
                fs.push(p.frame(*c, b));
            }
            if form == 2 && i + 1 == n {
                sim::sleep(gap).await;
                fs.push(p.frame(class, vec![0x15]));
            }
            p.send_frames(&fs);
        }
        let _ = sequenced;
        if form != 2 || n == 0 {
            sim::sleep(gap).await;
            if form == 0 {
                p.send(&[0x15]);
            } else {
                p.send_msg(class, vec![0x15]);
            }
        }
        if again {
            p.send(&[0x15]);
            p.send_msg(0, vec![0x15]);
            p.send_msg(3, payload(0, 1, 0, 999, 3, 20));
        }
        sim::sleep(latency + 100).await;
        match within(1000, lib.sock.send(&payload(5, 0, 0, 9, 3, 20), rel(3))).await {
            Some(Err(RaknetError::ConnectionClosed)) => {}
            x => return Err(format!("send {} ms after the peer's disconnect arrived: {x:?}", 100)),
        }
        match within(1000, lib.sock.flush()).await {
            Some(Err(RaknetError::ConnectionClosed)) => {}
            x => return Err(format!("flush after the peer's disconnect: {x:?}")),
        }
        sim::sleep(late).await;
        match handle {
            Some(h) => match within(1000, h).await {
                Some(Ok(())) => {}
                _ => return Err("recv was still waiting after the peer's disconnect".into()),
            },
            None => {
                drain(&lib.sock, &log, 15_000).await?;
            }
        }
        match within(1000, lib.sock.close()).await {
            Some(Ok(())) => {}
            x => return Err(format!("close: {x:?}")),
        }
        let l = log.lock().unwrap();
        let got: Vec<&Vec<u8>> = l.recvs.iter().map(|r| &r.1).filter(|m| m[0] == 0xfe).collect();
        for m in &sent {
            if got.iter().filter(|g| **g == m).count() != 1 {
                return Err(format!(
                    "{} had arrived before the disconnect but recv returned it {} times before failing",
                    brief(m),
                    got.iter().filter(|g| **g == m).count()
                ));
            }
        }
        no_panics()
    })
}

/// Whatever is unfinished in either direction, the peer is told of the close.
fn c15_notice(s: &mut Src) -> Case {
    let role = role(s);
    let seed = s.below(1 << 32);
    let yields = s.pick(&[0, 0, 64]);
    let latency = s.pick(&[1u64, 0, 20]);
    let mtu = s.pick(&[1400u16, 400]);
    let hole = s.chance(2, 3);
    let pending = if s.chance(1, 10) { s.usize(60, 400) } else { s.usize(0, 30) };
    let groups = s.usize(0, 20);
    let acks = s.chance(1, 2);
    let mine: Vec<(u8, usize)> = s.list(0, 2, 8, |s, _| {
        let c = s.pick(&[3u8, 2, 0, 3, 4, 1]);
        (c, if c == 3 && s.chance(1, 4) { s.usize(500, 9000) } else { s.usize(TAG, 60) })
    });
    let wait = s.pick(&[0u64, 1, 49, 60, 500, 20_000]);
    let how = s.pick(&[How::Close, How::Drop]);
    let reader = s.chance(1, 2) && how == How::Close;
    s.note(format!(
        "library is the {role:?}, mtu {mtu}, latency {latency}; the peer {} and {pending} ordered messages, {groups} messages whose last fragment is missing, acknowledges {acks}; the library sends {mine:?}; {wait} ms later {how:?}, with a reader {reader}",
        if hole { "leaves out one" } else { "sends a message" }
    ));
    s.nontrivial(hole && pending > 0 || groups > 0 || !acks && !mine.is_empty());
    s.label_if(hole && pending > 9, "more than 9 messages behind a hole");
    sim::run(seed, yields, 200_000, move |w| async move {
        w.latency(latency);
        let (lib, mut p) = scripted(&w, role, 10, mtu).await?;
        p.auto_ack = acks;
        let log: Log = Default::default();
        if reader {
            collect(lib.sock.clone(), log.clone());
        }
        for i in 0..pending + 1 {
            let f = p.frame(3, payload(0, 1, 0, i, 3, 20));
            if i > 0 || !hole {
                p.send_frames(&[f]);
            }
        }
        for i in 0..groups {
            let m = payload(0, 1, 0, pending + 1 + i, 3, 60);
            let fs = p.fragments(&m, 20);
            p.send_frames(&fs[..2]);
        }
        for (i, (c, size)) in mine.iter().enumerate() {
            match within(2000, lib.sock.send(&payload(0, 0, 0, i, *c, (*size).min(if *c == 3 { 9000 } else { 340 })), rel(*c))).await {
                Some(Ok(())) => {}
                x => return Err(format!("send: {x:?}")),
            }
        }
        p.drain(wait).await;
        no_panics()?;
        let sock = lib.sock;
        let mut kept = None;
        match how {
            How::Close => {
                match within(1000, sock.close()).await {
                    Some(Ok(())) => {}
                    x => return Err(format!("close: {x:?}")),
                }
                kept = Some(sock);
            }
            How::Drop => drop(sock),
        }
        let mut told = false;
        for rx in p.drain(2000 + 2 * latency).await {
            match rx.pkt {
                Ok(Packet::Disconnect) => told = true,
                Ok(Packet::Frames { frames, .. }) => told |= frames.iter().any(|f| f.body == [0x15]),
                _ => {}
            }
        }
        if !told {
            return Err(format!("no disconnect notice reached the peer within 2 s of the {how:?}"));
        }
        if let Some(k) = kept {
            if !reader {
                drain(&k, &log, 20_000).await?;
            }
        }
        no_panics()
    })
}

#[derive(Clone, Debug)]
enum Op {
    Send(u8, usize),
    Flush,
    Recv(u64),
    Close,
}

fn c15_races(s: &mut Src) -> Case {
    let seed = s.below(1 << 32);
    let yields = s.pick(&[0, 32, 100]);
    let latency = s.pick(&[1u64, 0, 5, 40]);
    let lossy = s.pick(&[0u64, 0, 0, 100, 300]);
    let mut ops = || -> Vec<Vec<(u64, Op)>> {
        s.list(1, 3, 5, |s, _| {
            s.list(1, 4, 10, |s, _| {
                let wait = s.pick(&[0u64, 0, 1, 5, 50, 60, 300]);
                let op = match s.weighted(&[5, 2, 3, 1]) {
                    0 => {
                        let c = s.pick(&[3u8, 3, 2, 0, 4]);
                        Op::Send(c, if c == 3 { s.pick(&[20usize, 20, 1341, 20_000]) } else { s.usize(TAG, 1000) })
                    }
                    1 => Op::Flush,
                    2 => Op::Recv(s.pick(&[100_000u64, 0, 10, 100])),
                    _ => Op::Close,
                };
                (wait, op)
            })
        })
    };
    let plan = [ops(), ops()];
    let final_close = s.int(0, 1200);
    let who = s.usize(0, 1);
    s.note(format!("latency {latency}, loss {lossy} per mille; the {} closes at {final_close} ms at the latest", side(who)));
    for d in 0..2 {
        for (i, t) in plan[d].iter().enumerate() {
            s.note(format!("{} task {i}: {t:?}", side(d)));
        }
    }
    // (end, task, op, begin, end, result)
    type Calls = Arc<Mutex<Vec<(usize, usize, &'static str, u64, u64, Result<(), String>)>>>;
    let calls: Calls = Default::default();
    let view = calls.clone();
    let r = sim::run(seed, yields, 300_000, move |w| async move {
        let mut l = listener(&w).await?;
        let c = conn(&w, &mut l, 10).await?;
        sim::sleep(300).await;
        let mut rng = Rng::new(seed ^ 5);
        w.policy(Some(Box::new(move |d: &sim::Dgram| if rng.next() % 1000 < lossy { vec![] } else { vec![(latency, d.data.clone())] })));
        let start = now();
        let first_close = Arc::new(Mutex::new([u64::MAX; 2]));
        let mut hs = vec![];
        for d in 0..2 {
            let mut tasks = plan[d].clone();
            if d == who {
                tasks.push(vec![(final_close, Op::Close)]);
            }
            for (i, t) in tasks.into_iter().enumerate() {
                let (k, calls, fc) = (c.ends[d].clone(), calls.clone(), first_close.clone());
                hs.push(tokio::spawn(async move {
                    for (j, (wait, op)) in t.into_iter().enumerate() {
                        sim::sleep(wait).await;
                        let b = now();
                        let at = {
                            let mut c = calls.lock().unwrap();
                            c.push((d, i, "", b, u64::MAX, Ok(())));
                            c.len() - 1
                        };
                        // was a close of this end complete before this call began?
                        let was_closed = fc.lock().unwrap()[d] != u64::MAX;
                        let (name, r): (&'static str, Result<(), String>) = match op {
                            Op::Send(c, n) => ("send", k.send(&payload(0, d, i, j, c, n), rel(c)).await.map_err(|e| es(&e))),
                            Op::Flush => ("flush", k.flush().await.map_err(|e| es(&e))),
                            Op::Recv(ms) => match within(ms, k.recv()).await {
                                None => ("recv timeout", Ok(())),
                                Some(r) => ("recv", r.map(|_| ()).map_err(|e| es(&e))),
                            },
                            Op::Close => {
                                let r = k.close().await.map_err(|e| es(&e));
                                let mut fc = fc.lock().unwrap();
                                fc[d] = fc[d].min(now());
                                ("close", r)
                            }
                        };
                        let r = if was_closed && r.is_ok() && (name == "send" || name == "flush") { Err("returned Ok after close had returned".into()) } else { r };
                        let mut c = calls.lock().unwrap();
                        c[at].2 = name;
                        c[at].4 = now();
                        c[at].5 = r;
                    }
                }));
            }
        }
        let limit = start + 30_000 + if lossy > 0 { 60_000 } else { 0 };
        for h in hs {
            match within(limit.saturating_sub(now()), h).await {
                None => {
                    let c = calls.lock().unwrap();
                    let p: Vec<_> = c.iter().filter(|c| c.4 == u64::MAX).map(|c| format!("{} task {} call begun at {} ms", side(c.0), c.1, c.3)).collect();
                    return Err(format!("still pending at {} ms, the connection was closed by {} ms: {}", now(), start + final_close + latency, p.join(", ")));
                }
                Some(Err(e)) => return Err(format!("a task panicked: {e}")),
                Some(Ok(())) => {}
            }
        }
        for (d, i, name, b, e, r) in calls.lock().unwrap().iter() {
            let bad = match (*name, r) {
                (_, Ok(())) => None,
                ("recv", Err(_)) => None,
                (_, Err(e)) if e == "ConnectionClosed" && *name != "close" => None,
                (n, Err(e)) => Some(format!("{n}: {e}")),
            };
            if let Some(x) = bad {
                return Err(format!("{} task {i}, call from {b} to {e} ms: {x}", side(*d)));
            }
            if r.is_err() && *e < first_close.lock().unwrap().iter().min().unwrap().min(&(start + final_close)) .saturating_sub(5) {
                return Err(format!("{} task {i}: {name} failed at {e} ms, before anything closed the connection: {r:?}", side(*d)));
            }
        }
        no_panics()
    });
    let v = view.lock().unwrap();
    let first = v.iter().filter(|c| c.2 == "close").map(|c| c.3).min().unwrap_or(u64::MAX);
    s.nontrivial(v.iter().filter(|c| c.2 != "close" && c.3 <= first && c.4 >= first).count() >= 2);
    r
}

// ------------------------------------------------------------------ C16

fn c16_silence(s: &mut Src) -> Case {
    let role = role(s);
    let seed = s.below(1 << 32);
    let yields = s.pick(&[0, 0, 64]);
    let latency = s.pick(&[1u64, 0, 20]);
    let acts = gen_acts(s, &Traffic { classes: vec![3, 2, 0, 4], tiny: None, mtu: 1400, max_big: 4000, avg: 3, max: 10, flushes: false });
    let pings: Vec<u64> = s.list(0, 2, 6, |s, _| s.pick(&[10u64, 500, 5000, 30_000, 59_000]));
    let last = s.below(5);
    let acks = s.chance(1, 2);
    let sending = s.chance(1, 3);
    let reader = s.chance(1, 2);
    s.note(format!(
        "library is the {role:?}, latency {latency}; it sends {}; pings of the peer after {pings:?} ms; the last datagram is {}; the peer acknowledges until then {acks}; the application sends all the time {sending}; pending recv {reader}",
        describe_acts(&acts),
        ["a ping", "a message", "an acknowledgement", "a negative acknowledgement", "several messages"][last as usize]
    ));
    s.nontrivial(true);
    s.label_if(sending, "sending to a silent peer");
    sim::run(seed, yields, 900_000, move |w| async move {
        w.latency(latency);
        let (lib, mut p) = scripted(&w, role, 10, 1400).await?;
        p.auto_ack = acks;
        let log: Log = Default::default();
        log.lock().unwrap().pending = 1;
        tokio::spawn(perform(lib.sock.clone(), log.clone(), 0, 0, 0, acts));
        for d in &pings {
            p.drain(*d).await;
            p.send_msg(0, wire::connected_ping(5));
        }
        p.drain(200).await;
        match last {
            0 => {
                p.send_msg(0, wire::connected_ping(5));
            }
            1 => {
                p.send_msg(3, payload(0, 1, 0, 0, 3, 30));
            }
            2 => p.send(&wire::ack(&[(0, 0)])),
            3 => p.send(&wire::nack(&[(1, 1)])),
            _ => {
                for i in 0..5 {
                    p.send_msg(2, payload(0, 1, 0, i, 2, 30));
                }
            }
        }
        // the moment of its arrival
        let t = now() + latency;
        let rlog: Log = Default::default();
        let rd = reader.then(|| collect(lib.sock.clone(), rlog.clone()));
        let flushed: Arc<Mutex<Option<(u64, Result<(), RaknetError>)>>> = Default::default();
        let msg = payload(0, 0, 9, 0, 3, 30);
        lib.sock.send(&msg, rel(3)).await.map_err(|e| format!("send: {e:?}"))?;
        {
            let (k, f) = (lib.sock.clone(), flushed.clone());
            tokio::spawn(async move {
                let r = k.flush().await;
                *f.lock().unwrap() = Some((now(), r));
            });
        }
        if sending {
            let k = lib.sock.clone();
            tokio::spawn(async move {
                for i in 0..10_000 {
                    if k.send(&payload(0, 0, 8, i, 0, 30), rel(0)).await.is_err() {
                        break;
                    }
                    sim::sleep(700).await;
                }
            });
        }
        sim::sleep(t + 59_500 - now()).await;
        if let Some(x) = flushed.lock().unwrap().as_ref() {
            return Err(format!("flush returned {x:?} though the last datagram of the peer arrived at {t} ms and nothing was acknowledged since"));
        }
        if let Some(x) = &rlog.lock().unwrap().recv_err {
            return Err(format!("recv failed with {x:?}, less than 60 s after the last datagram of the peer at {t} ms"));
        }
        match within(1000, lib.sock.send(&payload(0, 0, 9, 1, 0, 30), rel(0))).await {
            Some(Ok(())) => {}
            x => return Err(format!("send 59.5 s after the last datagram of the peer at {t} ms: {x:?}")),
        }
        sim::sleep(t + 65_000 - now()).await;
        no_panics()?;
        match flushed.lock().unwrap().as_ref() {
            Some((_, Err(RaknetError::ConnectionClosed))) => {}
            x => return Err(format!("65 s after the last datagram of the peer the pending flush is {x:?}")),
        }
        match within(1000, lib.sock.send(&payload(0, 0, 9, 2, 3, 30), rel(3))).await {
            Some(Err(RaknetError::ConnectionClosed)) => {}
            x => return Err(format!("send 65 s after the last datagram of the peer: {x:?}")),
        }
        match within(1000, lib.sock.flush()).await {
            Some(Err(RaknetError::ConnectionClosed)) => {}
            x => return Err(format!("flush 65 s after the last datagram of the peer: {x:?}")),
        }
        sim::sleep(t + 76_000 - now()).await;
        match rd {
            Some(r) => {
                if !r.is_finished() {
                    return Err("the pending recv was still waiting 76 s after the last datagram of the peer".into());
                }
            }
            None => {
                drain(&lib.sock, &rlog, 1000).await?;
            }
        }
        no_panics()
    })
}

#[derive(Clone, Copy, Debug)]
enum Beat {
    Ping,
    Message,
    Ack,
    Nack,
    OldAck,
    Duplicate,
    Fragment,
    /// that many datagrams at once
    Burst(usize),
}

fn c16_alive(s: &mut Src) -> Case {
    let role = role(s);
    let seed = s.below(1 << 32);
    let yields = s.pick(&[0, 0, 64]);
    let latency = s.pick(&[1u64, 0, 20]);
    let only = s.chance(1, 2);
    let kinds = [Beat::Ping, Beat::Message, Beat::Ack, Beat::Nack, Beat::OldAck, Beat::Duplicate, Beat::Fragment, Beat::Burst(0)];
    let one = s.pick(&kinds);
    let beats: Vec<(u64, Beat)> = s.list(2, 5, 12, |s, _| {
        let gap = match s.weighted(&[3, 2, 2]) {
            0 => s.pick(&[59_800u64, 59_000, 50_000]),
            1 => s.int(30_000, 59_900),
            _ => s.int(1, 30_000),
        };
        let b = if only { one } else { s.pick(&kinds) };
        (gap, if let Beat::Burst(_) = b { Beat::Burst(s.pick(&[11usize, 30, 101, 129, 300, 600])) } else { b })
    });
    let send_each = s.chance(1, 2);
    // datagrams of the handshake, or pings, that arrive again: how far into the pause, and which
    let strays: Vec<(u64, u64, u64)> = if s.chance(1, 3) { s.list(1, 3, 8, |s, _| (s.below(beats.len() as u64), s.below(1000), s.below(5))) } else { vec![] };
    s.label_if(!strays.is_empty(), "offline datagrams again");
    s.note(format!("library is the {role:?}, latency {latency}; (pause, datagram of the peer): {beats:?}; offline datagrams that arrive again (in which pause, how far into it in thousandths, which): {strays:?}; the library sends a message before each: {send_each}"));
    s.nontrivial(beats.iter().any(|b| b.0 > 30_000));
    sim::run(seed, yields, 3_000_000, move |w| async move {
        w.latency(latency);
        let (lib, mut p) = scripted(&w, role, 10, 1400).await?;
        let first = p.got.len();
        let log: Log = Default::default();
        collect(lib.sock.clone(), log.clone());
        // the moments at which datagrams arrive are at most a pause apart
        p.auto_ack = false;
        p.send_msg(0, wire::connected_ping(1));
        let mut sent: Vec<Vec<u8>> = vec![];
        let mut mine: Vec<Vec<u8>> = vec![];
        let mut received: Vec<u32> = vec![];
        let mut dup: Option<Vec<u8>> = None;
        let mut frag = None;
        for (i, (gap, b)) in beats.iter().enumerate() {
            if send_each && mine.len() < 3 {
                let m = payload(0, 0, 0, i, 3, 40);
                within(1000, lib.sock.send(&m, rel(3))).await.ok_or("send did not return")?.map_err(|e| format!("send at {} ms failed with {e:?} though the peer was never silent for a minute", now()))?;
                mine.push(m);
            }
            for (_, part, which) in strays.iter().filter(|x| x.0 == i as u64) {
                let (from, to) = (p.sock.addr, p.remote);
                let d = match (role, *which) {
                    (_, 0) => Packet::Ping { id: 1, time: 5, guid: 6 },
                    (Role::Listener, 1) => Packet::Req1 { version: 10, pad: 1354 },
                    (Role::Listener, 2) => Packet::Req1 { version: 11, pad: 1354 },
                    (Role::Listener, 3) => Packet::Req2 { addr: to, mtu: 1400, guid: p.guid },
                    (Role::Listener, _) => Packet::Req2 { addr: to, mtu: 576, guid: p.guid ^ 1 },
                    (Role::Client, 1) => Packet::Reply1 { guid: p.guid, security: 0, mtu: 1400 },
                    (Role::Client, 2) => Packet::Reply2 { guid: p.guid, addr: to, mtu: 1400, security: 0 },
                    (Role::Client, 3) => Packet::AlreadyConnected { guid: p.guid },
                    (Role::Client, _) => Packet::Pong { time: 5, guid: p.guid, motd: b"MCPE;x".to_vec() },
                };
                w.inject(gap * part / 1000, from, to, &d.encode());
            }
            let until = now() + gap;
            while now() < until {
                if let Some(r) = p.next(until - now()).await {
                    if let Ok(Packet::Frames { seq, .. }) = r.pkt {
                        received.push(seq);
                    }
                }
            }
            if let Some((t, e)) = &log.lock().unwrap().recv_err {
                return Err(format!("recv failed at {t} ms with {e} though the peer was never silent for a minute"));
            }
            match b {
                Beat::Ping => {
                    p.send_msg(0, wire::connected_ping(1));
                }
                Beat::Message => {
                    let m = payload(0, 1, 0, i, 3, 30);
                    let f = p.frame(3, m.clone());
                    let (_, d) = p.datagram(&[f]);
                    p.send(&d);
                    dup = Some(d);
                    sent.push(m);
                }
                Beat::Ack => match received.pop() {
                    Some(q) => p.send(&wire::ack(&[(q, q)])),
                    None => p.send(&wire::ack(&[(0, 0)])),
                },
                Beat::OldAck => p.send(&wire::ack(&[(0, 0)])),
                Beat::Nack => p.send(&wire::nack(&[(1, 1)])),
                Beat::Duplicate => match &dup {
                    Some(d) => p.send(d),
                    None => {
                        p.send_msg(0, wire::connected_ping(1));
                    }
                },
                Beat::Burst(n) => {
                    for j in 0..*n {
                        let f = p.frame(0, wire::connected_pong(j as i64, 5));
                        p.send_frames(&[f]);
                    }
                }
                Beat::Fragment => {
                    // one fragment of a large message, to be completed at the end
                    if frag.is_none() {
                        let m = payload(0, 1, 0, 500, 3, 60);
                        let fs = p.fragments(&m, 20);
                        sent.push(m);
                        p.send_frames(&fs[..1]);
                        frag = Some(fs);
                    } else {
                        let fs = frag.clone().unwrap();
                        p.send_frames(&fs[1..2]);
                    }
                }
            }
        }
        sim::sleep(1000).await;
        no_panics()?;
        // both directions still work
        p.auto_ack = true;
        if let Some(fs) = &frag {
            p.send_frames(&fs[1..]);
        }
        let m = payload(0, 1, 0, 600, 3, 30);
        sent.push(m.clone());
        p.send_msg(3, m);
        let m = payload(0, 0, 0, 601, 3, 30);
        within(1000, lib.sock.send(&m, rel(3))).await.ok_or("send did not return")?.map_err(|e| format!("send at {} ms failed with {e:?} though the peer was never silent for a minute", now()))?;
        mine.push(m);
        // retransmission timers may have grown to their bound
        let end = now() + 40_000;
        let mut ping = now();
        while now() < end && p.got[first..].iter().filter(|m| m[0] == 0xfe).count() < mine.len() {
            p.next(1000).await;
            if now() > ping + 5000 {
                ping = now();
                p.send_msg(0, wire::connected_ping(1));
            }
        }
        let got: Vec<&Vec<u8>> = p.got[first..].iter().filter(|m| m[0] == 0xfe).collect();
        if got != mine.iter().collect::<Vec<_>>() {
            return Err(format!("the library sent {} messages over {} ms, {} arrived", mine.len(), now(), got.len()));
        }
        let l = log.lock().unwrap();
        if let Some((t, e)) = &l.recv_err {
            return Err(format!("recv failed at {t} ms with {e} though the peer was never silent for a minute"));
        }
        let rec: Vec<&Vec<u8>> = l.recvs.iter().map(|r| &r.1).collect();
        if rec.len() != sent.len() {
            return Err(format!("the peer sent {} messages, recv returned {}", sent.len(), rec.len()));
        }
        no_panics()
    })
}

/// A connection that lives for long: nothing but the end of traffic may end it.
fn c16_hours(s: &mut Src) -> Case {
    let seed = s.below(1 << 32);
    let latency = s.pick(&[1u64, 0, 20, 120]);
    let deep = s.thorough;
    let total = match s.weighted(&[6, 3, if deep { 3 } else { 0 }]) {
        0 => s.int(30, 150),
        1 => s.int(150, 400),
        _ => s.int(1500, 6000),
    } * 60_000;
    let gaps: Vec<u64> = s.list(1, 3, 8, |s, _| match s.weighted(&[2, 3, 1]) {
        0 => s.int(45_000, 58_000),
        1 => s.int(5000, 45_000),
        _ => s.int(0, 5000),
    });
    // too many short pauses would only cost time
    let gaps = if gaps.iter().sum::<u64>() < gaps.len() as u64 * 4000 { vec![30_000] } else { gaps };
    let classes = [3u8, 2, 4, 3];
    let who = s.pick(&[0usize, 1, 2]);
    let bursts = s.chance(1, 3);
    let faulty = s.chance(1, 3) && gaps.iter().all(|g| *g < 20_000);
    let loss = if faulty { s.int(1, 15) } else { 0 };
    s.note(format!("for {} minutes, pauses of {gaps:?} ms, then a message of {}{}; latency {latency}, {loss} % lost", total / 60_000, ["the client", "the server", "either in turn"][who], if bursts { ", at times several" } else { "" }));
    s.label_if(loss > 0, "faulty network");
    s.label_if(total > 180 * 60_000, "more than 3 hours");
    s.nontrivial(true);
    sim::run(seed, 0, total + 400_000, move |w| async move {
        let mut l = listener(&w).await?;
        w.latency(latency);
        let (c, k) = pair(&w, &mut l, 2).await?;
        let (c, k) = (Arc::new(c), Arc::new(k));
        w.record(false);
        if loss > 0 {
            let mut r = Rng::new(seed ^ 77);
            w.policy(Some(Box::new(move |d: &sim::Dgram| if r.next() % 100 < loss { vec![] } else { vec![(latency, d.data.clone())] })));
        }
        let ends = [c, k];
        let start = now();
        let (mut i, mut n) = (0usize, 0usize);
        while now() - start < total {
            sim::sleep(gaps[i % gaps.len()]).await;
            let from = if who == 2 { i % 2 } else { who };
            let class = classes[i % classes.len()];
            let count = if bursts && i % 16 == 0 { 40 } else { 1 };
            let mut want = vec![];
            for _ in 0..count {
                let size = if class == 3 && n % 5 == 0 { 4000 } else { 60 };
                let m = payload(0, from, 0, n, class, size);
                n += 1;
                within(20_000, ends[from].send(&m, rel(class))).await.ok_or_else(|| format!("send did not return, {} s into the connection", (now() - start) / 1000))?.map_err(|e| format!("send failed with {e:?} {} s into a connection that was never silent for a minute", (now() - start) / 1000))?;
                want.push(m);
            }
            // a lost sequenced message is overtaken by a newer one
            let newest = want.last().unwrap().clone();
            let mut missing: HashSet<Vec<u8>> = want.into_iter().collect();
            let limit = now() + if loss > 0 { 40_000 } else { 2 * latency + 400 + 120 * (count as u64 - 1).min(1) };
            while !missing.is_empty() {
                let m = match within(limit.saturating_sub(now()).max(1), ends[1 - from].recv()).await {
                    None => return Err(format!("a message of class {class} sent by the {} {} s into the connection did not arrive in {} ms", side(from), (now() - start) / 1000, if loss > 0 { 40_000 } else { 2 * latency + 400 })),
                    Some(Err(e)) => return Err(format!("recv of the {} failed with {e:?} {} s into a connection that was never silent for a minute", side(1 - from), (now() - start) / 1000)),
                    Some(Ok(m)) => m,
                };
                if !missing.remove(&m) {
                    return Err(format!("recv returned something else than what was sent, or it twice, {} s into the connection: {} bytes", (now() - start) / 1000, m.len()));
                }
                if class == 4 && m == newest {
                    missing.clear();
                }
            }
            i += 1;
            no_panics()?;
        }
        if !w.bound(server_addr()) {
            return Err("the listener is gone".into());
        }
        Ok(())
    })
}

// ------------------------------------------------------------------ C17

#[derive(Clone, Copy, Debug, PartialEq)]
enum St {
    /// connected by the library, accepted, idle
    Idle,
    /// both ends send until the close
    Busy,
    /// the client sent messages nobody reads
    Unread,
    NotAccepted,
    /// accepted, then dropped a generated time before
    Dropped(u64),
    Closed(u64),
    /// the client vanished
    Dead,
    /// the client does not acknowledge
    Mute,
    /// a scripted client stopped in the middle of its handshake
    Req1,
    Req2,
    Request,
    /// a library client connects while the listener closes
    Connecting,
    /// the client closed a generated time before
    ClientClosed(u64),
}

fn c17(s: &mut Src) -> Case {
    let seed = s.below(1 << 32);
    let yields = s.pick(&[0, 0, 64, 150]);
    let latency = s.pick(&[1u64, 0, 20]);
    let listened = !s.chance(1, 15);
    let many = s.chance(1, 20);
    let crowd = many && s.chance(1, if s.thorough { 5 } else { 20 });
    let states: Vec<St> = if !listened {
        vec![]
    } else {
        s.list(if crowd { 60 } else { 0 }, if crowd { 140 } else if many { 20 } else { 3 }, if crowd { 230 } else if many { 40 } else { 8 }, |s, _| {
            match s.weighted(&[2, 4, 2, 2, 2, 2, 1, 2, 1, 2, 2, 2, 2]) {
                0 => St::Idle,
                1 => St::Busy,
                2 => St::Unread,
                3 => St::NotAccepted,
                4 => St::Dropped(s.pick(&[0u64, 1, 30, 49, 50, 51, 60, 500])),
                5 => St::Closed(s.pick(&[0u64, 1, 30, 49, 50, 51, 60, 500])),
                6 => St::Dead,
                7 => St::Mute,
                8 => St::Req1,
                9 => St::Req2,
                10 => St::Request,
                11 => St::Connecting,
                _ => St::ClientClosed(s.pick(&[0u64, 1, 30, 49, 50, 51, 60, 500])),
            }
        })
    };
    let dropped = listened && s.chance(1, 5);
    let blackout = s.chance(1, 8);
    let pre = s.pick(&[0u64, 10, 49, 51, 100]);
    let relisten = s.chance(1, 2);
    let flood = s.chance(1, 4);
    // every client has a burst arrive at the very instant
    let surge: Option<(u64, u64, u64)> = if s.chance(1, 3) { Some((s.pick(&[8u64, 9, 10, 11, 12, 20, 40]), s.pick(&[0u64, 1, 1, 2]), s.int(0, 12))) } else { None };
    s.label_if(surge.is_some(), "burst at the end");
    s.note(format!(
        "latency {latency}, listened {listened}, connections {states:?}; after {pre} ms the listener is {}{}{}",
        if dropped { "dropped" } else { "closed" },
        if blackout { ", the network loses everything from then on" } else { "" },
        if flood { ", datagrams keep arriving" } else { "" }
    ));
    if let Some((n, ms, turns)) = surge {
        s.note(format!("{n} datagrams from every client arrive {ms} ms before the end, which comes {turns} turns of the scheduler later"));
    }
    s.nontrivial(states.iter().any(|x| *x != St::Idle));
    for (l, st) in [("busy", St::Busy), ("unread", St::Unread), ("not accepted", St::NotAccepted), ("dead", St::Dead), ("half open", St::Req2), ("connecting", St::Connecting)] {
        s.label_if(states.contains(&st), l);
    }
    s.label_if(dropped, "dropped");
    s.label_if(!listened, "never listened");
    sim::run(seed, yields, 400_000, move |w| async move {
        let mut l = w.on(host(1), RaknetListener::bind(&server_addr())).await.map_err(|e| format!("bind: {e:?}"))?;
        if listened {
            l.listen().await;
        }
        w.latency(latency);
        // accepted ends, library clients
        let mut accepted: Vec<(St, Arc<RaknetSocket>)> = vec![];
        let mut clients: Vec<(St, Arc<RaknetSocket>)> = vec![];
        let mut raws: Vec<(St, Peer)> = vec![];
        let connecting: Arc<Mutex<Vec<(u64, Result<RaknetSocket, String>)>>> = Default::default();
        let mut n_connecting = 0;
        let stop = Arc::new(AtomicBool::new(false));
        let dead: Arc<Mutex<HashSet<SocketAddr>>> = Default::default();
        let mute: Arc<Mutex<HashSet<SocketAddr>>> = Default::default();
        let dark = Arc::new(AtomicBool::new(false));
        {
            let (dead, mute, dark) = (dead.clone(), mute.clone(), dark.clone());
            w.policy(Some(Box::new(move |d: &sim::Dgram| {
                let gone = dark.load(Ordering::Relaxed) || dead.lock().unwrap().contains(&d.src) || dead.lock().unwrap().contains(&d.dst);
                let ack = matches!(d.data.first(), Some(0xc0 | 0xa0)) && mute.lock().unwrap().contains(&d.src);
                if gone || ack {
                    vec![]
                } else {
                    vec![(latency, d.data.clone())]
                }
            })));
        }
        let mut pauses = vec![];
        let mut addrs = vec![];
        // handshakes that must not be accepted by the pairs below
        let mut order: Vec<(usize, St)> = states.iter().copied().enumerate().collect();
        order.sort_by_key(|x| matches!(x.1, St::NotAccepted | St::Req1 | St::Req2 | St::Request | St::Connecting));
        for (i, st) in &order {
            let h = 10 + *i as u8;
            match st {
                St::Req1 | St::Req2 | St::Request => {
                    let mut p = Peer::new(&w, SocketAddr::new(host(h), 5000), server_addr());
                    if *st == St::Req1 {
                        p.send_pkt(&Packet::Req1 { version: 10, pad: 1354 });
                        p.next(1000).await;
                    } else {
                        p.offline(10, 1400).await?;
                        if *st == St::Request {
                            p.send_msg(3, wire::connection_request(3, 4));
                        }
                    }
                    raws.push((*st, p));
                }
                St::NotAccepted => {
                    let c = within(10_000, w.on(host(h), RaknetSocket::connect(&server_addr()))).await.ok_or("connect did not return within 10 s")?.map_err(|e| format!("connect: {e:?}"))?;
                    clients.push((*st, Arc::new(c)));
                }
                St::Connecting => {
                    n_connecting += 1;
                    let (w2, out, wait) = (w.clone(), connecting.clone(), (*i as u64 * 7) % 60);
                    tokio::spawn(async move {
                        sim::sleep(pre.saturating_sub(wait / 4)).await;
                        // a listener that is gone never answers
                        let r = within(15_000, w2.on(host(h), RaknetSocket::connect(&server_addr()))).await;
                        let r = match r {
                            None => Err("no answer".to_string()),
                            Some(Err(e)) => Err(es(&e)),
                            Some(Ok(k)) => Ok(k),
                        };
                        out.lock().unwrap().push((now(), r));
                    });
                }
                _ => {
                    let (c, k) = pair(&w, &mut l, h).await?;
                    let caddr = k.peer_addr().unwrap();
                    addrs.push(caddr);
                    let (c, k) = (Arc::new(c), Arc::new(k));
                    match st {
                        St::Busy => {
                            for (d, e) in [(0usize, c.clone()), (1, k.clone())] {
                                let stop = stop.clone();
                                let i = *i;
                                tokio::spawn(async move {
                                    let mut n = 0;
                                    while !stop.load(Ordering::Relaxed) {
                                        let class = [3u8, 2, 0, 3][n % 4];
                                        if e.send(&payload(i, d, 0, n, class, if class == 3 { 3000 } else { 300 }), rel(class)).await.is_err() {
                                            break;
                                        }
                                        n += 1;
                                        if n % 3 == 0 {
                                            sim::sleep(7).await;
                                        }
                                    }
                                });
                            }
                        }
                        St::Unread => {
                            for n in 0..40 {
                                c.send(&payload(*i, 0, 0, n, 3, 2000), rel(3)).await.map_err(|e| format!("send: {e:?}"))?;
                            }
                        }
                        St::Mute => {
                            mute.lock().unwrap().insert(caddr);
                            for n in 0..5 {
                                k.send(&payload(*i, 1, 0, n, 3, 2000), rel(3)).await.map_err(|e| format!("send: {e:?}"))?;
                            }
                        }
                        St::Dead => {
                            dead.lock().unwrap().insert(caddr);
                            for n in 0..5 {
                                k.send(&payload(*i, 1, 0, n, 3, 2000), rel(3)).await.map_err(|e| format!("send: {e:?}"))?;
                            }
                        }
                        _ => {}
                    }
                    match st {
                        St::Dropped(ms) => {
                            clients.push((*st, c));
                            pauses.push((*ms, *st, k));
                        }
                        St::Closed(ms) => {
                            clients.push((*st, c));
                            pauses.push((*ms, *st, k));
                        }
                        St::ClientClosed(ms) => {
                            accepted.push((*st, k));
                            pauses.push((*ms, *st, c));
                        }
                        _ => {
                            clients.push((*st, c));
                            accepted.push((*st, k));
                        }
                    }
                }
            }
        }
        // ends that end by themselves, a generated time before the close
        pauses.sort_by_key(|p| std::cmp::Reverse(p.0));
        let mut left = pauses.first().map(|p| p.0).unwrap_or(0);
        let mut kept = vec![];
        for (ms, st, k) in pauses {
            sim::sleep(left - ms).await;
            left = ms;
            if matches!(st, St::Dropped(_)) {
                drop(k);
            } else {
                match within(1000, k.close()).await {
                    Some(Ok(())) => {}
                    x => return Err(format!("close of a connection: {x:?}")),
                }
                kept.push(k);
            }
        }
        sim::sleep(left + pre).await;
        if flood {
            for i in 0..300u64 {
                w.inject(i / 5, SocketAddr::new(host(90), 1 + (i % 50) as u16), server_addr(), &Packet::Req2 { addr: server_addr(), mtu: 1400, guid: i }.encode());
                w.inject(i / 5, SocketAddr::new(host(10), 40_001), server_addr(), &wire::frames(5000 + i as u32, &[Frame { class: 0, body: vec![0xfe, 1], ..Default::default() }]));
            }
        }
        if let Some((n, ms, k)) = surge {
            for a in &addrs {
                for i in 0..n {
                    w.inject(1, *a, server_addr(), &wire::frames(70_000 + i as u32, &[Frame { class: 0, body: vec![0xfe, 1], ..Default::default() }]));
                }
            }
            sim::sleep(1 + ms).await;
            turns(k).await;
        }
        dark.store(blackout, Ordering::Relaxed);
        let t0 = now();
        let mut l = Some(l);
        if dropped {
            l.take();
            sim::sleep(5000).await;
            if w.bound(server_addr()) {
                return Err("the address is still bound 5 s after the listener was dropped".into());
            }
        } else {
            match within(30_000, l.as_mut().unwrap().close()).await {
                None => return Err(format!("RaknetListener::close called at {t0} ms did not return within 30 s")),
                Some(Err(e)) => return Err(format!("RaknetListener::close: {e:?}")),
                Some(Ok(())) => {}
            }
        }
        no_panics()?;
        // accepted sockets are closed at once
        for (st, k) in &accepted {
            match within(1000, k.send(&payload(1, 1, 9, 0, 3, 20), rel(3))).await {
                Some(Err(RaknetError::ConnectionClosed)) => {}
                x => return Err(format!("send on an accepted socket ({st:?}) of the closed listener: {x:?}")),
            }
            match within(1000, k.flush()).await {
                Some(Err(RaknetError::ConnectionClosed)) => {}
                x => return Err(format!("flush on an accepted socket ({st:?}) of the closed listener: {x:?}")),
            }
        }
        if let Some(l) = l.as_mut() {
            for _ in 0..2 {
                match within(1000, l.accept()).await {
                    Some(Err(RaknetError::NotListen)) => {}
                    x => return Err(format!("accept on the closed listener: {:?}", x.map(|r| r.map(|_| "a socket")))),
                }
                match within(1000, l.close()).await {
                    Some(Ok(())) => {}
                    x => return Err(format!("second close: {x:?}")),
                }
                let _ = l.local_addr();
                let _ = within(1000, l.get_motd()).await.ok_or("get_motd did not return")?;
                let _ = l.set_full_motd("x".into());
                within(1000, l.set_motd("a", 1, "b", "c", "d", 5)).await.ok_or("set_motd did not return")?;
                let _ = within(1000, l.get_peer_raknet_version(&server_addr())).await.ok_or("get_peer_raknet_version did not return")?;
                if relisten {
                    within(1000, l.listen()).await.ok_or("listen on the closed listener did not return")?;
                }
            }
            no_panics()?;
        }
        // the address is free, and a new listener works there
        if !dropped {
            dark.store(false, Ordering::Relaxed);
            if !blackout {
                let mut l2 = w.on(host(1), RaknetListener::bind(&server_addr())).await.map_err(|e| format!("bind to the address of the closed listener at {} ms: {e:?}", now()))?;
                l2.listen().await;
                let a = within(20_000, w.on(host(3), RaknetSocket::connect(&server_addr()))).await.ok_or("after a new bind: connect did not return within 20 s")?.map_err(|e| format!("after a new bind: connect: {e:?}"))?;
                let me = SocketAddr::new(host(3), a.local_addr().unwrap().port());
                // others may have connected, too
                let b = loop {
                    let b = within(5000, l2.accept()).await.ok_or("after a new bind: accept did not return the connection")?.map_err(|e| format!("after a new bind: accept: {e:?}"))?;
                    if b.peer_addr().unwrap() == me {
                        break b;
                    }
                };
                let m = payload(7, 0, 0, 0, 3, 2000);
                a.send(&m, rel(3)).await.map_err(|e| format!("send over the new listener: {e:?}"))?;
                match within(2000, b.recv()).await {
                    Some(Ok(x)) if x == m => {}
                    x => return Err(format!("recv over the new listener: {:?}", x.map(|r| r.map(|m| m.len())))),
                }
                kept.push(Arc::new(a));
                kept.push(Arc::new(b));
                drop(l2);
            } else if w.bound(server_addr()) {
                return Err("the address is still bound after close".into());
            }
        }
        // every client hears of it
        stop.store(true, Ordering::Relaxed);
        if !blackout {
            sim::sleep((t0 + 5000).saturating_sub(now())).await;
            for (st, c) in clients.iter().filter(|c| c.0 != St::Dead) {
                match within(1000, c.send(&payload(1, 0, 9, 1, 0, 20), rel(0))).await {
                    Some(Err(RaknetError::ConnectionClosed)) => {}
                    x => return Err(format!("send on a client ({st:?}) {} ms after its listener ended: {x:?}", now() - t0)),
                }
            }
        }
        let log: Log = Default::default();
        let gone = if blackout { 80_000 } else { 15_000 };
        let (st0, clients) = (now(), clients);
        for (st, k) in accepted.iter().chain(clients.iter().filter(|c| c.0 != St::Dead)) {
            drain(k, &log, (st0 + gone).saturating_sub(now()).max(1)).await.map_err(|e| format!("{st:?} after the end of the listener: {e}"))?;
        }
        // scripted clients were told as well, once they had a session
        if !blackout {
            for (st, p) in raws.iter_mut().filter(|p| p.0 != St::Req1) {
                let seen = p.drain(1).await;
                if !seen.iter().any(|r| r.raw.first() == Some(&0x15)) {
                    return Err(format!("a client in the middle of its handshake ({st:?}) was not told that the listener ended"));
                }
            }
        }
        if n_connecting > 0 {
            sim::sleep((t0 + 40_000 + pre).saturating_sub(now())).await;
            let c = std::mem::take(&mut *connecting.lock().unwrap());
            if c.len() != n_connecting {
                return Err("a connect concurrent with the end of the listener never returned".into());
            }
            // those that did get a connection (over either listener) must have lost it
            for (_, r) in c {
                if let Ok(k) = r {
                    if blackout {
                        sim::sleep((t0 + 70_000).saturating_sub(now())).await;
                    }
                    drain(&k, &log, 15_000).await.map_err(|e| format!("a client that connected while the listener ended: {e}"))?;
                }
            }
        }
        no_panics()
    })
}

fn c17_instant(s: &mut Src) -> Case {
    let seed = s.below(1 << 32);
    let yields = s.pick(&[0, 0, 64]);
    let rounds: Vec<(bool, u64, u64, bool, u64, u64)> = s.list(1, 2, 5, |s, _| {
        let turns = |s: &mut Src| if s.chance(1, 2) { 0 } else { s.int(1, 6) };
        (s.chance(2, 3), turns(s), turns(s), s.chance(2, 3), s.pick(&[0, 0, 0, 1, 10, 60]), s.below(3))
    });
    s.note(format!("yields {yields}/256; rounds (listen?, turns before, turns after, dropped?, ms before the end, clients that have begun): {rounds:?}"));
    s.nontrivial(rounds.iter().any(|r| r.4 == 0));
    s.label_if(rounds.iter().any(|r| r.3 && r.1 + r.2 + r.4 == 0), "dropped at once");
    sim::run(seed, yields, 400_000, move |w| async move {
        for (i, (listened, before, after, dropped, ms, clients)) in rounds.into_iter().enumerate() {
            let mut l = w.on(host(1), RaknetListener::bind(&server_addr())).await.map_err(|e| format!("round {i}: bind: {e:?}"))?;
            for c in 0..clients {
                w.inject(c, SocketAddr::new(host(10 + c as u8), 5000), server_addr(), &Packet::Req1 { version: 10, pad: 1354 }.encode());
                w.inject(c + 1, SocketAddr::new(host(10 + c as u8), 5000), server_addr(), &Packet::Req2 { addr: server_addr(), mtu: 1400, guid: c }.encode());
            }
            turns(before).await;
            if listened {
                l.listen().await;
            }
            turns(after).await;
            if ms > 0 {
                sim::sleep(ms).await;
            }
            if dropped {
                drop(l);
                // whoever dropped it has to wait a little before the address is free
                sim::sleep(5000).await;
            } else {
                match within(30_000, l.close()).await {
                    Some(Ok(())) => {}
                    x => return Err(format!("round {i}: close: {x:?}")),
                }
                match within(1000, l.accept()).await {
                    Some(Err(RaknetError::NotListen)) => {}
                    x => return Err(format!("round {i}: accept on the closed listener: {:?}", x.map(|r| r.map(|_| "a socket")))),
                }
            }
            if w.bound(server_addr()) {
                return Err(format!("round {i}: the address is still bound {}", if dropped { "5 s after the listener was dropped" } else { "after close" }));
            }
            no_panics()?;
        }
        sim::sleep(100).await;
        let mut l = listener(&w).await?;
        let (a, b) = pair(&w, &mut l, 2).await?;
        a.send(&payload(1, 0, 5, 0, 3, 50), rel(3)).await.map_err(|e| format!("send: {e:?}"))?;
        match within(3000, b.recv()).await {
            Some(Ok(m)) if m == payload(1, 0, 5, 0, 3, 50) => {}
            x => return Err(format!("recv: {x:?}")),
        }
        no_panics()
    })
}
