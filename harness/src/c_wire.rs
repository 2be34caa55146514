//! C06-C08: what goes over the wire, observed on the network.
use crate::engine::{no_panics, Case, Check, Rng, Src, Sub};
use crate::monitor;
use crate::peer::Peer;
use crate::scenario::*;
use crate::sim::{self, host, now, server_addr, World};
use crate::wire::{self, Packet};
use rust_raknet::RaknetSocket;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::future::Future;
use std::net::SocketAddr;
use std::pin::Pin;
use std::sync::{Arc, Mutex};

pub const CHECKS: &[Check] = &[
    Check {
        id: "C06",
        subs: &[
            Sub {
                name: "sessions",
                run: c06,
                quick: 30_000,
                thorough: 400_000,
                rule: "every datagram of generated sessions (handshake, all classes, faults, MTU 400 to 1400) decoded strictly; non-trivial if fragments or retransmissions were emitted",
            },
            Sub {
                name: "large",
                run: c06_large,
                quick: 1500,
                thorough: 10_000,
                rule: "every datagram of sessions with a message of up to 1200 fragments (faulty network) or 9000 (perfect network), or with bursts of up to 1500 messages, decoded strictly; non-trivial if more than 256 fragments were emitted",
            },
            Sub {
                name: "gaps",
                run: c06_gaps,
                quick: 6_000,
                thorough: 100_000,
                rule: "a scripted peer skips, repeats and reorders hundreds of datagram numbers, so that acknowledgements and negative acknowledgements are long; non-trivial if more than 50 separate gaps were left",
            },
        ],
    },
    Check {
        id: "C07",
        subs: &[
            Sub {
                name: "large",
                run: c07_large,
                quick: 800,
                thorough: 10_000,
                rule: "the acknowledgements of sessions with a message of up to 1200 fragments (faulty network) or 9000 (perfect network), or with bursts of up to 1500 messages; non-trivial as in the sessions",
            },
            Sub {
                name: "sessions",
                run: c07,
                quick: 30_000,
                thorough: 400_000,
                rule: "generated sessions over a faulty network, both ends monitored; non-trivial if the network applied a fault and at least one number was reported missing",
            },
            Sub {
                name: "gaps",
                run: c07_gaps,
                quick: 20_000,
                thorough: 300_000,
                rule: "a scripted peer sends datagram numbers with generated gaps, repeats and orders; non-trivial if a number was reported missing",
            },
        ],
    },
    Check {
        id: "C08",
        subs: &[
            Sub {
                name: "large",
                run: c08_large,
                quick: 800,
                thorough: 10_000,
                rule: "the retransmissions of sessions with a message of up to 1200 fragments (faulty network) or 9000 (perfect network), or with bursts of up to 1500 messages; non-trivial as in the sessions",
            },
            Sub {
                name: "sessions",
                run: c08,
                quick: 25_000,
                thorough: 300_000,
                rule: "generated sessions over a faulty network, both ends monitored; non-trivial if at least one frame was retransmitted",
            },
            Sub {
                name: "acks",
                run: c08_acks,
                quick: 25_000,
                thorough: 300_000,
                rule: "a scripted peer acknowledges, delays, batches, ignores or negatively acknowledges each datagram as generated; non-trivial if at least one frame was retransmitted and one acknowledged",
            },
            Sub {
                name: "bursts",
                run: c08_bursts,
                quick: 5000,
                thorough: 60_000,
                rule: "the same with runs of up to 2600 messages sent without a pause, acknowledged in single numbers or wide ranges; non-trivial if more than 128 frames were outstanding at once, one was retransmitted and one acknowledged",
            },
        ],
    },
];

type Fin = Box<dyn FnOnce(&Session, &[sim::Ev], u64) -> Case>;

/// A session, recorded from its first datagram.
fn recorded(s: &mut Src, plan: Plan, linger: u64, fin: Fin) -> Case {
    s.note(plan.describe());
    let limit = 200_000 + plan.faults.until;
    sim::run(plan.seed, plan.yields, limit, move |w| -> Pin<Box<dyn Future<Output = Case>>> {
        Box::pin(async move {
            w.record(true);
            let ses = establish(&w, &plan).await?;
            ses.start_traffic(&plan);
            ses.settle(&[2, 3], ses.start + plan.faults.until + 50_000, linger).await;
            let t = now();
            fin(&ses, &w.take_events(), t)?;
            no_panics()
        })
    })
}

fn mtus(s: &mut Src) -> u16 {
    match s.weighted(&[3, 2, 3]) {
        0 => 1400,
        1 => s.pick(&[400, 401, 576, 1200, 1399]),
        _ => s.int(400, 1400) as u16,
    }
}

fn all_classes(s: &mut Src, avg: usize) -> Traffic {
    let mtu = mtus(s);
    Traffic { classes: vec![3, 3, 0, 1, 2, 4], tiny: None, mtu, max_big: 9000, avg, max: 40, flushes: true }
}

fn c06(s: &mut Src) -> Case {
    let t = all_classes(s, 7);
    let mtu = t.mtu;
    let plan = Plan::gen(s, &t, 2, 2, true);
    emitted(s, plan, mtu, 0)
}

fn c06_large(s: &mut Src) -> Case {
    let (plan, mtu) = large(s);
    emitted(s, plan, mtu, 256)
}

fn large(s: &mut Src) -> (Plan, u16) {
    let mode = s.weighted(&[6, 3, 1]);
    let mut t = all_classes(s, 4);
    t.max = 10;
    let mtu = t.mtu;
    let plan = if mode == 1 {
        Plan::bursts(s, &[3, 3, 2, 4], mtu, 1500)
    } else {
        let mut plan = Plan::gen(s, &t, 1, 1, mode == 0);
        if mode == 2 {
            plan.latency = 1;
            plan.yields = 0;
        }
        let most = if mode == 0 { s.pick(&[20, 100, 400, 1200]) } else { s.pick(&[5000, 9000]) };
        let n = s.int(most / 2, most) as usize;
        let lim = mtu as usize - 60;
        let size = n * lim - s.pick(&[0, 1, lim - 1, lim / 2]);
        let acts = &mut plan.acts[0][s.below(2) as usize][0];
        let at = s.usize(0, acts.len());
        acts.insert(at, Act::Send { class: 3, size });
        plan
    };
    (plan, mtu)
}

fn emitted(s: &mut Src, plan: Plan, mtu: u16, least: usize) -> Case {
    let seen: Arc<Mutex<usize>> = Default::default();
    let seen2 = seen.clone();
    let r = recorded(
        s,
        plan,
        2000,
        Box::new(move |ses, evs, _| {
            for c in &ses.conns {
                let a = [c.client_addr, server_addr()];
                for d in 0..2 {
                    let em = monitor::well_formed(evs, a[d], a[1 - d], mtu)?;
                    *seen2.lock().unwrap() += em.retransmissions + em.fragments;
                    let log = c.logs[d].lock().unwrap();
                    emitted_matches(&em, &log).map_err(|e| format!("{}: {e}", a[d]))?;
                }
            }
            Ok(())
        }),
    );
    s.nontrivial(*seen.lock().unwrap() > least);
    r
}

/// The messages on the wire are the messages the application sent, each once.
fn emitted_matches(em: &monitor::Emitted, log: &EndLog) -> Case {
    let mut sent: Vec<HashMap<Vec<u8>, usize>> = vec![HashMap::new(); 5];
    for m in &log.sends {
        *sent[m.class as usize].entry(m.data.to_vec()).or_default() += 1;
    }
    let all = em.ordered.values().map(|b| (3u8, b)).chain(em.others.iter().map(|o| (o.0, &o.1)));
    for (class, body) in all {
        match body.first() {
            Some(0xfe) => {
                let e = sent[class as usize].get_mut(body);
                match e {
                    Some(n) if *n > 0 => *n -= 1,
                    _ => return Err(format!("the frames of class {class} carry a message that was not sent, or carry it again: {}", brief(body))),
                }
            }
            Some(0x00 | 0x03 | 0x09 | 0x10 | 0x13 | 0x15) => {}
            _ => return Err(format!("a frame of class {class} carries an unknown message: {}", monitor::hex(body))),
        }
    }
    let order: Vec<&Vec<u8>> = em.ordered.values().filter(|b| b[0] == 0xfe).collect();
    for t in 0..2 {
        let want: Vec<_> = log.sends.iter().filter(|m| m.class == 3 && m.task == t).map(|m| &m.data).collect();
        let got: Vec<_> = order.iter().filter(|b| b[4] as usize == t).collect();
        if let Some(i) = (0..got.len()).find(|i| **got[*i] != **want[*i]) {
            return Err(format!("ordered message {i} of a task on the wire is {} but {} was sent", brief(got[i]), brief(want[i])));
        }
    }
    Ok(())
}

fn c07(s: &mut Src) -> Case {
    let t = all_classes(s, 7);
    let plan = Plan::gen(s, &t, 2, 1, true);
    acknowledged(s, plan)
}

fn c07_large(s: &mut Src) -> Case {
    let plan = large(s).0;
    acknowledged(s, plan)
}

fn acknowledged(s: &mut Src, plan: Plan) -> Case {
    let seen: Arc<Mutex<usize>> = Default::default();
    let seen2 = seen.clone();
    let faulty = !plan.faults.none();
    let r = recorded(
        s,
        plan,
        2500,
        Box::new(move |ses, evs, end| {
            for c in &ses.conns {
                let a = [c.client_addr, server_addr()];
                for d in 0..2 {
                    let (_, n) = monitor::acknowledgements(evs, a[d], a[1 - d], end)?;
                    *seen2.lock().unwrap() += n;
                }
            }
            Ok(())
        }),
    );
    s.nontrivial(faulty && *seen.lock().unwrap() > 0);
    r
}

fn c08(s: &mut Src) -> Case {
    let t = all_classes(s, 7);
    let plan = Plan::gen(s, &t, 2, 1, true);
    retransmitted(s, plan)
}

fn c08_large(s: &mut Src) -> Case {
    let plan = large(s).0;
    retransmitted(s, plan)
}

fn retransmitted(s: &mut Src, plan: Plan) -> Case {
    let seen: Arc<Mutex<usize>> = Default::default();
    let seen2 = seen.clone();
    let linger = s.pick(&[2500, 2500, 14_000]);
    let r = recorded(
        s,
        plan,
        linger,
        Box::new(move |ses, evs, end| {
            for c in &ses.conns {
                let a = [c.client_addr, server_addr()];
                for d in 0..2 {
                    let x = monitor::retransmission(evs, a[d], a[1 - d], end)?;
                    *seen2.lock().unwrap() += x.resends;
                }
            }
            Ok(())
        }),
    );
    s.nontrivial(*seen.lock().unwrap() > 0);
    r
}

// ------------------------------------------------------------------ one library end, one scripted end

/// Which end is the library's.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Role {
    Listener,
    Client,
}

pub fn role(s: &mut Src) -> Role {
    if s.chance(1, 2) {
        Role::Client
    } else {
        Role::Listener
    }
}

/// The library's end of a connection with a scripted peer.
pub struct Lib {
    pub listener: Option<rust_raknet::RaknetListener>,
    pub sock: Arc<RaknetSocket>,
    pub addr: SocketAddr,
}

/// Connect a library end of the given role with a scripted peer.
pub async fn scripted(w: &World, role: Role, version: u8, mtu: u16) -> Result<(Lib, Peer), String> {
    match role {
        Role::Listener => {
            let mut l = listener(w).await?;
            let mut p = Peer::new(w, SocketAddr::new(host(2), 5000), server_addr());
            p.connect(version, mtu).await?;
            let sock = sim::within(5000, l.accept()).await.ok_or("accept did not return the established connection")?.map_err(|e| format!("accept: {e:?}"))?;
            Ok((Lib { listener: Some(l), sock: Arc::new(sock), addr: server_addr() }, p))
        }
        Role::Client => {
            let mut p = Peer::new(w, server_addr(), SocketAddr::new(host(2), 1));
            let a = server_addr();
            let c = w.on(host(2), async move { RaknetSocket::connect_with_version(&a, version).await });
            let (c, r) = tokio::join!(sim::within(30_000, c), p.serve(mtu));
            r?;
            let sock = c.ok_or("connect did not return within 30 s of a complete handshake")?.map_err(|e| format!("connect: {e:?}"))?;
            let addr = p.remote;
            Ok((Lib { listener: None, sock: Arc::new(sock), addr }, p))
        }
    }
}

/// Numbers of datagrams to send, relative to the first: gaps, repeats and disorder.
fn gap_plan(s: &mut Src, avg: usize, max: usize) -> Vec<(u32, u64)> {
    let mut next = 0u32;
    let mut window: Vec<u32> = vec![];
    let mode = s.weighted(&[3, 2, 1]);
    let burst = s.chance(1, 3);
    s.list(1, avg, max, |s, _| {
        let wait = if burst { s.pick(&[0; 60].into_iter().chain([70]).collect::<Vec<_>>()) } else { s.pick(&[0, 0, 0, 0, 2, 20, 70, 400]) };
        let k = s.weighted(match mode {
            0 => &[5, 2, 2, 1],
            1 => &[1, 6, 1, 0],
            _ => &[3, 3, 3, 1],
        });
        let n = match k {
            0 => next,
            1 => next + s.int(1, if mode == 1 { 2 } else { 5 }) as u32,
            2 if !window.is_empty() => window[s.below(window.len() as u64) as usize],
            3 => next + s.int(5, 2000) as u32,
            _ => next,
        };
        for m in next..n {
            if window.len() < 64 {
                window.push(m);
            }
        }
        if n >= next {
            next = n + 1;
        }
        if window.len() < 64 {
            window.push(n);
        }
        (n, wait)
    })
}

fn gaps(s: &mut Src, avg: usize, max: usize, fin: impl FnOnce(&[sim::Ev], SocketAddr, SocketAddr, u16, u64) -> Result<usize, String> + 'static) -> Result<usize, String> {
    let role = role(s);
    let mtu = s.pick(&[1400u16, 1400, 400, 600]);
    let seed = s.below(1 << 32);
    let yields = s.pick(&[0, 0, 64]);
    let latency = s.pick(&[1u64, 0, 20]);
    let plan = gap_plan(s, avg, max);
    let classes = s.pick(&[vec![0u8], vec![2], vec![0, 2, 1, 4], vec![3]]);
    let per = s.usize(1, 3);
    s.note(format!("library is the {role:?}, mtu {mtu}, latency {latency}, {per} frame(s) of classes {classes:?} per datagram; (number, wait before): {plan:?}"));
    let out: Arc<Mutex<usize>> = Default::default();
    let out2 = out.clone();
    sim::run(seed, yields, 300_000, move |w| async move {
        w.latency(latency);
        w.record(true);
        let (lib, mut p) = scripted(&w, role, 10, mtu).await?;
        collect(lib.sock.clone(), Default::default());
        let base = p.seq;
        let mut sent: BTreeMap<u32, Vec<u8>> = BTreeMap::new();
        for (i, (n, wait)) in plan.iter().enumerate() {
            if *wait > 0 {
                p.drain(*wait).await;
            }
            let d = sent
                .entry(*n)
                .or_insert_with(|| {
                    let fs: Vec<_> = (0..per).map(|k| p.frame(classes[(i + k) % classes.len()], payload(0, 0, 0, i * 4 + k, classes[(i + k) % classes.len()], 12))).collect();
                    wire::frames(base + n, &fs)
                })
                .clone();
            p.send(&d);
        }
        p.drain(2500).await;
        let n = fin(&w.take_events(), lib.addr, p.sock.addr, mtu, now())?;
        *out2.lock().unwrap() = n;
        if lib.sock.flush().await.is_err() {
            return Err("the connection closed".into());
        }
        no_panics()
    })?;
    let n = *out.lock().unwrap();
    Ok(n)
}

fn c06_gaps(s: &mut Src) -> Case {
    let n = gaps(s, 150, 900, |evs, me, peer, mtu, _| {
        monitor::well_formed(evs, me, peer, mtu)?;
        let a: Vec<u32> = monitor::arrived(evs, me, peer).into_iter().collect();
        Ok(wire::ranges(&a).len())
    })?;
    s.nontrivial(n > 50);
    Ok(())
}

fn c07_gaps(s: &mut Src) -> Case {
    let n = gaps(s, 14, 120, |evs, me, peer, _, end| Ok(monitor::acknowledgements(evs, me, peer, end)?.1))?;
    s.nontrivial(n > 0);
    Ok(())
}

#[derive(Clone, Copy, Debug)]
enum Fate {
    Ack(u64),
    Nack(u64),
    Ignore,
}

/// The scripted peer's acknowledgement policy.
#[derive(Clone, Debug)]
struct AckPlan {
    /// fates of the first datagrams, then drawn with the weights
    first: Vec<Fate>,
    weights: [u64; 4],
    until: u64,
    batch: u64,
    as_ranges: bool,
    /// all acknowledgements are equally late, so that they cover long runs
    uniform: bool,
    /// this many datagrams in a row are at first not acknowledged at all
    skip: Option<(u64, u64)>,
    /// acknowledgements name again what was acknowledged before
    cumulative: bool,
    /// negative acknowledgements also name older or unused numbers
    stale_nacks: bool,
    salt: u64,
    /// never acknowledge anything until the end
    mute: bool,
}

fn c08_acks(s: &mut Src) -> Case {
    acks(s, false)
}

fn c08_bursts(s: &mut Src) -> Case {
    acks(s, true)
}

fn acks(s: &mut Src, bursts: bool) -> Case {
    let role = role(s);
    let seed = s.below(1 << 32);
    let yields = s.pick(&[0, 0, 64]);
    let latency = s.pick(&[1u64, 0, 20, 150]);
    let mtu = mtus(s);
    let t = Traffic { classes: vec![3, 2, 2, 4, 3, 0, 1], tiny: None, mtu, max_big: 7000, avg: 6, max: 25, flushes: true };
    let acts = if bursts {
        let most = s.pick(&[400, 400, 1400, 2600]);
        gen_bursts(s, &[3, 2, 4, 2, 3], mtu, most)
    } else {
        gen_acts(s, &t)
    };
    let outstanding = acts.split(|a| !matches!(a, Act::Send { .. })).map(|r| r.len()).max().unwrap_or(0);
    let mute = !bursts && s.chance(1, 12);
    let ap = AckPlan {
        first: s.list(0, 6, 30, |s, _| match s.weighted(&[4, 3, 3]) {
            0 => Fate::Ack(delay(s)),
            1 => Fate::Nack(delay(s)),
            _ => Fate::Ignore,
        }),
        weights: if bursts {
            s.pick(&[[300, 1, 1, 0], [100, 1, 0, 0], [100, 0, 1, 1], [8, 1, 1, 0], [1, 0, 0, 0]])
        } else {
            s.pick(&[[8, 1, 1, 0], [1, 0, 0, 0], [3, 3, 3, 0], [2, 1, 4, 1], [0, 4, 1, 0]])
        },
        until: if mute && s.chance(1, 12) { s.int(1_200_000, 3_000_000) } else if mute { s.int(20_000, 130_000) } else { s.int(500, 20_000) },
        batch: s.pick(&[1u64, 1, 30, 200]),
        as_ranges: s.chance(1, 2),
        uniform: bursts && s.chance(1, 2),
        skip: if bursts && s.chance(1, 3) { Some((s.int(0, 100), s.int(50, 1500))) } else { None },
        cumulative: bursts && s.chance(1, 5),
        stale_nacks: s.chance(1, 4),
        salt: s.below(1 << 32),
        mute,
    };
    s.note(format!("library is the {role:?}, mtu {mtu}, latency {latency}, sends: {}", describe_acts(&acts)));
    s.note(format!("peer: {ap:?}"));
    s.label_if(mute, "mute peer");
    s.label_if(ap.as_ranges, "range acknowledgements");
    let out: Arc<Mutex<monitor::Resends>> = Default::default();
    let out2 = out.clone();
    let r = sim::run(seed, yields, 4_000_000, move |w| async move {
        w.latency(latency);
        let (lib, mut p) = scripted(&w, role, 10, mtu).await?;
        w.record(true);
        let log: Log = Default::default();
        log.lock().unwrap().pending = 1;
        collect(lib.sock.clone(), log.clone());
        tokio::spawn(perform(lib.sock.clone(), log.clone(), 0, 0, 0, acts));
        ack_loop(&mut p, &ap, &log).await;
        // everything is acknowledged from now on
        p.auto_ack = true;
        let t = now();
        while now() < t + 60_000 && log.lock().unwrap().pending > 0 {
            p.drain(500).await;
        }
        p.drain(13_500).await;
        let end = now();
        let x = monitor::retransmission(&w.take_events(), lib.addr, p.sock.addr, end)?;
        *out2.lock().unwrap() = x;
        let l = log.lock().unwrap();
        if l.pending > 0 {
            return Err("a send or flush did not return within 60 s though the peer acknowledges everything".into());
        }
        if let Some((t, e)) = &l.recv_err {
            return Err(format!("the connection closed at {t} ms: {e}"));
        }
        no_panics()
    });
    let x = out.lock().unwrap();
    s.nontrivial(x.resends > 0 && x.acked > 0 && (!bursts || outstanding > 128));
    s.label_if(x.nacks_answered > 0, "NACK answered");
    s.label_if(x.implicit > 0, "passed over");
    s.label_if(outstanding > 1024, "more than 1024 outstanding");
    r
}

async fn ack_loop(p: &mut Peer, ap: &AckPlan, log: &Log) {
    p.auto_ack = false;
    let start = now();
    let mut rng = Rng::new(ap.salt);
    let mut due: BTreeMap<(u64, u32), bool> = BTreeMap::new();
    let mut seen: BTreeSet<u32> = BTreeSet::new();
    let mut acked: BTreeSet<u32> = BTreeSet::new();
    let (mut count, mut alive, mut last_batch) = (0usize, start, start);
    while now() < start + ap.until && (ap.mute || now() < start + 1000 || log.lock().unwrap().pending > 0 || !due.is_empty()) {
        let t = now();
        let mut wait = if ap.mute { 200 } else { 5 };
        while let Some(rx) = p.next(wait).await {
            wait = 0;
            if let Ok(Packet::Frames { seq, .. }) = rx.pkt {
                seen.insert(seq);
                let fate = match ap.first.get(count) {
                    _ if ap.mute => Fate::Ignore,
                    _ if ap.skip.is_some_and(|(from, n)| (from..from + n).contains(&(count as u64))) => Fate::Ignore,
                    Some(f) => *f,
                    None => {
                        let total: u64 = ap.weights.iter().sum();
                        let mut x = rng.next() % total;
                        let mut k = 0;
                        while x >= ap.weights[k] {
                            x -= ap.weights[k];
                            k += 1;
                        }
                        let d = if ap.uniform { 5 } else { [0, 5, 40, 200][(rng.next() % 4) as usize] };
                        [Fate::Ack(d), Fate::Nack(d), Fate::Ignore, Fate::Ack(3000)][k]
                    }
                };
                count += 1;
                match fate {
                    Fate::Ack(d) => {
                        due.insert((now() + d, seq), true);
                    }
                    Fate::Nack(d) => {
                        due.insert((now() + d, seq), false);
                    }
                    Fate::Ignore => {}
                }
            }
        }
        if now() >= last_batch + ap.batch {
            last_batch = now();
            let ready: Vec<(u64, u32)> = due.keys().take_while(|k| k.0 <= now()).cloned().collect();
            let (mut acks, mut nacks) = (BTreeSet::new(), BTreeSet::new());
            for k in ready {
                if due.remove(&k).unwrap() {
                    acks.insert(k.1);
                } else {
                    nacks.insert(k.1);
                }
            }
            if ap.cumulative && !acks.is_empty() {
                acked.extend(&acks);
                acks = acked.clone();
            }
            let recs = |v: BTreeSet<u32>| {
                let v: Vec<u32> = v.into_iter().collect();
                if ap.as_ranges {
                    wire::ranges(&v)
                } else {
                    v.iter().map(|n| (*n, *n)).collect()
                }
            };
            if ap.stale_nacks && !nacks.is_empty() {
                if let Some(old) = seen.iter().nth((rng.next() % seen.len() as u64) as usize) {
                    nacks.insert(*old);
                }
            }
            for r in recs(acks).chunks(180) {
                p.send(&wire::ack(r));
            }
            for r in recs(nacks).chunks(180) {
                p.send(&wire::nack(r));
            }
        }
        // the connection must not be taken for dead
        if now() > alive + 15_000 {
            alive = now();
            p.send_msg(wire::UNRELIABLE, wire::connected_ping(1));
        }
        if now() == t {
            sim::sleep(1).await;
        }
    }
}
