//! C19 and C21: concurrent and cancelled calls, and memory.
use crate::engine::{no_panics, Case, Check, Rng, Src, Sub};
use crate::mem;
use crate::peer::Peer;
use crate::scenario::*;
use crate::sim::{self, host, now, server_addr, within};
use crate::wire::Packet;
use rust_raknet::{RaknetListener, RaknetSocket};
use std::collections::HashMap;
use std::future::Future;
use std::net::SocketAddr;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll};

pub const CHECKS: &[Check] = &[
    Check {
        id: "C19",
        subs: &[
            Sub {
                name: "tasks",
                run: c19_tasks,
                quick: 40_000,
                thorough: 600_000,
                rule: "several tasks send, flush and receive on both ends, with calls cancelled after some polls or milliseconds, over a faulty network; non-trivial if at least two tasks of an end sent or one end had at least two receivers, and a call was cancelled",
            },
            Sub {
                name: "contended",
                run: c19_contended,
                quick: 6000,
                thorough: 200_000,
                rule: "both ends send messages of many fragments over sockets that often make senders wait, while receivers poll recv a few times within each turn of the scheduler and give it up; every case with a message of at least 20 fragments is non-trivial",
            },
            Sub {
                name: "threads",
                run: c19_threads,
                quick: 160,
                thorough: 3000,
                rule: "the same on a multi-threaded runtime over real loopback sockets; every case is non-trivial",
            },
        ],
    },
    Check {
        id: "C21",
        subs: &[
            Sub {
                name: "traffic",
                run: c21_traffic,
                quick: 1500,
                thorough: 20_000,
                rule: "thousands of messages in flushed rounds over a faulty network, live bytes compared after a quarter and all of them; every case is non-trivial",
            },
            Sub {
                name: "connections",
                run: c21_connections,
                quick: 4000,
                thorough: 60_000,
                rule: "dozens of connections that end in generated ways, live bytes and tasks compared; every case is non-trivial",
            },
            Sub {
                name: "passersby",
                run: c21_passersby,
                quick: 60,
                thorough: 1000,
                rule: "tens of thousands of sources that send the listener something over hours of virtual time and never connect; non-trivial if some ask for a connection",
            },
        ],
    },
];

// ------------------------------------------------------------------ C19

/// Gives up on a future after it has been pending `n` times.
pub struct Polls<F> {
    f: F,
    n: u64,
}
impl<F: Future> Future for Polls<F> {
    type Output = Option<F::Output>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let this = unsafe { self.get_unchecked_mut() };
        match unsafe { Pin::new_unchecked(&mut this.f) }.poll(cx) {
            Poll::Ready(x) => Poll::Ready(Some(x)),
            Poll::Pending if this.n <= 1 => Poll::Ready(None),
            Poll::Pending => {
                this.n -= 1;
                Poll::Pending
            }
        }
    }
}

#[derive(Clone, Copy, Debug)]
pub enum Cancel {
    No,
    Ms(u64),
    Polls(u64),
}
pub async fn cancellable<F: Future>(c: Cancel, f: F) -> Option<F::Output> {
    match c {
        Cancel::No => Some(f.await),
        Cancel::Ms(ms) => within(ms, f).await,
        Cancel::Polls(n) => Polls { f, n }.await,
    }
}
pub fn cancel(s: &mut Src, p: u64) -> Cancel {
    if !s.chance(p, 10) {
        return Cancel::No;
    }
    if s.chance(1, 2) {
        Cancel::Polls(s.int(1, 6))
    } else {
        Cancel::Ms(s.pick(&[0u64, 1, 2, 7, 50]))
    }
}

/// Completed messages arrive once, cancelled ones at most once and whole, each task's ordered ones in order.
fn exactly(from: &EndLog, to: &EndLog) -> Case {
    let mut count: HashMap<&[u8], u64> = HashMap::new();
    for r in &to.recvs {
        *count.entry(&r.1).or_default() += 1;
    }
    let sent: HashMap<&[u8], &SendRec> = from.sends.iter().map(|s| (&s.data[..], s)).collect();
    for (m, n) in &count {
        let Some(s) = sent.get(m) else { return Err(format!("recv returned a message nobody sent: {}", brief(m))) };
        if *n > 1 && (s.class == 2 || s.class == 3) {
            return Err(format!("{} was returned by {n} recv calls", brief(m)));
        }
    }
    for s in from.sends.iter().filter(|s| s.class == 2 || s.class == 3) {
        match &s.err {
            None if !count.contains_key(&s.data[..]) => return Err(format!("{}, whose send completed at {} ms, was returned by no recv call", brief(&s.data), s.end)),
            Some(e) if e != "cancelled" => return Err(format!("send of {} failed with {e}", brief(&s.data))),
            _ => {}
        }
    }
    let mut last: HashMap<u8, usize> = HashMap::new();
    for (t, m) in to.recvs.iter().filter(|r| r.1[1] == 3) {
        let idx = (m[5] as usize) << 16 | (m[6] as usize) << 8 | m[7] as usize;
        if let Some(l) = last.insert(m[4], idx) {
            if l > idx {
                return Err(format!("{} was returned at {t} ms after message #{l} of the same task", brief(m)));
            }
        }
    }
    Ok(())
}

/// Gives up on recv as `mode` says, `spins` times within a turn of the scheduler before it sleeps.
fn receiver(k: Arc<RaknetSocket>, log: Log, mode: Cancel, pause: u64, spins: u64) -> tokio::task::JoinHandle<()> {
    tokio::spawn(async move {
        let mut spun = 0;
        loop {
            match cancellable(mode, k.recv()).await {
                None if spun < spins => {
                    spun += 1;
                    tokio::task::yield_now().await;
                }
                None => {
                    spun = 0;
                    sim::sleep(pause).await
                }
                Some(Ok(m)) => log.lock().unwrap().recvs.push((now(), m)),
                Some(Err(e)) => {
                    log.lock().unwrap().recv_err = Some((now(), es(&e)));
                    break;
                }
            }
        }
    })
}

fn c19_tasks(s: &mut Src) -> Case {
    let mtu = s.pick(&[1400u16, 1400, 400]);
    let t = Traffic { classes: vec![3, 3, 3, 2, 0, 4], tiny: None, mtu, max_big: 12_000, avg: 5, max: 20, flushes: true };
    let p = Plan::gen(s, &t, 1, 4, true);
    // how each call is cancelled, by task and index
    let rate = s.pick(&[0u64, 2, 5, 9]);
    let cancels: [Vec<Vec<Cancel>>; 2] = [0, 1].map(|d| p.acts[0][d].iter().map(|a| a.iter().map(|_| cancel(s, rate)).collect()).collect());
    let receivers: [Vec<(Cancel, u64, u64)>; 2] = [0, 1].map(|_| s.list(1, 2, 4, |s, _| (cancel(s, 5), s.pick(&[1u64, 0, 13]).max(1), s.pick(&[0, 0, 4]))));
    c19_run(s, p, cancels, receivers)
}

fn c19_contended(s: &mut Src) -> Case {
    let frag = s.chance(1, 2);
    let mtu = if frag { 400 } else { 1400 };
    let seed = s.below(1 << 32);
    let yields = s.pick(&[128, 200, 64]);
    let latency = s.pick(&[0, 1, 1, 3]);
    let faults = if s.chance(1, 4) { Faults::gen(s) } else { Faults { until: 100, ..Default::default() } };
    let mut one = || {
        let tasks = s.usize(1, 2);
        (0..tasks)
            .map(|_| {
                s.list(1, 4, 10, |s, _| match s.weighted(&[5, 3, 2, 1]) {
                    0 => Act::Send { class: 3, size: (mtu as usize - 60) * s.usize(2, 60) },
                    1 => Act::Send { class: s.pick(&[2, 3]), size: s.usize(TAG, 40) },
                    2 => Act::Pause(s.below(8)),
                    _ => Act::Flush,
                })
            })
            .collect::<Vec<Vec<Act>>>()
    };
    let acts = vec![[one(), one()]];
    let p = Plan { seed, yields, latency, mtu, hosts: vec![2], acts, faults, same_port: false, keepalive: 0, own_loss: [None; 2] };
    let rate = s.pick(&[0u64, 2]);
    let cancels: [Vec<Vec<Cancel>>; 2] = [0, 1].map(|d| p.acts[0][d].iter().map(|a| a.iter().map(|_| cancel(s, rate)).collect()).collect());
    let receivers: [Vec<(Cancel, u64, u64)>; 2] = [0, 1].map(|_| s.list(1, 1, 2, |s, _| (Cancel::Polls(s.int(1, 4)), 1, s.int(2, 40))));
    let big = p.sends().any(|x| x.1 >= 20 * (mtu as usize - 60));
    let r = c19_run(s, p, cancels, receivers);
    s.nontrivial(big);
    r
}

fn c19_run(s: &mut Src, p: Plan, cancels: [Vec<Vec<Cancel>>; 2], receivers: [Vec<(Cancel, u64, u64)>; 2]) -> Case {
    s.note(p.describe());
    s.note(format!("cancelled calls (client, server): {cancels:?}; receivers, pauses between cancelled calls and calls between pauses: {receivers:?}"));
    let many = (0..2).any(|d| p.acts[0][d].iter().filter(|a| !a.is_empty()).count() > 1 || receivers[d].len() > 1);
    let cancelled = Arc::new(AtomicU64::new(0));
    let seen = cancelled.clone();
    let rec_cancel = receivers.iter().flatten().any(|r| !matches!(r.0, Cancel::No));
    let plan = p.clone();
    let r = sim::run(p.seed, p.yields, 200_000 + p.faults.until, move |w| async move {
        let ses = establish(&w, &plan).await?;
        let k = &ses.conns[0];
        let mut readers = vec![];
        for d in 0..2 {
            for (m, pause, spins) in &receivers[d] {
                readers.push(receiver(k.ends[d].clone(), k.logs[d].clone(), *m, *pause, *spins));
            }
            k.logs[d].lock().unwrap().pending = plan.acts[0][d].len();
            for (task, acts) in plan.acts[0][d].iter().enumerate() {
                let (sock, log, acts, cs, n) = (k.ends[d].clone(), k.logs[d].clone(), acts.clone(), cancels[d][task].clone(), cancelled.clone());
                tokio::spawn(async move {
                    for (idx, (a, c)) in acts.into_iter().zip(cs).enumerate() {
                        match a {
                            Act::Pause(ms) => sim::sleep(ms).await,
                            Act::Flush => {
                                let b = now();
                                match cancellable(c, sock.flush()).await {
                                    None => {
                                        n.fetch_add(1, Ordering::Relaxed);
                                    }
                                    Some(r) => log.lock().unwrap().flushes.push((b, now(), r.err().map(|e| es(&e)))),
                                }
                            }
                            Act::Send { class, size } => {
                                let data = Arc::new(payload(0, d, task, idx, class, size));
                                let at = {
                                    let mut l = log.lock().unwrap();
                                    let order = l.sends.len();
                                    l.sends.push(SendRec { task, idx, class, data: data.clone(), begin: now(), end: u64::MAX, order, err: None });
                                    order
                                };
                                let r = cancellable(c, sock.send(&data, rel(class))).await;
                                let mut l = log.lock().unwrap();
                                l.sends[at].end = now();
                                l.sends[at].err = match r {
                                    None => {
                                        n.fetch_add(1, Ordering::Relaxed);
                                        Some("cancelled".into())
                                    }
                                    Some(r) => r.err().map(|e| es(&e)),
                                };
                            }
                        }
                    }
                    log.lock().unwrap().pending -= 1;
                });
            }
        }
        ses.settle(&[2, 3], ses.start + plan.faults.until + 60_000, 500).await;
        no_panics()?;
        if !ses.senders_done() {
            return Err("a send or flush had not returned 60 s after the network recovered".into());
        }
        for d in 0..2 {
            match within(30_000, k.ends[d].flush()).await {
                Some(Ok(())) => {}
                x => return Err(format!("the last flush: {x:?}")),
            }
        }
        sim::sleep(200).await;
        for d in 0..2 {
            let (a, b) = (k.logs[d].lock().unwrap(), k.logs[1 - d].lock().unwrap());
            if let Some(f) = a.flushes.iter().find(|f| f.2.is_some()) {
                return Err(format!("flush failed with {:?}", f.2));
            }
            if let Some(e) = &a.recv_err {
                return Err(format!("recv failed with {e:?} though nothing closed the connection"));
            }
            exactly(&a, &b).map_err(|e| format!("{}: {e}", ["client to server", "server to client"][d]))?;
        }
        // every receiver notices the end, once the network lets the news through
        sim::sleep((ses.start + plan.faults.until).saturating_sub(now())).await;
        within(1000, k.ends[0].close()).await.ok_or("close did not return")?.map_err(|e| format!("close: {e:?}"))?;
        for h in readers {
            match within(20_000, h).await {
                Some(Ok(())) => {}
                _ => return Err("one of the receivers was still waiting 20 s after the connection was closed".into()),
            }
        }
        no_panics()
    });
    s.nontrivial(many && (rec_cancel || seen.load(Ordering::Relaxed) > 0));
    s.label_if(seen.load(Ordering::Relaxed) > 0, "cancelled send or flush");
    s.label_if(rec_cancel, "cancelled recv");
    r
}

fn c19_threads(s: &mut Src) -> Case {
    let conns = s.usize(1, 2);
    let tasks = s.usize(1, 4);
    let receivers = s.usize(1, 3);
    let per = s.usize(5, 40);
    let sizes = s.pick(&[20usize, 400, 1341, 5000]);
    let cancel_ms = s.pick(&[0u64, 1, 3]);
    let seed = s.below(1 << 32);
    s.note(format!("{conns} connections, {tasks} sending tasks and {receivers} receivers on each end, {per} messages per task of about {sizes} bytes, recv cancelled after {cancel_ms} ms"));
    s.nontrivial(true);
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(3).enable_all().build().map_err(|e| e.to_string())?;
    let out = rt.block_on(async move {
        let f = async move {
            let mut l = RaknetListener::bind(&"127.0.0.1:0".parse().unwrap()).await.map_err(|e| format!("bind: {e:?}"))?;
            l.listen().await;
            let addr = l.local_addr().map_err(|e| format!("{e:?}"))?;
            let mut hs: Vec<tokio::task::JoinHandle<Case>> = vec![];
            let mut ends = vec![];
            for _ in 0..conns {
                let (c, k) = tokio::join!(RaknetSocket::connect(&addr), l.accept());
                ends.push([Arc::new(c.map_err(|e| format!("connect: {e:?}"))?), Arc::new(k.map_err(|e| format!("accept: {e:?}"))?)]);
            }
            for (n, e) in ends.iter().enumerate() {
                for d in 0..2 {
                    let want = tasks * per;
                    let count = Arc::new(AtomicU64::new(0));
                    let done = Arc::new(AtomicBool::new(false));
                    let got: Arc<Mutex<Vec<Vec<u8>>>> = Default::default();
                    let mut rs = vec![];
                    for r in 0..receivers {
                        let (k, count, done, got) = (e[1 - d].clone(), count.clone(), done.clone(), got.clone());
                        rs.push(tokio::spawn(async move {
                            while !done.load(Ordering::Relaxed) {
                                // a receiver must be cancelled to notice the end
                                let ms = if r == 0 { 50 } else { cancel_ms.max(1) };
                                match within(ms, k.recv()).await {
                                    None => {}
                                    Some(Ok(m)) => {
                                        got.lock().unwrap().push(m);
                                        if count.fetch_add(1, Ordering::Relaxed) + 1 == want as u64 {
                                            done.store(true, Ordering::Relaxed);
                                        }
                                    }
                                    Some(Err(e)) => return Err(format!("recv: {e:?}")),
                                }
                            }
                            Ok(())
                        }));
                    }
                    for t in 0..tasks {
                        let k = e[d].clone();
                        hs.push(tokio::spawn(async move {
                            let mut rng = Rng::new(seed + t as u64);
                            for i in 0..per {
                                let class = if rng.next() % 3 == 0 { 2u8 } else { 3 };
                                let size = if class == 2 { sizes.min(1340) } else { sizes };
                                k.send(&payload(n, d, t, i, class, size), rel(class)).await.map_err(|e| format!("send: {e:?}"))?;
                                if rng.next() % 8 == 0 {
                                    k.flush().await.map_err(|e| format!("flush: {e:?}"))?;
                                }
                            }
                            Ok(())
                        }));
                    }
                    hs.push(tokio::spawn(async move {
                        for r in rs {
                            r.await.map_err(|e| format!("receiver: {e}"))??;
                        }
                        let got = got.lock().unwrap();
                        let mut seen: HashMap<&[u8], u64> = HashMap::new();
                        for m in got.iter() {
                            *seen.entry(m).or_default() += 1;
                        }
                        for t in 0..tasks {
                            let mut rng = Rng::new(seed + t as u64);
                            for i in 0..per {
                                let class = if rng.next() % 3 == 0 { 2u8 } else { 3 };
                                let size = if class == 2 { sizes.min(1340) } else { sizes };
                                let m = payload(n, d, t, i, class, size);
                                let c = seen.get(&m[..]).copied().unwrap_or(0);
                                if c != 1 {
                                    return Err(format!("{} was returned by {c} recv calls", brief(&m)));
                                }
                                rng.next();
                            }
                        }
                        if receivers == 1 {
                            let mut last: HashMap<u8, usize> = HashMap::new();
                            for m in got.iter().filter(|m| m[1] == 3) {
                                let idx = (m[6] as usize) << 8 | m[7] as usize;
                                if let Some(l) = last.insert(m[4], idx) {
                                    if l > idx {
                                        return Err(format!("{} was returned after #{l} of the same task", brief(m)));
                                    }
                                }
                            }
                        }
                        Ok(())
                    }));
                }
            }
            for h in hs {
                h.await.map_err(|e| format!("a task panicked: {e}"))??;
            }
            Ok(())
        };
        match tokio::time::timeout(std::time::Duration::from_secs(120), f).await {
            Ok(r) => r,
            Err(_) => Err("the session over real sockets was not finished after 120 s".to_string()),
        }
    });
    rt.shutdown_background();
    out
}

// ------------------------------------------------------------------ C21

fn c21_traffic(s: &mut Src) -> Case {
    let mtu = s.pick(&[1400u16, 1400, 400]);
    let thorough = s.thorough;
    let t = Traffic { classes: vec![3, 2, 0, 4, 1], tiny: None, mtu, max_big: 8000, avg: 3, max: 12, flushes: false };
    let t = if s.chance(1, 2) { t } else { Traffic { classes: vec![s.pick(&[3u8, 2, 0, 4, 1])], ..t } };
    let small = s.chance(1, 2);
    let mut p = Plan::gen(s, &t, 1, 1, true);
    p.latency = p.latency.min(5);
    p.yields = 0;
    p.faults.until = p.faults.until.min(500);
    let mut acts: [Vec<(u8, usize)>; 2] = [0, 1].map(|d| {
        let mut v: Vec<(u8, usize)> = p.acts[0][d][0].iter().filter_map(|a| match a { Act::Send { class, size } => Some((*class, if small { (*size).min(60) } else { *size })), _ => None }).collect();
        let (class, n) = (s.pick(&t.classes), s.usize(1, 20));
        v.extend(std::iter::repeat((class, 12)).take(n));
        v
    });
    if s.chance(1, 4) {
        acts[1].clear();
    }
    let per: usize = acts.iter().map(|a| a.len()).sum();
    let total = if thorough { 60_000 } else { 16_000 };
    let fragmented: usize = acts.iter().flatten().filter(|a| a.1 > 1340).map(|a| a.1 / 340).sum();
    // large messages make rounds expensive, but each of them is also easier to see
    let rounds = (total / (per + 2 * fragmented)).clamp(40, 2500);
    // messages that send rejects
    let rejected: Vec<u8> = if s.chance(1, 3) { s.list(1, 1, 3, |s, _| s.pick(&[2u8, 4, 1, 0])) } else { vec![] };
    s.note(format!("mtu {mtu}, latency {}, {}; {rounds} rounds of: client {:?}; server {:?}; rejected too {rejected:?}", p.latency, p.faults.describe(), acts[0], acts[1]));
    s.nontrivial(true);
    s.label_if(fragmented > 0, "fragmented");
    s.label_if(!p.faults.none(), "faults");
    let plan = p.clone();
    sim::run(p.seed, 0, 100_000_000, move |w| async move {
        let ses = establish(&w, &plan).await?;
        let k = &ses.conns[0];
        let counts: Vec<Arc<AtomicU64>> = (0..2).map(|_| Arc::new(AtomicU64::new(0))).collect();
        for d in 0..2 {
            let (e, n) = (k.ends[d].clone(), counts[d].clone());
            tokio::spawn(async move {
                while e.recv().await.is_ok() {
                    n.fetch_add(1, Ordering::Relaxed);
                }
            });
        }
        let mtu_all = plan.mtu;
        let mtu = if plan.mtu != 1400 { Some(plan.mtu) } else { None };
        let clean = Faults { until: 0, ..Default::default() };
        let mut before = 0;
        for r in 0..=rounds {
            if r == rounds / 4 || r == rounds {
                w.policy(Some(clean.policy(server_addr(), 0, plan.latency, mtu)));
                for d in 0..2 {
                    within(60_000, k.ends[d].flush()).await.ok_or("flush did not return within 60 s")?.map_err(|e| format!("flush: {e:?}"))?;
                }
                // late duplicates arrive within 8 s
                sim::sleep(10_000).await;
                w.compact();
                let n = mem::live();
                let sent = r * per;
                let got: u64 = counts.iter().map(|c| c.load(Ordering::Relaxed)).sum();
                if r == rounds {
                    let growth = n - before;
                    if growth > 24 * 1024 {
                        return Err(format!(
                            "{growth} bytes more in use after {sent} messages ({got} delivered) than after a quarter of them, though all were delivered and acknowledged"
                        ));
                    }
                } else {
                    before = n;
                }
                if r == rounds {
                    break;
                }
            }
            // one round out of four is disturbed by the plan's faults
            let f = if r % 4 == 1 { &plan.faults } else { &clean };
            w.policy(Some(f.policy(server_addr(), now(), plan.latency, mtu)));
            for d in 0..2 {
                for (i, class) in rejected.iter().enumerate() {
                    if k.ends[d].send(&payload(0, d, r % 100, i, *class, mtu_all as usize), rel(*class)).await.is_ok() {
                        return Err(format!("a message of {mtu_all} bytes was accepted"));
                    }
                }
                for (i, (class, size)) in acts[d].iter().enumerate() {
                    k.ends[d].send(&payload(0, d, r % 100, i, *class, *size), rel(*class)).await.map_err(|e| format!("send: {e:?}"))?;
                }
            }
            for d in 0..2 {
                within(120_000, k.ends[d].flush()).await.ok_or("flush did not return within 120 s")?.map_err(|e| format!("flush in round {r}: {e:?}"))?;
            }
            // unreliable messages are not waited for by a flush
            sim::sleep(plan.latency * 2 + 3).await;
        }
        no_panics()
    })
}

#[derive(Clone, Copy, Debug)]
enum Life {
    ClientClose,
    ClientDrop,
    ServerClose,
    ServerDrop,
    Vanish,
    RawHalf,
    RawOnline,
    RawDisconnect,
    Unread,
    /// connect is given up after so many milliseconds
    GivenUp(u64),
}

fn c21_connections(s: &mut Src) -> Case {
    let seed = s.below(1 << 32);
    let latency = s.pick(&[1u64, 0, 20]);
    let lives: Vec<Life> = s.list(1, 2, 5, |s, _| {
        let ms = s.pick(&[1u64, 0, 2, 5, 45, 61, 100]);
        s.pick(&[Life::ClientClose, Life::ClientDrop, Life::ServerClose, Life::ServerDrop, Life::Vanish, Life::RawHalf, Life::RawOnline, Life::RawDisconnect, Life::Unread, Life::GivenUp(ms)])
    });
    let same = s.chance(1, 2);
    let traffic = s.usize(0, 8);
    let rounds = s.pick(if s.thorough { &[40, 40, 160] } else { &[16, 16, 16, 48] });
    s.note(format!("latency {latency}; {rounds} times: {lives:?}, with {traffic} messages each way; from the same address {same}"));
    s.nontrivial(true);
    sim::run(seed, 0, 100_000_000, move |w| async move {
        let l = listener(&w).await?;
        w.latency(latency);
        // clients that are gone
        let gone: Arc<Mutex<std::collections::HashSet<SocketAddr>>> = Default::default();
        {
            let gone = gone.clone();
            w.policy(Some(Box::new(move |d: &sim::Dgram| {
                if gone.lock().unwrap().contains(&d.src) || gone.lock().unwrap().contains(&d.dst) {
                    vec![]
                } else {
                    vec![(latency, d.data.clone())]
                }
            })));
        }
        // the server application: reads every connection until it ends
        let accepted: Arc<Mutex<HashMap<SocketAddr, (bool, Arc<RaknetSocket>)>>> = Default::default();
        let acc = accepted.clone();
        let mode: Arc<Mutex<Life>> = Arc::new(Mutex::new(Life::ClientClose));
        let m2 = mode.clone();
        let mut l = l;
        let app = tokio::spawn(async move {
            while let Ok(k) = l.accept().await {
                let k = Arc::new(k);
                let addr = k.peer_addr().unwrap();
                let life = *m2.lock().unwrap();
                acc.lock().unwrap().insert(addr, (true, k.clone()));
                let acc = acc.clone();
                tokio::spawn(async move {
                    for i in 0..traffic {
                        let _ = k.send(&payload(0, 1, 0, i, 3, 500), rel(3)).await;
                    }
                    match life {
                        Life::ServerClose => {
                            sim::sleep(300).await;
                            let _ = k.close().await;
                        }
                        Life::ServerDrop => {
                            sim::sleep(300).await;
                            acc.lock().unwrap().remove(&addr);
                            return;
                        }
                        Life::Unread => {
                            while k.flush().await.is_ok() {
                                sim::sleep(100).await;
                            }
                            acc.lock().unwrap().remove(&addr);
                            return;
                        }
                        _ => {}
                    }
                    while k.recv().await.is_ok() {}
                    acc.lock().unwrap().remove(&addr);
                });
            }
            l
        });
        let tasks = || tokio::runtime::Handle::current().metrics().num_alive_tasks() as isize;
        let mut base = (0isize, 0isize);
        let mut n = 0;
        for r in 0..=rounds {
            if r == rounds / 4 || r == rounds {
                sim::sleep(90_000).await;
                gone.lock().unwrap().clear();
                gone.lock().unwrap().shrink_to_fit();
                {
                    let mut a = accepted.lock().unwrap();
                    if !a.is_empty() {
                        return Err(format!("{} accepted connections had not noticed their end 90 s later", a.len()));
                    }
                    a.shrink_to_fit();
                }
                w.compact();
                if r < rounds {
                    base = (mem::live(), tasks());
                } else {
                    let grown = mem::live() - base.0;
                    let made = (rounds - rounds / 4) * lives.len();
                    if tasks() > base.1 {
                        return Err(format!("{} tasks more than before after {made} connections that all ended", tasks() - base.1));
                    }
                    // tables and queues keep some room once they had to grow
                    let allowed = 16_384 + 20 * made as isize;
                    if grown > allowed {
                        return Err(format!("{grown} bytes more in use after {made} connections that all ended"));
                    }
                    break;
                }
            }
            for (i, life) in lives.iter().enumerate() {
                *mode.lock().unwrap() = *life;
                n += 1;
                let h = host(10 + i as u8);
                let port = if same { 40_000 + i as u16 * 100 } else { 1000 + n as u16 };
                match life {
                    Life::RawHalf | Life::RawOnline | Life::RawDisconnect => {
                        let mut p = Peer::new(&w, SocketAddr::new(h, port), server_addr());
                        p.offline(10, 1400).await?;
                        if !matches!(life, Life::RawHalf) {
                            p.online().await?;
                            for j in 0..traffic {
                                p.send_msg(3, payload(0, 0, 0, j, 3, 500));
                            }
                        }
                        if matches!(life, Life::RawDisconnect) {
                            p.send(&[0x15]);
                        }
                        p.drain(100).await;
                    }
                    _ => {
                        if same {
                            w.next_port(port);
                        }
                        let ms = if let Life::GivenUp(ms) = life { *ms } else { 20_000 };
                        let c = match within(ms, w.on(h, RaknetSocket::connect(&server_addr()))).await {
                            Some(c) => c.map_err(|e| format!("connect: {e:?}"))?,
                            None if ms < 20_000 => continue,
                            None => return Err("connect did not return within 20 s".into()),
                        };
                        for j in 0..traffic {
                            let _ = c.send(&payload(0, 0, 0, j, 3, 500), rel(3)).await;
                        }
                        sim::sleep(200).await;
                        match life {
                            Life::ClientClose => {
                                let _ = c.close().await;
                                sim::sleep(200).await;
                            }
                            Life::Vanish => {
                                gone.lock().unwrap().insert(SocketAddr::new(h, c.local_addr().unwrap().port()));
                            }
                            Life::ServerClose | Life::ServerDrop => {
                                while within(5000, c.recv()).await.map(|r| r.is_ok()).unwrap_or(false) {}
                            }
                            _ => {}
                        }
                        drop(c);
                    }
                }
            }
            // the address may be used again once the session is over
            sim::sleep(if same { 75_000 } else { 500 }).await;
            if same {
                gone.lock().unwrap().clear();
            }
        }
        app.abort();
        no_panics()
    })
}

/// Sources that say something to the listener and never connect.
fn c21_passersby(s: &mut Src) -> Case {
    let seed = s.below(1 << 32);
    let per = s.int(1500, 4000);
    let gap = s.pick(&[65_000u64, 90_000, 600_000]);
    let kinds: Vec<u8> = s.list(1, 2, 4, |s, _| s.pick(&[0u8, 0, 1, 2, 3, 4, 5]));
    let also = s.usize(0, 2);
    s.note(format!("24 times {per} new sources each say one of {kinds:?} (0, 1 Request1 of version 10, 99; 2 ping; 3 noise; 4 frame set; 5 disconnect), {gap} ms apart, beside {also} connections"));
    s.nontrivial(kinds.contains(&0));
    sim::run(seed, 0, 100_000_000, move |w| async move {
        let mut l = listener(&w).await?;
        let mut keep = vec![];
        for i in 0..also {
            keep.push(Arc::new(pair(&w, &mut l, 2 + i as u8).await?.0));
        }
        let sa = server_addr();
        let base = mem::live();
        let mut most = [0isize; 2];
        let mut n = 0u32;
        for r in 0..24 {
            for i in 0..per {
                n += 1;
                let src = SocketAddr::new(std::net::IpAddr::V4((0x0b00_0000 + n).into()), 1024 + (n % 60_000) as u16);
                let d = match kinds[i as usize % kinds.len()] {
                    0 => Packet::Req1 { version: 10 + (i % 2) as u8, pad: 10 }.encode(),
                    1 => Packet::Req1 { version: 99, pad: 10 }.encode(),
                    2 => Packet::Ping { id: 1, time: 5, guid: 6 }.encode(),
                    3 => vec![0xf0, 1, 2, 3],
                    4 => vec![0x84, 0, 0, 0, 0x60, 0, 8, 0, 0, 0, 0, 0, 0, 0, 0xfe],
                    _ => vec![0x15],
                };
                w.inject(0, src, sa, &d);
                if i % 50 == 0 {
                    sim::sleep(1).await;
                }
            }
            sim::sleep(100).await;
            w.compact();
            let m = mem::live() - base;
            if r >= 8 {
                let k = (r >= 16) as usize;
                most[k] = most[k].max(m);
            }
            let mut left = gap;
            while left > 0 {
                for k in &keep {
                    let _ = k.send(&[0xfe; 8], rel(3)).await;
                }
                let t = left.min(20_000);
                sim::sleep(t).await;
                left -= t;
            }
        }
        // a listener may remember some thousands of them
        if most[1] > 1_000_000 && most[1] > most[0] + most[0] / 5 {
            return Err(format!("{} bytes in use after up to {} sources that never connected, {} after up to {}", most[0], 16 * per, most[1], 24 * per));
        }
        drop(keep);
        no_panics()
    })
}
