//! C20: long histories that carry counters past their width.
use crate::engine::{clip, mix, no_panics, out_of_time, progress, Case, Check, Src, Sub};
use crate::fork::{fork, Fork};
use crate::monitor;
use crate::peer::Peer;
use crate::scenario::*;
use crate::sim::{self, host, now, server_addr, Dgram, Ev, World};
use crate::wire::{self, Frame, Packet};
use rust_raknet::RaknetSocket;
use std::collections::HashMap;
use std::net::SocketAddr;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;
use std::time::{Duration, Instant};

pub const CHECKS: &[Check] = &[Check {
    id: "C20",
    subs: &[
        Sub {
            name: "jump",
            run: c20_jump,
            quick: 80_000,
            thorough: 400_000,
            rule: "a scripted peer skips to the wrap of the datagram and sequenced numbers, or starts its fragment groups there, then sends generated frames delayed and duplicated across it; non-trivial if a number wrapped",
        },
        Sub {
            name: "groups",
            run: c20_groups,
            quick: 40,
            thorough: 2000,
            rule: "65536 fragmented messages, then, from that state, many continuations with generated traffic and faults; every case is non-trivial",
        },
        Sub {
            name: "numbers",
            run: c20_numbers,
            quick: 8,
            thorough: 48,
            rule: "a connection carried by 16.7 million real messages to the wrap of its 24-bit numbers, then, from several states around it, many continuations with generated traffic and faults; every case is non-trivial",
        },
    ],
}];

const M: u32 = 0xff_ffff;

// ------------------------------------------------------------------ number bookkeeping on the wire

/// Smallest number in the circular sense, given that all lie within half the circle.
fn lowest(it: impl Iterator<Item = u32>) -> u32 {
    let mut low: Option<u32> = None;
    for n in it {
        low = Some(match low {
            Some(l) if (n.wrapping_sub(l) & M) < 0x80_0000 => l,
            _ => n,
        });
    }
    low.unwrap_or(0)
}

/// The same traffic with every sender's numbers counted from its first one.
fn rebase(evs: &[Ev], ends: [SocketAddr; 2]) -> Vec<Ev> {
    let mut base: HashMap<SocketAddr, [u32; 4]> = HashMap::new();
    for me in ends {
        let mut n: [Vec<u32>; 4] = Default::default();
        for e in evs.iter().filter(|e| e.sent && e.d.src == me) {
            if let Ok(Packet::Frames { seq, frames, .. }) = Packet::decode(&e.d.data) {
                n[0].push(seq);
                for f in frames {
                    if wire::is_reliable(f.class) {
                        n[1].push(f.reliable);
                    }
                    if f.class == wire::RELIABLE_ORD {
                        n[2].push(f.ordered);
                    }
                    if wire::is_sequenced(f.class) {
                        n[3].push(f.sequenced);
                    }
                }
            }
        }
        base.insert(me, n.map(|v| lowest(v.into_iter())));
    }
    let sub = |a: u32, b: u32| a.wrapping_sub(b) & M;
    evs.iter()
        .map(|e| {
            let mut e = e.clone();
            let (Some(b), Some(o)) = (base.get(&e.d.src), base.get(&e.d.dst)) else { return e };
            let p = match Packet::decode(&e.d.data) {
                Ok(Packet::Frames { id, seq, frames }) => Packet::Frames {
                    id,
                    seq: sub(seq, b[0]),
                    frames: frames
                        .into_iter()
                        .map(|mut f| {
                            f.reliable = if wire::is_reliable(f.class) { sub(f.reliable, b[1]) } else { 0 };
                            f.ordered = if wire::is_ordered(f.class) { sub(f.ordered, b[2]) } else { 0 };
                            f.sequenced = if wire::is_sequenced(f.class) { sub(f.sequenced, b[3]) } else { 0 };
                            f
                        })
                        .collect(),
                },
                Ok(Packet::Ack(r)) => Packet::Ack(r.into_iter().map(|(x, y)| (sub(x, o[0]), sub(y, o[0]))).collect()),
                Ok(Packet::Nack(r)) => Packet::Nack(r.into_iter().map(|(x, y)| (sub(x, o[0]), sub(y, o[0]))).collect()),
                _ => return e,
            };
            e.d.data = p.encode().into();
            e
        })
        .collect()
}

// ------------------------------------------------------------------ continuations of a common prefix

fn suffix_plan(s: &mut Src, mtu: u16) -> Plan {
    let classes = s.pick(&[vec![3, 3, 2, 4, 0, 1], vec![3], vec![4, 1], vec![3, 2]]);
    let t = Traffic { classes, tiny: None, mtu, max_big: 9000, avg: 14, max: 60, flushes: true };
    let mut p = Plan::gen(s, &t, 1, 2, true);
    if s.chance(1, 4) {
        p.faults = Faults::default();
    }
    p
}

/// Generated traffic on the one connection of `ses`, all delivery promises and monitors checked.
/// `late`: copies of datagrams of the distant past that arrive then.
async fn suffix(w: &World, ses: &Session, p: &Plan, mtu: u16, late: &[(u64, Dgram)]) -> Case {
    w.take_events();
    w.record(true);
    let start = now();
    let m = if mtu != 1400 { Some(mtu) } else { None };
    w.policy(Some(p.faults.policy(server_addr(), start, p.latency, m)));
    ses.start_traffic(p);
    for (delay, d) in late {
        w.inject(*delay, d.src, d.dst, &d.data);
    }
    ses.settle(&[2, 3], start + p.faults.until + 50_000, 13_000).await;
    let end = now();
    let k = &ses.conns[0];
    let addrs = [k.client_addr, server_addr()];
    for d in 0..2 {
        let (a, b) = (k.logs[d].lock().unwrap(), k.logs[1 - d].lock().unwrap());
        let way = ["client to server", "server to client"][d];
        check_ordered(&a, &b, 2, None)
            .and_then(|_| check_reliable(&a, &b, None))
            .and_then(|_| check_sequenced(&a, &b, false))
            .and_then(|_| check_integrity(&a, &b, p.faults.none()))
            .map_err(|e| format!("{way}: {e}"))?;
    }
    ses.healthy()?;
    let raw = w.take_events();
    for e in raw.iter().filter(|e| e.sent) {
        if let Err(b) = Packet::decode(&e.d.data) {
            return Err(format!("{} emitted a datagram that is not RakNet ({}): {}", e.d.src, b.0, monitor::hex(&e.d.data)));
        }
    }
    if !late.is_empty() {
        return no_panics();
    }
    let evs = rebase(&raw, addrs);
    for d in 0..2 {
        let (me, peer) = (addrs[d], addrs[1 - d]);
        let r = monitor::well_formed(&evs, me, peer, mtu)
            .and_then(|_| monitor::acknowledgements(&evs, me, peer, end))
            .and_then(|_| monitor::retransmission(&evs, me, peer, end));
        r.map_err(|e| format!("numbers counted from the beginning of the continuation: {e}"))?;
    }
    no_panics()
}

async fn attempt(w: &World, ses: &Session, src: &mut Src, mtu: u16, at: &str, old: &[Dgram]) -> Case {
    let p = suffix_plan(src, mtu);
    src.note(p.describe());
    let late: Vec<(u64, Dgram)> = if !old.is_empty() && src.chance(1, 3) { src.list(1, 3, 8, |s, _| (s.int(0, 3000), s.pick(old))) } else { vec![] };
    if !late.is_empty() {
        src.note(format!("datagrams from long ago arrive again (ms, bytes): {:?}", late.iter().map(|l| (l.0, monitor::hex(&l.1.data))).collect::<Vec<_>>()));
    }
    match fork() {
        Fork::Child(slot) => slot.finish(suffix(w, ses, &p, mtu, &late).await),
        Fork::Parent(x) => x.wait(Duration::from_secs(120)).map_err(|e| format!("{at}: {e}")),
    }
}

/// `n` continuations from the present state; a failing one is shrunk.
async fn continuations(l: &Long, seed: u64, n: u64, at: &str) -> Case {
    let (w, ses, mtu, old) = (&l.w, &l.ses, l.mtu, &l.old[..]);
    for i in 0..n {
        let mut src = Src::seeded(mix(seed.wrapping_add(i)), false);
        let Err(msg) = attempt(w, ses, &mut src, mtu, at, old).await else { continue };
        let start = Instant::now();
        let mut best = (src.tape().to_vec(), msg, src.desc.clone());
        let mut size = best.0.len() / 2;
        while size >= 1 && start.elapsed() < Duration::from_secs(40) {
            let mut i = 0;
            while i + size <= best.0.len() && start.elapsed() < Duration::from_secs(40) {
                let mut t = best.0.clone();
                t.drain(i..i + size);
                let mut src = Src::replay(t.clone(), false);
                match attempt(w, ses, &mut src, mtu, at, old).await {
                    Err(m) => {
                        t.truncate(src.used());
                        best = (t, m, src.desc);
                    }
                    Ok(()) => i += size,
                }
            }
            size /= 2;
        }
        return Err(format!("{}\nthe continuation: {}", best.1, clip(&best.2, 3000)));
    }
    Ok(())
}

struct Long {
    w: World,
    ses: Session,
    mtu: u16,
    d: usize,
    /// datagrams of its past, both ways
    old: Vec<Dgram>,
}

impl Long {
    /// Send some messages and keep copies of the datagrams that carry and acknowledge them.
    async fn remember(&mut self, classes: &[u8]) -> Case {
        self.w.take_events();
        self.w.record(true);
        for c in classes {
            self.rush(*c, 3, 8, 1).await?;
        }
        self.w.record(false);
        self.old.extend(self.w.take_events().into_iter().filter(|e| e.sent).map(|e| e.d));
        Ok(())
    }
    async fn begin(w: World, mtu: u16, d: usize) -> Result<Long, String> {
        let plan = Plan { seed: 1, yields: 0, latency: 0, mtu, hosts: vec![2], acts: vec![], faults: Faults { until: 0, ..Default::default() }, same_port: false, keepalive: 0, own_loss: [None; 2] };
        let ses = establish(&w, &plan).await?;
        Ok(Long { w, ses, mtu, d, old: vec![] })
    }
    /// Carry `n` messages over a perfect network.
    async fn rush(&self, class: u8, n: u64, size: usize, batch: u64) -> Case {
        self.w.policy(None);
        self.w.latency(0);
        let k = &self.ses.conns[0];
        let got = Arc::new(AtomicU64::new(0));
        let bad = Arc::new(AtomicU64::new(0));
        let body = vec![0xfe; size];
        let (r, g, b) = (k.ends[1 - self.d].clone(), got.clone(), bad.clone());
        let h = tokio::spawn(async move {
            while let Ok(m) = r.recv().await {
                if m.len() != size || m[0] != 0xfe {
                    b.fetch_add(1, Ordering::Relaxed);
                }
                g.fetch_add(1, Ordering::Relaxed);
            }
        });
        let k = &k.ends[self.d];
        let mut done = 0;
        while done < n {
            let m = batch.min(n - done);
            for _ in 0..m {
                k.send(&body, rel(class)).await.map_err(|e| format!("send: {e:?}"))?;
            }
            done += m;
            let mut tries = 0;
            while got.load(Ordering::Relaxed) < done {
                tries += 1;
                if tries > 2000 {
                    return Err(format!(
                        "message {} of {n} of class {} over a perfect network was not delivered ({} arrived)",
                        done, CLASS[class as usize], got.load(Ordering::Relaxed)
                    ));
                }
                if tries < 20 {
                    tokio::task::yield_now().await
                } else {
                    sim::sleep(5).await
                }
            }
        }
        within_ok(k.flush()).await?;
        sim::sleep(300).await;
        if got.load(Ordering::Relaxed) != n {
            return Err(format!("{} messages were returned by recv though {n} were sent", got.load(Ordering::Relaxed)));
        }
        if bad.load(Ordering::Relaxed) != 0 {
            return Err("a message changed on its way".into());
        }
        h.abort();
        let _ = h.await;
        Ok(())
    }
    /// The next datagram, reliable, ordered and sequenced number of the direction, by sending one message of the class.
    async fn probe(&self, class: u8) -> Result<[u32; 4], String> {
        self.w.take_events();
        self.w.record(true);
        self.rush(class, 1, 8, 1).await?;
        self.w.record(false);
        let me = if self.d == 0 { self.ses.conns[0].client_addr } else { server_addr() };
        for e in self.w.take_events() {
            if e.sent && e.d.src == me {
                if let Ok(Packet::Frames { seq, frames, .. }) = Packet::decode(&e.d.data) {
                    let f = frames.iter().find(|f| f.body == [0xfe; 8]).ok_or("no such frame")?;
                    return Ok([seq + 1, f.reliable + 1, f.ordered + (class == 3) as u32, f.sequenced + 1]);
                }
            }
        }
        Err("the message was not seen on the wire".into())
    }
}

async fn within_ok(f: impl std::future::Future<Output = Result<(), rust_raknet::error::RaknetError>>) -> Case {
    sim::within(60_000, f).await.ok_or("flush did not return within 60 s")?.map_err(|e| format!("flush: {e:?}"))
}

fn c20_numbers(s: &mut Src) -> Case {
    let (class, d) = s.cycle(&[(3u8, 0usize), (3, 1), (4, 0), (2, 1), (4, 1), (0, 0), (1, 1), (3, 0)]);
    let seed = s.below(1 << 32);
    let which = match class {
        3 => s.pick(&[0usize, 1, 2]),
        4 => s.pick(&[0usize, 1, 3]),
        2 => s.pick(&[0usize, 1]),
        1 => s.pick(&[0usize, 3]),
        _ => 0,
    };
    // other messages first, so that the numbers do not wrap together
    let before: Vec<(u8, u64)> = s.list(0, 2, 4, |s, _| (s.pick(&[0u8, 2, 3, 4, 1]), s.int(1, 12)));
    let batch = s.pick(&[50u64, 20, 100]);
    let gaps: Vec<u64> = { let mut v = vec![s.int(12, 40), s.int(2, 11), s.int(0, 1)]; v.dedup(); v };
    let runs = if s.thorough { 2000 } else { 160 };
    let name = ["datagram", "reliable", "ordered", "sequenced"][which];
    s.note(format!(
        "{} sends {before:?} and then {} messages in batches of {batch} until its {name} number is {gaps:?} before 2^24; {runs} continuations from each of these states",
        ["client", "server"][d], CLASS[class as usize]
    ));
    let far = s.pick(&[150_000u64, 70_000, 1_000_000, 6_000_000]);
    let thorough = s.thorough;
    let reached = Arc::new(AtomicU64::new(0));
    let reached2 = reached.clone();
    let r = sim::run(seed, 0, 1 << 40, move |w| async move {
        let mut l = Long::begin(w.clone(), 1400, d).await?;
        for (c, n) in &before {
            l.rush(*c, *n, 8, *n).await?;
        }
        let target = (1u64 << 24) - 500;
        let at = l.probe(class).await?[which] as u64;
        let mut left = target - at;
        while left > 0 {
            if class != 0 && left <= far && l.old.is_empty() {
                l.remember(&[class]).await?;
                left -= 3;
            }
            if out_of_time(thorough) {
                return no_panics();
            }
            let n = left.min(100_000).min(if left > far { left - far } else { left });
            l.rush(class, n, 8, batch).await?;
            left -= n;
            progress();
        }
        reached.store(1, Ordering::Relaxed);
        for g in &gaps {
            let at = l.probe(class).await?[which] as u64;
            let want = (1u64 << 24) - g;
            if at < want {
                l.rush(class, want - at, 8, batch).await?;
            }
            continuations(&l, mix(seed ^ g), runs, &format!("with the {name} number {g} before 2^24")).await?;
        }
        // and beyond it over a perfect network
        l.rush(class, 700, 8, batch).await?;
        continuations(&l, mix(seed ^ 99), runs / 4, "with the 24-bit numbers wrapped").await?;
        no_panics()
    });
    let reached = reached2.load(Ordering::Relaxed) > 0;
    s.nontrivial(reached);
    s.label_if(!reached, "ended early on a slow machine");
    r
}

fn c20_groups(s: &mut Src) -> Case {
    let d = s.below(2) as usize;
    let seed = s.below(1 << 32);
    let mtu = s.pick(&[400u16, 1400]);
    let parts = s.pick(&[1usize, 2]);
    let gap = s.int(0, 14);
    let runs = if s.thorough { 200 } else { 40 };
    s.note(format!("mtu {mtu}; {} sends {} messages of {parts} fragment(s); {runs} continuations", ["client", "server"][d], 65_536 - gap));
    s.nontrivial(true);
    sim::run(seed, 0, 1 << 40, move |w| async move {
        let mut l = Long::begin(w.clone(), mtu, d).await?;
        let size = (mtu as usize - 60) * parts;
        l.remember(&[2, 3, 4, 1]).await?;
        l.rush(3, 65_536 - gap, size, 30).await?;
        continuations(&l, seed, runs, &format!("after {} fragmented messages", 65_536 - gap)).await?;
        l.rush(3, 40, size, 10).await?;
        continuations(&l, mix(seed), runs / 4, &format!("after {} fragmented messages", 65_576 - gap)).await
    })
}

// ------------------------------------------------------------------ a scripted peer at the wrap

fn c20_jump(s: &mut Src) -> Case {
    let client = s.chance(1, 2);
    let seed = s.below(1 << 32);
    let seq_gap = s.below(30) as u32;
    let sqd_gap = s.below(12) as u32;
    let split = 65_536 - s.below(6) as u32;
    let jump_seq = s.chance(3, 4);
    let jump_sqd = s.chance(2, 3);
    // (class, size in bytes or fragments, delay, second copy)
    let msgs: Vec<(u8, usize, u64, Option<u64>, u64)> = s.list(1, 25, 90, |s, _| {
        let class = s.pick(&[3u8, 2, 4, 1, 0, 5]);
        let size = s.usize(TAG, 60);
        let delay = match s.weighted(&[5, 2, 1]) {
            0 => 0,
            1 => s.below(80),
            _ => delay(s),
        };
        let copy = if s.chance(1, 6) { Some(delay + s.below(3000)) } else { None };
        (class, size, delay, copy, s.pick(&[0u64, 0, 0, 1, 5, 60]))
    });
    s.note(format!(
        "peer is {}; datagram numbers from {} ({}), sequenced ones {} before 2^24 ({}), groups from {split}; (class or fragmented, size, delay, copy, pause): {msgs:?}",
        if client { "the client" } else { "the server" }, seq_gap, jump_seq, sqd_gap, jump_sqd
    ));
    let n = msgs.iter().map(|m| if m.0 == 5 { m.1 / 20 + 1 } else { 1 }).sum::<usize>() as u32;
    let ns = msgs.iter().filter(|m| m.0 == 1 || m.0 == 4).count() as u32;
    s.nontrivial((jump_seq && n > seq_gap) || (jump_sqd && ns > sqd_gap) || msgs.iter().filter(|m| m.0 == 5).count() as u32 > 65_536 - split);
    s.label_if(jump_seq && n > seq_gap, "datagram number wraps");
    s.label_if(jump_sqd && ns > sqd_gap, "sequenced number wraps");
    s.label_if(msgs.iter().filter(|m| m.0 == 5).count() as u32 > 65_536 - split, "group id wraps");
    sim::run(seed, 0, 400_000, move |w| async move {
        let (mut p, sock, lib) = if client {
            let mut l = listener(&w).await?;
            let mut p = Peer::new(&w, SocketAddr::new(host(2), 5555), server_addr());
            let (r, k) = tokio::join!(p.connect(10, 1400), sim::within(20_000, l.accept()));
            r?;
            let k = k.ok_or("accept did not return")?.map_err(|e| format!("accept: {e:?}"))?;
            std::mem::forget(l);
            (p, k, server_addr())
        } else {
            let mut p = Peer::new(&w, server_addr(), server_addr());
            let a = server_addr();
            let (r, k) = tokio::join!(p.serve(1400), sim::within(20_000, w.on(host(2), RaknetSocket::connect(&a))));
            r?;
            let k = k.ok_or("connect did not return")?.map_err(|e| format!("connect: {e:?}"))?;
            let lib = p.remote;
            (p, k, lib)
        };
        let me = p.sock.addr;
        let log: Log = Default::default();
        collect(Arc::new(sock), log.clone());
        p.split = split as u16;
        // the peer's own earlier datagrams were lost, as far as the library can tell
        let steps: &[u32] = &[0x60_0000, 0xc0_0000];
        for st in steps {
            if jump_seq {
                p.seq = *st;
            }
            if jump_sqd {
                p.sqd = *st;
                p.send_msg(4, vec![0xfe, 9]);
            } else {
                p.send_msg(2, vec![0xfe, 9]);
            }
            p.drain(120).await;
        }
        if jump_seq {
            p.seq = 0x100_0000 - seq_gap;
            p.seq &= M;
        }
        if jump_sqd {
            p.sqd = (0x100_0000 - sqd_gap) & M;
        }
        // one message takes the library over the last gap, which is not reported on below
        p.send_msg(2, vec![0xfe, 9]);
        p.drain(300).await;
        w.take_events();
        w.record(true);
        let mut sent: Vec<(u8, Vec<u8>)> = vec![];
        for (i, (class, size, delay, copy, pause)) in msgs.iter().enumerate() {
            let class1 = if *class == 5 { 3 } else { *class };
            let body = payload(0, 0, 0, i, class1, *size);
            let fs: Vec<Frame> = if *class == 5 { p.fragments(&body, 20) } else { vec![p.frame(*class, body.clone())] };
            for f in fs {
                let (_, d) = p.datagram(&[f]);
                w.inject(*delay, me, lib, &d);
                if let Some(c) = copy {
                    w.inject(*c, me, lib, &d);
                }
            }
            sent.push((class1, body));
            p.drain(*pause).await;
        }
        p.drain(8500).await;
        let end = now();
        let evs = w.take_events();
        let l = log.lock().unwrap();
        let got: Vec<&Vec<u8>> = l.recvs.iter().map(|r| &r.1).filter(|m| m[..] != [0xfe, 9]).collect();
        if let Some(e) = &l.recv_err {
            return Err(format!("recv failed: {e:?}"));
        }
        let want: Vec<&Vec<u8>> = sent.iter().filter(|x| x.0 == 3).map(|x| &x.1).collect();
        let have: Vec<&Vec<u8>> = got.iter().filter(|m| m[1] == 3).copied().collect();
        if want != have {
            let i = (0..want.len().max(have.len())).find(|i| want.get(*i) != have.get(*i)).unwrap();
            return Err(format!("ordered message {i} should be {:?}, got {:?}", want.get(i).map(|m| brief(m)), have.get(i).map(|m| brief(m))));
        }
        for (c, b) in sent.iter().filter(|x| x.0 == 2 || x.0 == 0) {
            let n = got.iter().filter(|m| **m == b).count();
            if n == 0 || (n > 1 && *c == 2) {
                return Err(format!("{} was delivered {n} times", brief(b)));
            }
        }
        let pos = |b: &[u8]| sent.iter().position(|x| x.1 == b);
        let mut last = None;
        for m in &got {
            let Some(i) = pos(m) else { return Err(format!("recv returned a message nobody sent: {}", brief(m))) };
            if m[1] == 1 || m[1] == 4 {
                if last.map(|l| l >= i).unwrap_or(false) {
                    return Err(format!("{} was returned after a newer sequenced message", brief(m)));
                }
                last = Some(i);
            }
        }
        if let Some(newest) = sent.iter().rposition(|x| x.0 == 1 || x.0 == 4) {
            if last != Some(newest) {
                return Err(format!("the newest sequenced message {} was not returned, though it arrived", brief(&sent[newest].1)));
            }
        }
        let evs: Vec<Ev> = rebase_injected(&evs, me, lib, if jump_seq { (0x100_0000 - seq_gap + 1) & M } else { u32::MAX });
        monitor::acknowledgements(&evs, lib, me, end).map_err(|e| format!("numbers counted from the beginning of the continuation: {e}"))?;
        no_panics()
    })
}

/// Like `rebase` for the datagrams of a peer whose first number is known (or the lowest that arrived).
fn rebase_injected(evs: &[Ev], peer: SocketAddr, lib: SocketAddr, first: u32) -> Vec<Ev> {
    let num = |e: &Ev| match Packet::decode(&e.d.data) {
        Ok(Packet::Frames { seq, .. }) => Some(seq),
        _ => None,
    };
    let base = if first != u32::MAX { first } else { lowest(evs.iter().filter(|e| !e.sent && e.d.src == peer).filter_map(num)) };
    let sub = |a: u32| a.wrapping_sub(base) & M;
    evs.iter()
        .map(|e| {
            let mut e = e.clone();
            let p = match Packet::decode(&e.d.data) {
                Ok(Packet::Frames { id, seq, frames }) if e.d.src == peer => Packet::Frames { id, seq: sub(seq), frames },
                Ok(Packet::Ack(r)) if e.d.src == lib => Packet::Ack(r.into_iter().map(|(x, y)| (sub(x), sub(y))).collect()),
                Ok(Packet::Nack(r)) if e.d.src == lib => Packet::Nack(r.into_iter().map(|(x, y)| (sub(x), sub(y))).collect()),
                _ => return e,
            };
            e.d.data = p.encode().into();
            e
        })
        .collect()
}
