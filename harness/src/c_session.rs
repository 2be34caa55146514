//! C01-C05: what send and recv promise, over generated sessions and faults.
use crate::c_wire;
use crate::engine::{no_panics, Case, Check, Rng, Src, Sub};
use crate::scenario::*;
use crate::sim::{self, now};
use crate::wire;
use std::future::Future;
use std::pin::Pin;

pub const CHECKS: &[Check] = &[
    Check {
        id: "C01",
        subs: &[
            Sub {
                name: "faults",
                run: c01,
                quick: 60_000,
                thorough: 60_000,
                rule: "a session of ReliableOrdered and other messages over a faulty network; non-trivial if at least two ReliableOrdered messages were sent and the network applied at least one fault",
            },
            Sub {
                name: "big",
                run: c01_big,
                quick: 6000,
                thorough: 60_000,
                rule: "one message of up to 1200 fragments among others over a faulty network; non-trivial if it needed more than 8 fragments and was not the only ReliableOrdered one",
            },
            Sub {
                name: "counts",
                run: c01_counts,
                quick: 400,
                thorough: 6000,
                rule: "a message of up to 70 000 fragments to or from a scripted peer, its fragments in any order, repeated, several in a datagram; non-trivial if there were more than 255",
            },
            Sub {
                name: "huge",
                run: c01_huge,
                quick: 24,
                thorough: 600,
                rule: "one message of 9000 fragments over a faulty network or of 20 000 (70 000 thorough) over a perfect one; non-trivial if it was not the only ReliableOrdered one",
            },
            Sub {
                name: "bursts",
                run: c01_bursts,
                quick: 2500,
                thorough: 3000,
                rule: "runs of up to 1000 messages (3000 thorough; 4200 or 9000 in one case of twelve), whole or fragmented, sent without a pause over a faulty network; non-trivial if one direction sent more than 256 ReliableOrdered messages",
            },
            Sub {
                name: "lossy",
                run: c01_lossy,
                quick: 3000,
                thorough: 60_000,
                rule: "a session whose ends discard part of what they send by set_loss_rate (about 20 % on one side or 10 % on both); non-trivial if ReliableOrdered messages were sent each way",
            },
            Sub {
                name: "starved",
                run: c01_starved,
                quick: 8000,
                thorough: 60000,
                rule: "single reliable frames, or all data or acknowledgements of one direction, lost without exception for up to three minutes while a ReliableOrdered session goes on around them; non-trivial if something was lost for more than 15 s",
            },
        ],
    },
    Check {
        id: "C02",
        subs: &[
            Sub {
                name: "faults",
                run: c02,
                quick: 60_000,
                thorough: 60_000,
                rule: "a session of Reliable and other messages over a faulty network; non-trivial if at least one Reliable message was sent and the network applied at least one fault",
            },
            Sub {
                name: "bursts",
                run: c02_bursts,
                quick: 2500,
                thorough: 3000,
                rule: "runs of up to 1000 messages (3000 thorough; 4200 or 9000 in one case of twelve) sent without a pause over a faulty network; non-trivial if one direction sent more than 256 Reliable messages",
            },
            Sub {
                name: "lossy",
                run: c02_lossy,
                quick: 3000,
                thorough: 60_000,
                rule: "a session whose ends discard part of what they send by set_loss_rate (about 20 % on one side or 10 % on both); non-trivial if Reliable messages were sent each way",
            },
            Sub {
                name: "starved",
                run: c02_starved,
                quick: 8000,
                thorough: 60000,
                rule: "single reliable frames, or all data or acknowledgements of one direction, lost without exception for up to three minutes while a Reliable session goes on around them; non-trivial if something was lost for more than 15 s",
            },
        ],
    },
    Check {
        id: "C03",
        subs: &[
            Sub {
                name: "faults",
                run: c03,
                quick: 60_000,
                thorough: 60_000,
                rule: "a session rich in sequenced messages over a faulty network; non-trivial if one direction carried at least two sequenced messages and the network applied at least one fault",
            },
            Sub {
                name: "clean",
                run: c03_clean,
                quick: 30_000,
                thorough: 15_000,
                rule: "sequenced messages over a network that may only duplicate; non-trivial if one direction carried at least three sequenced messages",
            },
            Sub {
                name: "clean bursts",
                run: c03_clean_bursts,
                quick: 4000,
                thorough: 6000,
                rule: "runs of up to 1000 (4200) messages of several classes sent without a pause over a network that may only duplicate; non-trivial if one direction sent more than 100 sequenced messages",
            },
            Sub {
                name: "bursts",
                run: c03_bursts,
                quick: 2000,
                thorough: 2000,
                rule: "runs of up to 1000 messages (3000 thorough; 4200 or 9000 in one case of twelve), most of them sequenced, sent without a pause over a faulty network; non-trivial if one direction sent more than 256 sequenced messages",
            },
            Sub {
                name: "starved",
                run: c03_starved,
                quick: 8000,
                thorough: 60000,
                rule: "single reliable frames, or all data or acknowledgements of one direction, lost without exception for up to three minutes while a sequenced session goes on around them; non-trivial if something was lost for more than 15 s",
            },
        ],
    },
    Check {
        id: "C04",
        subs: &[
            Sub {
                name: "many",
                run: c04,
                quick: 40_000,
                thorough: 40_000,
                rule: "two to five concurrent connections, some sharing a host or a port number, with all classes and faults; non-trivial if at least two connections carried traffic",
            },
            Sub {
                name: "clean",
                run: c04_clean,
                quick: 30_000,
                thorough: 15_000,
                rule: "all classes over a perfect network; non-trivial if at least one Unreliable message was sent",
            },
            Sub {
                name: "clean bursts",
                run: c04_clean_bursts,
                quick: 4000,
                thorough: 6000,
                rule: "runs of up to 1000 (4200) messages of several classes sent without a pause over a perfect network; non-trivial if one direction sent more than 100 Unreliable messages",
            },
            crate::c_crowd::C04,
        ],
    },
    Check {
        id: "C05",
        subs: &[
            Sub {
                name: "admission",
                run: c05,
                quick: 60_000,
                thorough: 30_000,
                rule: "sends of every class and size around the limits of a generated MTU, with rejected ones in between; non-trivial if at least one send must be rejected and one accepted message follows it",
            },
            Sub {
                name: "huge",
                run: c05_huge,
                quick: 400,
                thorough: 10_000,
                rule: "sends of up to 16 MB around the powers of two and multiples of the fragment size; non-trivial if one was of more than 65535 bytes or 255 fragments",
            },
        ],
    },
];

/// `applied`: number of datagrams the fault policy treated specially.
pub fn count_faults(p: sim::Policy, counter: std::sync::Arc<std::sync::atomic::AtomicU64>, latency: u64) -> sim::Policy {
    let mut p = p;
    Box::new(move |d| {
        let v = p(d);
        if v.len() != 1 || v[0].0 != latency {
            counter.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        }
        v
    })
}

type Oracle = Box<dyn Fn(&Session, u64) -> Case>;

fn session(s: &mut Src, plan: Plan, wait: &'static [u8], linger: u64, applied: std::sync::Arc<std::sync::atomic::AtomicU64>, oracle: Oracle) -> Case {
    s.note(plan.describe());
    let limit = 250_000 + plan.faults.until;
    sim::run(plan.seed, plan.yields, limit, move |w| -> Pin<Box<dyn Future<Output = Case>>> {
        Box::pin(async move {
            let ses = establish(&w, &plan).await?;
            let mtu = if plan.mtu != 1400 { Some(plan.mtu) } else { None };
            let pol = plan.faults.policy(sim::server_addr(), ses.start, plan.latency, mtu);
            w.policy(Some(count_faults(pol, applied.clone(), plan.latency)));
            ses.start_traffic(&plan);
            let deadline = ses.start + plan.faults.until + 50_000;
            ses.settle(wait, deadline, linger).await;
            oracle(&ses, now())?;
            ses.healthy()?;
            no_panics()
        })
    })
}

fn mtus(s: &mut Src) -> u16 {
    match s.weighted(&[4, 2, 2]) {
        0 => 1400,
        1 => s.pick(&[400, 576, 1200, 1399]),
        _ => s.int(400, 1400) as u16,
    }
}

fn both(ses: &Session, f: impl Fn(&EndLog, &EndLog) -> Case) -> Case {
    for c in &ses.conns {
        for d in 0..2 {
            f(&c.logs[d].lock().unwrap(), &c.logs[1 - d].lock().unwrap()).map_err(|e| format!("{} to {}: {e}", ["client", "server"][d], ["server", "client"][d]))?;
        }
    }
    Ok(())
}

fn labels(s: &mut Src, p: &Plan) {
    s.label_if(p.faults.none(), "no faults");
    s.label_if(p.faults.loss != [0, 0], "random loss");
    s.label_if(!p.faults.blackouts.is_empty(), "blackout");
    s.label_if(!p.faults.hits.is_empty(), "targeted faults");
    s.label_if(p.faults.hits.iter().any(|h| h.1 == Kind::Ack && matches!(h.3, Hit::Drop)), "an ACK dropped");
    s.label_if(p.faults.dup > 0 || p.faults.hits.iter().any(|h| matches!(h.3, Hit::Dup(_))), "duplication");
    s.label_if(p.faults.jitter > 0 || p.faults.hits.iter().any(|h| matches!(h.3, Hit::Delay(_))), "delay/reordering");
    s.label_if(p.sends().any(|(c, n)| c == 3 && n >= p.mtu as usize - 60), "fragmented");
    s.label_if(p.yields > 0, "perturbed schedule");
}

fn c01(s: &mut Src) -> Case {
    let others = s.weighted(&[2, 2]) == 1;
    let classes = if others { vec![3, 3, 3, 0, 1, 2, 4] } else { vec![3] };
    let mtu = mtus(s);
    let t = Traffic { classes, tiny: Some(3), mtu, max_big: 12_000, avg: 7, max: 40, flushes: true };
    let plan = Plan::gen(s, &t, 2, 1, true);
    labels(s, &plan);
    let applied = std::sync::Arc::new(std::sync::atomic::AtomicU64::new(0));
    let ro = plan.sends().filter(|x| x.0 == 3).count();
    let r = session(s, plan, &[3], 7000, applied.clone(), Box::new(|ses, _| both(ses, |a, b| check_ordered(a, b, 1, Some(3)))));
    s.nontrivial(ro >= 2 && applied.load(std::sync::atomic::Ordering::Relaxed) > 0);
    r
}

/// A session with one message of so many fragments.
fn c01_large(s: &mut Src, least: u64, most: u64, faulty: bool, mtu: u16, avg: usize) -> Case {
    let t = Traffic { classes: vec![3, 3, 3, 2], tiny: None, mtu, max_big: 20_000, avg, max: 8, flushes: true };
    let mut plan = Plan::gen(s, &t, 1, 1, faulty);
    let lim = mtu as usize - 60;
    let n = s.int(least, most) as usize;
    let size = n * lim - s.pick(&[0, 1, lim - 1, lim / 2]);
    if !faulty {
        plan.latency = 1;
        plan.yields = 0;
    }
    let acts = &mut plan.acts[0][s.below(2) as usize][0];
    let at = s.usize(0, acts.len());
    acts.insert(at, Act::Send { class: 3, size });
    labels(s, &plan);
    let count = plan.sends().filter(|x| x.0 == 3).count();
    s.nontrivial(n > 8 && count > 1);
    session(s, plan, &[3], 7000, Default::default(), Box::new(|ses, _| both(ses, |a, b| check_ordered(a, b, 1, None))))
}

fn c01_big(s: &mut Src) -> Case {
    let mtu = mtus(s);
    let most = s.pick(&[20, 20, 100, 400, 1200]);
    c01_large(s, most / 2, most, true, mtu, 3)
}

fn c01_counts(s: &mut Src) -> Case {
    let role = c_wire::role(s);
    let mtu = s.pick(&[400u16, 1400]);
    let seed = s.below(1 << 32);
    let most = match s.weighted(&[12, 4, 1]) {
        0 => s.pick(&[300usize, 256, 512, 1100]),
        1 => s.pick(&[2048, 4096, 8192]),
        _ => s.pick(&[32_768, 65_536, 70_000]),
    };
    let n = match s.weighted(&[2, 1]) {
        0 => most - 1 + s.usize(0, 2),
        _ => s.usize(2, most),
    };
    let to_lib = s.chance(1, 2);
    let chunk = s.pick(&[1usize, 7, 20]);
    let per = s.pick(&[40usize, 8, 1]);
    let order = s.weighted(&[2, 1, 2, 2]);
    let window = s.pick(&[4usize, 64, 1000]);
    let dup = s.pick(&[0u64, 0, 100, 500]);
    let salt = s.below(1 << 32);
    let (before, after) = (s.usize(0, 2), s.usize(0, 2));
    let lim = mtu as usize - 60;
    let size = if to_lib { (n - 1) * chunk + 1 + s.usize(0, chunk - 1) } else { (n - 1) * lim + s.usize(1, lim) };
    s.note(format!(
        "library is the {role:?}, mtu {mtu}; {} {before} short messages, one of {n} fragments ({size} bytes), {after} short ones; {}",
        if to_lib { "it is sent" } else { "it sends" },
        if to_lib { format!("fragment order {} (window {window}), {dup} per mille repeated, {per} per datagram, salt {salt}", ["as cut", "reversed", "mixed within a window", "mixed"][order]) } else { String::new() }
    ));
    s.nontrivial(n > 255);
    s.label(if to_lib { "received" } else { "sent" });
    s.label_if(n > 65_535, "more than 65535 fragments");
    sim::run(seed, 0, 200_000, move |w| async move {
        let (lib, mut p) = c_wire::scripted(&w, role, 10, mtu).await?;
        let msg = |i: usize| payload(0, 0, 0, i, 3, if i == before { size } else { TAG + i });
        let total = before + 1 + after;
        if !to_lib {
            p.auto_ack = false;
            let first = p.got.len();
            for i in 0..total {
                lib.sock.send(&msg(i), rel(3)).await.map_err(|e| format!("send failed: {e:?}"))?;
                // the next message waits for the acknowledgement of this one
                let end = now() + 3000;
                while now() < end && p.got.len() == first + i {
                    let Some(rx) = p.next(1000).await else { break };
                    if let Ok(wire::Packet::Frames { seq, frames, .. }) = rx.pkt {
                        if frames.iter().all(|f| f.split.is_none()) {
                            p.send(&wire::ack(&[(seq, seq)]));
                        }
                    }
                }
                if p.got.len() != first + i + 1 || p.got[first + i] != msg(i) {
                    return Err(format!(
                        "message {i} of {} bytes arrived at the peer as {:?}",
                        msg(i).len(),
                        p.got[first..].iter().skip(i).map(|m| format!("{} ({} bytes)", brief(m), m.len())).collect::<Vec<_>>()
                    ));
                }
                if i == before {
                    break;
                }
            }
            return no_panics();
        }
        let mut rng = Rng::new(salt);
        let mut frames = vec![];
        for i in 0..before {
            frames.push(p.frame(3, msg(i)));
        }
        let at = frames.len();
        frames.extend(p.fragments(&msg(before), chunk));
        for i in 0..after {
            frames.push(p.frame(3, msg(before + 1 + i)));
        }
        let group = &mut frames[at..at + n];
        match order {
            0 => {}
            1 => group.reverse(),
            k => {
                let wd = if k == 2 { window } else { n };
                for i in 0..n {
                    let j = i + rng.next() as usize % wd.min(n - i);
                    group.swap(i, j);
                }
            }
        }
        let mut sent: Vec<Vec<wire::Frame>> = frames.chunks(per).map(|c| c.to_vec()).collect();
        for i in 0..sent.len() {
            if rng.next() % 1000 < dup {
                let c = sent[i].clone();
                sent.push(c);
            }
        }
        for (i, c) in sent.iter().enumerate() {
            p.send_frames(c);
            if i % 64 == 63 {
                sim::sleep(1).await;
            }
        }
        for i in 0..total {
            match sim::within(5000, lib.sock.recv()).await {
                Some(Ok(m)) if m == msg(i) => {}
                Some(Ok(m)) => return Err(format!("recv returned {} ({} bytes) for message {i} of {} bytes", brief(&m), m.len(), msg(i).len())),
                Some(Err(e)) => return Err(format!("recv of message {i} failed: {e:?}")),
                None => return Err(format!("message {i} of {} bytes was not delivered within 5 s though all its fragments arrived", msg(i).len())),
            }
        }
        if let Some(Ok(m)) = sim::within(500, lib.sock.recv()).await {
            return Err(format!("recv returned one message too many: {} ({} bytes)", brief(&m), m.len()));
        }
        no_panics()
    })
}

fn c01_huge(s: &mut Src) -> Case {
    let mtu = s.pick(&[400, 400, 1400]);
    // every lost datagram costs time proportional to what is outstanding: the largest go undisturbed
    let most = s.pick(&[9000, 9000, 20_000, if s.thorough { 70_000 } else { 20_000 }]);
    c01_large(s, most, most, most <= 9000 || s.thorough, mtu, 1)
}

fn c02(s: &mut Src) -> Case {
    let others = s.weighted(&[2, 2]) == 1;
    let classes = if others { vec![2, 2, 2, 0, 1, 3, 4] } else { vec![2] };
    let mtu = mtus(s);
    let t = Traffic { classes, tiny: Some(2), mtu, max_big: 6000, avg: 6, max: 40, flushes: true };
    let plan = Plan::gen(s, &t, 2, 1, true);
    labels(s, &plan);
    let applied = std::sync::Arc::new(std::sync::atomic::AtomicU64::new(0));
    let n = plan.sends().filter(|x| x.0 == 2).count();
    let r = session(s, plan, &[2], 7000, applied.clone(), Box::new(|ses, _| both(ses, |a, b| check_reliable(a, b, Some(2)))));
    s.nontrivial(n >= 1 && applied.load(std::sync::atomic::Ordering::Relaxed) > 0);
    r
}

fn bursts(s: &mut Src, classes: &[u8], wait: &'static [u8], count: &[u8], linger: u64, oracle: Oracle) -> Case {
    let mtu = s.pick(&[400, 1400, 576]);
    let most = if s.chance(1, 12) { s.pick(&[4200, 9000]) } else if s.thorough { 3000 } else { 1000 };
    let mut plan = Plan::bursts(s, classes, mtu, most);
    if most > 4000 && s.chance(1, 2) {
        // all of a long run queues behind one of its first frames
        let dir = s.usize(0, 1);
        let class = s.pick(count);
        // the time an ordered run takes grows with the square of its length
        let n = most.min(if class == 3 { 4300 } else { 9000 }) - s.usize(0, 60);
        plan.acts[0][dir][0].splice(0..0, std::iter::repeat(Act::Send { class, size: TAG }).take(n));
        let first = s.int(3, 12) as u32;
        plan.faults.holes.push((dir as u8, first, first, s.int(200, 4000)));
        s.label("a long run behind one frame");
    }
    labels(s, &plan);
    let n = plan.acts.iter().flatten().map(|d| d.iter().flatten().filter(|a| matches!(a, Act::Send { class, .. } if count.contains(class))).count()).max().unwrap_or(0);
    s.nontrivial(n > 256);
    session(s, plan, wait, linger, Default::default(), oracle)
}

fn c01_bursts(s: &mut Src) -> Case {
    let classes = s.pick(&[vec![3], vec![3, 2, 3, 0], vec![3, 1, 4]]);
    bursts(s, &classes, &[3], &[3], 4000, Box::new(|ses, _| both(ses, |a, b| check_ordered(a, b, 1, None))))
}

fn c02_bursts(s: &mut Src) -> Case {
    let classes = s.pick(&[vec![2], vec![2, 3, 2], vec![2, 0, 2], vec![2, 4]]);
    bursts(s, &classes, &[2], &[2], 4000, Box::new(|ses, _| both(ses, |a, b| check_reliable(a, b, None))))
}

fn c01_lossy(s: &mut Src) -> Case {
    lossy(s, &[3, 3, 3, 2, 4, 0], 3, &[3], Box::new(|ses, _| both(ses, |a, b| check_ordered(a, b, 1, Some(3)))))
}

fn c02_lossy(s: &mut Src) -> Case {
    lossy(s, &[2, 2, 2, 3, 1], 2, &[2], Box::new(|ses, _| both(ses, |a, b| check_reliable(a, b, Some(2)))))
}

fn lossy(s: &mut Src, classes: &[u8], class: u8, wait: &'static [u8], oracle: Oracle) -> Case {
    let t = Traffic { classes: classes.to_vec(), tiny: Some(class), mtu: mtus(s), max_big: 3000, avg: 5, max: 25, flushes: true };
    let mut plan = Plan::gen(s, &t, 1, 1, false);
    plan.faults = Faults { until: 0, ..Default::default() };
    plan.own_loss = s.pick(&[[Some(8), None], [None, Some(8)], [Some(9), Some(9)], [Some(8), Some(10)]]);
    s.note(format!("set_loss_rate at the client and the server: {:?}", plan.own_loss));
    let n = |d: usize| plan.acts[0][d].iter().flatten().filter(|a| matches!(a, Act::Send { class: c, .. } if *c == class)).count();
    s.nontrivial(n(0) > 0 && n(1) > 0);
    session(s, plan, wait, 4000, Default::default(), oracle)
}

fn clean_bursts(s: &mut Src, classes: &[u8], dups: bool, count: &[u8], oracle: Oracle) -> Case {
    let mtu = s.pick(&[400, 1400, 576]);
    let most = if s.chance(1, 16) { 4200 } else { 1000 };
    let mut plan = Plan::bursts(s, classes, mtu, most);
    plan.faults = Faults::default();
    if dups && s.chance(1, 4) {
        plan.faults = Faults { until: 4000, dup: s.pick(&[100, 500, 1000]), dup_delay: delay(s), salt: s.below(1 << 32), ..Default::default() };
        s.label("duplicating");
    }
    if s.chance(1, 3) {
        // something is outstanding for long
        plan.latency = s.pick(&[200, 600]);
    }
    labels(s, &plan);
    let n = plan.acts.iter().flatten().map(|d| d.iter().flatten().filter(|a| matches!(a, Act::Send { class, .. } if count.contains(class))).count()).max().unwrap_or(0);
    s.nontrivial(n > 100);
    session(s, plan, &[2, 3, 4], 3000, Default::default(), oracle)
}

fn c03_clean_bursts(s: &mut Src) -> Case {
    let classes = s.pick(&[vec![1, 3], vec![4, 1, 2], vec![1, 4], vec![1, 0, 3, 4]]);
    clean_bursts(s, &classes, true, &[1, 4], Box::new(|ses, _| both(ses, |a, b| check_sequenced(a, b, true))))
}

fn c04_clean_bursts(s: &mut Src) -> Case {
    let classes = s.pick(&[vec![0, 3], vec![0, 1, 2], vec![0, 4], vec![1, 0, 3, 2]]);
    clean_bursts(s, &classes, false, &[0], Box::new(|ses, _| both(ses, |a, b| check_integrity(a, b, true))))
}

fn c03_bursts(s: &mut Src) -> Case {
    let classes = s.pick(&[vec![4], vec![1], vec![1, 4], vec![4, 3, 1], vec![4, 2]]);
    bursts(s, &classes, &[2, 3, 4], &[1, 4], 8000, Box::new(|ses, _| both(ses, |a, b| check_sequenced(a, b, false))))
}

fn starved(s: &mut Src, classes: Vec<u8>, wait: &'static [u8], linger: u64, oracle: Oracle) -> Case {
    let mtu = s.pick(&[1400, 400, 576]);
    let t = Traffic { classes, tiny: None, mtu, max_big: 30_000, avg: 8, max: 40, flushes: true };
    let burst = s.pick(&[50, 400, 1500]);
    let plan = Plan::starved(s, &t, burst);
    labels(s, &plan);
    let f = &plan.faults;
    s.label_if(!f.holes.is_empty(), "single frames starved");
    s.label_if(f.mute.is_some(), "a kind of datagram starved");
    let long = f.holes.iter().any(|h| h.3 > 15_000) || f.mute.iter().any(|m| m.3 > 15_000);
    let applied = std::sync::Arc::new(std::sync::atomic::AtomicU64::new(0));
    let r = session(s, plan, wait, linger, applied.clone(), oracle);
    s.nontrivial(long && applied.load(std::sync::atomic::Ordering::Relaxed) > 0);
    r
}

fn c01_starved(s: &mut Src) -> Case {
    let classes = s.pick(&[vec![3], vec![3, 2, 3, 0], vec![3, 1, 4, 2]]);
    starved(s, classes, &[3], 13_000, Box::new(|ses, _| both(ses, |a, b| check_ordered(a, b, 1, None))))
}

fn c02_starved(s: &mut Src) -> Case {
    let classes = s.pick(&[vec![2], vec![2, 3, 2], vec![2, 0, 4, 1]]);
    starved(s, classes, &[2], 13_000, Box::new(|ses, _| both(ses, |a, b| check_reliable(a, b, None))))
}

fn c03_starved(s: &mut Src) -> Case {
    let classes = s.pick(&[vec![4], vec![1, 4], vec![4, 3, 1], vec![4, 2]]);
    starved(s, classes, &[2, 3, 4], 14_000, Box::new(|ses, _| both(ses, |a, b| check_sequenced(a, b, false))))
}

fn seq_traffic(mtu: u16, s: &mut Src) -> Traffic {
    let classes = s.pick(&[vec![1, 4], vec![4], vec![1], vec![1, 4, 3, 2, 0], vec![4, 3]]);
    Traffic { classes, tiny: None, mtu, max_big: 4000, avg: 10, max: 50, flushes: true }
}

fn many_seq(p: &Plan, n: usize) -> bool {
    p.acts.iter().flatten().any(|d| d.iter().flatten().filter(|a| matches!(a, Act::Send { class: 1 | 4, .. })).count() >= n)
}

fn c03(s: &mut Src) -> Case {
    let mtu = mtus(s);
    let t = seq_traffic(mtu, s);
    let plan = Plan::gen(s, &t, 1, 1, true);
    labels(s, &plan);
    let applied = std::sync::Arc::new(std::sync::atomic::AtomicU64::new(0));
    let m = many_seq(&plan, 2);
    // every frame of the other reliable classes must be through before the newest sequenced one is certain
    let r = session(s, plan, &[2, 3, 4], 14_000, applied.clone(), Box::new(|ses, _| both(ses, |a, b| check_sequenced(a, b, false))));
    s.nontrivial(m && applied.load(std::sync::atomic::Ordering::Relaxed) > 0);
    r
}

fn c03_clean(s: &mut Src) -> Case {
    let mtu = mtus(s);
    let t = seq_traffic(mtu, s);
    let mut plan = Plan::gen(s, &t, 1, 1, false);
    if s.chance(1, 3) {
        plan.faults = Faults { until: 4000, dup: s.pick(&[100, 500, 1000]), dup_delay: delay(s), salt: s.below(1 << 32), ..Default::default() };
        s.label("duplicating");
    }
    labels(s, &plan);
    s.nontrivial(many_seq(&plan, 3));
    session(s, plan, &[2, 3, 4], 3000, Default::default(), Box::new(|ses, _| both(ses, |a, b| check_sequenced(a, b, true))))
}

fn c04(s: &mut Src) -> Case {
    let mtu = mtus(s);
    let t = Traffic { classes: vec![3, 0, 1, 2, 4, 3], tiny: None, mtu, max_big: 5000, avg: 5, max: 20, flushes: false };
    let plan = Plan::gen(s, &t, 5, 1, true);
    labels(s, &plan);
    s.label_if(plan.same_port, "clients share a port number");
    let used = plan.acts.iter().filter(|a| a.iter().flatten().flatten().any(|x| matches!(x, Act::Send { .. }))).count();
    s.nontrivial(used >= 2);
    session(
        s,
        plan,
        &[2, 3],
        5000,
        Default::default(),
        Box::new(|ses, _| {
            for c in &ses.conns {
                let peer = c.ends[0].peer_addr().unwrap();
                if peer != sim::server_addr() {
                    return Err(format!("client reports peer {peer}"));
                }
            }
            both(ses, |a, b| check_integrity(a, b, false))
        }),
    )
}

fn c04_clean(s: &mut Src) -> Case {
    let mtu = mtus(s);
    let t = Traffic { classes: vec![0, 0, 3, 1, 2, 4], tiny: None, mtu, max_big: 5000, avg: 8, max: 60, flushes: true };
    let plan = Plan::gen(s, &t, 2, 1, false);
    labels(s, &plan);
    s.nontrivial(plan.sends().any(|x| x.0 == 0));
    session(s, plan, &[2, 3, 4], 3000, Default::default(), Box::new(|ses, _| both(ses, |a, b| check_integrity(a, b, true))))
}

/// What send must say about a message, as documented.
fn verdict(data: &[u8], class: u8, mtu: u16) -> Option<&'static str> {
    let lim = mtu as usize - 60;
    if data.is_empty() || data[0] != 0xfe {
        Some("PacketHeaderError")
    } else if class != 3 && data.len() > lim {
        Some("PacketSizeExceedMTU")
    } else if class != 3 && data.len() == lim {
        // "must be less than MTU - 60 ... otherwise": at the limit itself either answer is tolerated
        Some("either")
    } else {
        None
    }
}

fn c05(s: &mut Src) -> Case {
    let mtu = mtus(s);
    let lim = mtu as usize - 60;
    let seed = s.below(1 << 32);
    let yields = s.pick(&[0, 0, 64]);
    let msgs: Vec<(usize, u8, Vec<u8>, u64)> = s.list(1, 8, 30, |s, i| {
        let side = s.below(2) as usize;
        let class = s.pick(&[3u8, 0, 1, 2, 4]);
        let size = match s.weighted(&[3, 3, 2, 1, 1]) {
            0 => s.usize(TAG, 60),
            1 => lim - 2 + s.usize(0, 5),
            2 => s.usize(lim + 1, lim + 70),
            3 => s.usize(lim + 1, 9000),
            _ => s.usize(0, 3),
        };
        let mut d = payload(0, side, 0, i, class, size);
        if !d.is_empty() && s.chance(1, 5) {
            d[0] = match s.weighted(&[2, 1]) {
                0 => s.pick(&[0u8, 0x15, 0x10, 0x80, 0xc0, 0xa0, 0xff, 0xfd]),
                _ => s.below(256) as u8,
            };
        }
        let pause = s.pick(&[0, 0, 0, 3, 60, 300]);
        (side, class, d, pause)
    });
    admission(s, seed, yields, mtu, msgs)
}

fn c05_huge(s: &mut Src) -> Case {
    let mtu = mtus(s);
    let lim = mtu as usize - 60;
    let seed = s.below(1 << 32);
    // fragments of one case: each costs time
    let mut left = s.pick(&[600usize, 1200, 1200, 5000, 10_000]);
    let msgs: Vec<(usize, u8, Vec<u8>, u64)> = s.list(1, 3, 8, |s, i| {
        let side = s.below(2) as usize;
        let mut class = s.pick(&[3u8, 3, 0, 1, 2, 4]);
        let near = match s.weighted(&[3, 3, 1]) {
            0 => 1usize << s.usize(15, 24),
            1 => s.pick(&[255usize, 256, 257, 300, 512, 1000, 1024, 4096, 5000, 8192, 9000]) * lim,
            _ => s.usize(9000, 1 << 20),
        };
        let mut size = near - 3 + s.usize(0, 6);
        // those with the same remainder may be taken for small ones
        if class != 3 && s.chance(1, 2) {
            size = (size & !0xffff) + s.usize(0, lim);
        }
        if class == 3 && size / lim > left {
            class = 0;
        }
        if class == 3 {
            left -= size / lim;
        }
        (side, class, payload(0, side, 0, i, class, size), s.pick(&[0, 0, 3, 300]))
    });
    s.nontrivial(msgs.iter().any(|m| m.2.len() > 65_535 || m.1 == 3 && m.2.len() > 255 * lim));
    s.label_if(msgs.iter().any(|m| m.1 == 3 && m.2.len() > 4096 * lim), "more than 4096 fragments");
    admission(s, seed, 0, mtu, msgs)
}

fn admission(s: &mut Src, seed: u64, yields: u64, mtu: u16, msgs: Vec<(usize, u8, Vec<u8>, u64)>) -> Case {
    let lim = mtu as usize - 60;
    let expect: Vec<Option<&'static str>> = msgs.iter().map(|m| verdict(&m.2, m.1, mtu)).collect();
    let first_bad = expect.iter().position(|e| matches!(e, Some(x) if *x != "either"));
    if msgs.iter().all(|m| m.2.len() <= 9000) {
        s.nontrivial(first_bad.map(|i| expect[i..].iter().any(|e| e.is_none())).unwrap_or(false));
    }
    for (m, e) in msgs.iter().zip(&expect) {
        s.label_if(*e == Some("PacketHeaderError"), "bad header");
        s.label_if(*e == Some("PacketSizeExceedMTU"), "too large");
        s.label_if(m.2.len() + 1 >= lim && m.2.len() <= lim + 1, "next to the limit");
    }
    s.note(format!("mtu {mtu}, yields {yields}"));
    for (m, e) in msgs.iter().zip(&expect) {
        s.note(format!("{} sends {} of {} bytes, first {:02x?}: expect {}", ["client", "server"][m.0], CLASS[m.1 as usize], m.2.len(), m.2.first(), e.unwrap_or("Ok")));
    }
    sim::run(seed, yields, 120_000, move |w| async move {
        let plan = Plan { seed, yields, latency: 1, mtu, hosts: vec![2], acts: vec![], faults: Faults::default(), same_port: false, keepalive: 0, own_loss: [None; 2] };
        let ses = establish(&w, &plan).await?;
        let c = &ses.conns[0];
        for d in 0..2 {
            collect(c.ends[d].clone(), c.logs[d].clone());
        }
        for (i, ((side, class, data, pause), exp)) in msgs.iter().zip(&expect).enumerate() {
            sim::sleep(*pause).await;
            let r = c.ends[*side].send(data, rel(*class)).await;
            let got = match &r {
                Ok(()) => "Ok".to_string(),
                Err(e) => es(e),
            };
            let ok = match exp {
                Some("either") => got == "Ok" || got == "PacketSizeExceedMTU",
                Some(e) => got == **e,
                None => got == "Ok",
            };
            if !ok {
                return Err(format!(
                    "send #{i}: {} of {} bytes starting {:02x?} at MTU {mtu} answered {got}, expected {}",
                    CLASS[*class as usize], data.len(), data.first(), exp.unwrap_or("Ok")
                ));
            }
            let mut l = c.logs[*side].lock().unwrap();
            let order = l.sends.len();
            l.sends.push(SendRec { task: 0, idx: i, class: *class, data: std::sync::Arc::new(data.clone()), begin: 0, end: 0, order, err: r.err().map(|e| es(&e)) });
        }
        ses.settle(&[0, 1, 2, 3, 4], now() + 20_000, 2000).await;
        for d in 0..2 {
            let (a, b) = (c.logs[d].lock().unwrap(), c.logs[1 - d].lock().unwrap());
            let mut got: Vec<&Vec<u8>> = b.recvs.iter().map(|r| &r.1).collect();
            for m in a.sends.iter().filter(|m| m.err.is_none()) {
                match got.iter().position(|g| **g == *m.data) {
                    Some(i) => {
                        got.remove(i);
                    }
                    None => return Err(format!("accepted message #{} ({} of {} bytes) was not delivered over a perfect network", m.idx, CLASS[m.class as usize], m.data.len())),
                }
            }
            if let Some(g) = got.first() {
                return Err(format!("recv returned a message that was rejected or never sent: {} ({} bytes)", brief(g), g.len()));
            }
            if let Some((_, e)) = &b.recv_err {
                return Err(format!("the connection died: recv failed with {e}"));
            }
        }
        no_panics()
    })
}
