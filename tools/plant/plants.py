PRE = '''mod rk;
use rk::*;
use rust_raknet::*;
use std::net::SocketAddr;
use std::time::{Duration, Instant};
use tokio::time::{sleep, timeout};

#[allow(unused_macros)]
macro_rules! check { ($c:expr, $($m:tt)*) => { if !$c { fail(&format!($($m)*)) } } }
#[allow(dead_code)]
fn any() -> SocketAddr { "127.0.0.1:0".parse().unwrap() }
#[allow(dead_code)]
fn secs(n: u64) -> Duration { Duration::from_secs(n) }
#[allow(dead_code)]
fn ms(n: u64) -> Duration { Duration::from_millis(n) }
/// A listener and, with it, a connection accepted from a scripted client.
#[allow(dead_code)]
async fn with_client(mtu: u16) -> (RaknetListener, RaknetSocket, Peer) {
    let mut l = RaknetListener::bind(&any()).await.unwrap();
    l.listen().await;
    let a = l.local_addr().unwrap();
    let c = tokio::task::spawn_blocking(move || Peer::connect(a, mtu));
    let s = l.accept().await.unwrap();
    (l, s, c.await.unwrap())
}
/// A connection made to a scripted server.
#[allow(dead_code)]
async fn with_server(mtu: u16) -> (RaknetSocket, Peer) {
    let (s, a) = Peer::bind();
    let p = tokio::task::spawn_blocking(move || Peer::serve(s, mtu));
    let c = RaknetSocket::connect(&a).await.unwrap();
    (c, p.await.unwrap())
}
/// A connection between two ends of the library.
#[allow(dead_code)]
async fn pair() -> (RaknetListener, RaknetSocket, RaknetSocket) {
    let mut l = RaknetListener::bind(&any()).await.unwrap();
    l.listen().await;
    let a = l.local_addr().unwrap();
    let c = RaknetSocket::connect(&a).await.unwrap();
    let s = l.accept().await.unwrap();
    (l, c, s)
}
#[tokio::main]
async fn main() {
    demo().await;
    println!("ok");
    std::process::exit(0);
}
'''
P = {}
def add(id, property, needs, breaks, edits, demo, pre=None):
    P[id] = dict(property=property, needs=needs, breaks=breaks, edits=edits, demo=(pre or PRE) + demo)

A, F, S, V, K, D = ("src/%s.rs" % n for n in ("arq", "fragment", "socket", "server", "packet", "datatype"))

add("c01-large-group-order", "C01",
    "a message split into more than 32 fragments one of which is retransmitted (or overtaken)",
    "large groups are joined in the order of their datagram numbers: the retransmitted fragment ends up last and the message is scrambled",
    [(F, """        keys.sort_unstable();
""", """        if keys.len() > 32 {
            // the datagrams of a group are numbered consecutively
            keys.sort_unstable_by_key(|k| self.frames[k].sequence_number);
        } else {
            keys.sort_unstable();
        }
""")],
"""
async fn demo() {
    let (_l, s, mut p) = with_client(1400).await;
    let want = game(1, 4000);
    let oi = p.oi;
    let order: Vec<usize> = (0..40).filter(|i| *i != 7).chain([7]).collect();
    for i in order {
        let mut f = Frame::new(ORDERED, p.ri + i as u32, oi, &want[i * 100..i * 100 + 100]);
        f.frag = Some((40, 0, i as u32));
        p.send(&[f]);
    }
    let got = timeout(secs(5), s.recv()).await.expect("nothing received").unwrap();
    check!(got == want, "message scrambled");
}
""")

add("c01-group-id-byte", "C01",
    "more than 256 split messages sent while an earlier datagram is still unacknowledged, so that they leave together",
    "fragment group ids repeat after 256 groups, fragments of different messages are joined",
    [(A, "                        frame.compound_id = self.compound_id;\n", "                        frame.compound_id = self.compound_id & 0xff;\n"),
     ],
'''
async fn demo() {
    let (c, p) = with_server(400).await;
    // the first message stays unacknowledged until the others are queued
    for n in 0..300u32 {
        c.send(&game(n, 400), Reliability::ReliableOrdered).await.unwrap();
    }
    let frames = tokio::task::spawn_blocking(move || p.collect(3000, true)).await.unwrap();
    let mut of: std::collections::HashMap<u16, u32> = Default::default();
    for (_, f) in &frames {
        if let Some((_, id, _)) = f.frag {
            let n = *of.entry(id).or_insert(f.oi);
            check!(n == f.oi, "group {id} used for two messages at once");
        }
    }
    check!(of.len() > 250, "only {} groups seen", of.len());
}
''')

add("c02-batch-limit", "C02",
    "more than 512 messages queued behind one unacknowledged datagram",
    "messages beyond the first 512 of a batch are thrown away although send accepted them",
    [(A, "            for i in 0..self.packets.len() {\n                self.packets[i].sequence_number = self.sequence_number;",
         "            for i in 0..self.packets.len().min(512) {\n                self.packets[i].sequence_number = self.sequence_number;")],
"""
async fn demo() {
    let (c, p) = with_server(1400).await;
    for n in 0..700u32 {
        c.send(&game(n, 20), Reliability::Reliable).await.unwrap();
    }
    let f = tokio::task::spawn_blocking(move || p.collect(5000, true)).await.unwrap();
    for n in 0..700 {
        check!(f.iter().any(|f| f.1.data == game(n, 20)), "message {n} never sent");
    }
}
""")

add("c03-count-not-jump", "C03",
    "a sequenced message is lost or overtaken before an older one arrives late",
    "after a skipped sequenced message a stale one is still delivered",
    [(A, '''            Reliability::ReliableSequenced => {
                let sequenced_frame_index = frame.sequenced_frame_index;
                if sequenced_frame_index >= self.sequenced_frame_index {
                    if let std::collections::hash_map::Entry::Vacant(e) =
                        self.packets.entry(frame.sequence_number)
                    {
                        e.insert(frame);
                        self.sequenced_frame_index = sequenced_frame_index + 1;''',
'''            Reliability::ReliableSequenced => {
                let sequenced_frame_index = frame.sequenced_frame_index;
                if sequenced_frame_index >= self.sequenced_frame_index {
                    if let std::collections::hash_map::Entry::Vacant(e) =
                        self.packets.entry(frame.sequence_number)
                    {
                        e.insert(frame);
                        self.sequenced_frame_index += 1;''')],
'''
async fn demo() {
    let (_l, s, mut p) = with_client(1400).await;
    for (k, si) in [(0u32, 0u32), (1, 5), (2, 3)] {
        let mut f = Frame::new(RELIABLE_SEQ, p.ri + k, p.oi, &game(si, 10));
        f.si = si;
        p.send(&[f]);
    }
    let f = Frame::new(RELIABLE, p.ri + 3, 0, &game(99, 10));
    p.send(&[f]);
    let mut got = vec![];
    while got.last() != Some(&99) {
        let m = timeout(secs(5), s.recv()).await.expect("nothing received").unwrap();
        got.push(m[4]);
    }
    check!(got == [0, 5, 99], "delivered {got:?}");
}
''')

add("c13-version-by-ip", "C13",
    "two clients behind one IP address with different protocol versions whose handshakes interleave",
    "the version of one client is reported for the other",
    [(V, "version_map.insert(addr.to_string(), (req.protocol_version, now));", "version_map.insert(addr.ip().to_string(), (req.protocol_version, now));"),
     (V, "                                .get(&addr.to_string())", "                                .get(&addr.ip().to_string())"),
     (V, "version_map.lock().await.remove(&addr.to_string());", "version_map.lock().await.remove(&addr.ip().to_string());"),
     (V, "        let ver = version_map.get(&peer.to_string());", "        let ver = version_map.get(&peer.ip().to_string());")],
'''
async fn demo() {
    let mut l = RaknetListener::bind(&any()).await.unwrap();
    l.listen().await;
    let a = l.local_addr().unwrap();
    tokio::task::spawn_blocking(move || {
        let (p, q) = (Peer::new(a), Peer::new(a));
        p.request1(10).unwrap();
        q.request1(11).unwrap();
        p.request2(1400, a).unwrap();
    }).await.unwrap();
    let s = timeout(secs(5), l.accept()).await.unwrap().unwrap();
    check!(s.raknet_version().unwrap() == 10, "wrong version {}", s.raknet_version().unwrap());
}
''')

add("c05-limit-of-default-mtu", "C05",
    "an MTU below the default is negotiated and a ReliableSequenced message between the two limits is sent",
    "a message larger than MTU - 60 is accepted (and leaves in a datagram beyond the MTU)",
    [(A, '''            Reliability::ReliableSequenced => {
                // 60 = max framesetpacket length(27) + udp overhead(28) + 5 ext
                if buf.len() > (self.mtu - 60).into() {''',
         '''            Reliability::ReliableSequenced => {
                // 60 = max framesetpacket length(27) + udp overhead(28) + 5 ext
                if buf.len() > (RAKNET_CLIENT_MTU - 60).into() {''')],
'''
async fn demo() {
    let (c, _p) = with_server(600).await;
    let r = c.send(&game(1, 1000), Reliability::ReliableSequenced).await;
    check!(matches!(r, Err(error::RaknetError::PacketSizeExceedMTU)), "accepted 1000 bytes over MTU 600");
}
''')

add("c06-fragment-room", "C06",
    "a message large enough to be split",
    "full fragments leave in datagrams that exceed the MTU by two bytes",
    [(A, "                    let max = (self.mtu - 60) as usize;", "                    let max = (self.mtu - 50) as usize;")],
'''
async fn demo() {
    let (c, p) = with_server(1000).await;
    c.send(&game(1, 5000), Reliability::ReliableOrdered).await.unwrap();
    tokio::task::spawn_blocking(move || {
        for _ in 0..20 {
            if let Some(b) = p.recv(100) {
                check!(b.len() + 28 <= 1000, "datagram of {} bytes over MTU 1000", b.len() + 28);
            }
        }
    }).await.unwrap();
}
''')

add("c07-nack-span", "C07",
    "two separate gaps between two flushes of negative acknowledgements",
    "the gaps are reported as one range, which names datagrams that did arrive",
    [(A, '''        let ret = self.nack.clone();
        self.nack.clear();
        ret''', '''        let mut ret = self.nack.clone();
        self.nack.clear();
        // one record is enough
        if let Some(last) = ret.last().cloned() {
            ret[0].1 = last.1;
            ret.truncate(1);
        }
        ret''')],
'''
async fn demo() {
    for _ in 0..5 {
        let (_l, _s, mut p) = with_client(1400).await;
        let base = p.seq;
        for k in [1u32, 2, 3, 5] {
            let f = Frame::new(UNRELIABLE, 0, 0, &game(k, 10));
            p.raw(&datagram(base + k, &[f]));
        }
        p.raw(&datagram(base + 8, &[Frame::new(UNRELIABLE, 0, 0, &game(8, 10))]));
        tokio::task::spawn_blocking(move || {
            for _ in 0..6 {
                if let Some(b) = p.expect(50, |b| b[0] == 0xa0) {
                    for (x, y) in parse_ranges(&b) {
                        for got in [1, 2, 3, 5, 8] {
                            check!(!(x..=y).contains(&(base + got)), "reported {} missing", base + got);
                        }
                    }
                }
            }
        }).await.unwrap();
    }
}
''')

add("c08-gives-up", "C08",
    "eleven transmissions in a row of one frame lost or unacknowledged (several seconds of blackout)",
    "the frame is not retransmitted any more although the connection lives",
    [(A, "            if p.1 && tick - p.2 >= cur_rto {", "            if p.1 && p.3 <= 10 && tick - p.2 >= cur_rto {")],
"""
async fn demo() {
    let (c, p) = with_server(1400).await;
    sleep(ms(300)).await;
    c.send(&game(1, 100), Reliability::Reliable).await.unwrap();
    tokio::task::spawn_blocking(move || {
        p.collect(12000, false);
        let f = p.collect(15000, false);
        check!(f.iter().any(|(_, f)| f.data[0] == 0xfe), "no transmission any more");
    }).await.unwrap();
}
""")

add("c09-ok-when-closed", "C09",
    "flush called on (or waiting in) a connection that is closed while nothing is outstanding",
    "flush reports success on a closed connection",
    [(S, """                if self.close_notifier.is_closed() {
                    return Err(RaknetError::ConnectionClosed);
                }
                let sendq = self.sendq.read().await;
                if sendq.is_empty() {
                    return Ok(());
                }
""", """                let sendq = self.sendq.read().await;
                if sendq.is_empty() {
                    return Ok(());
                }
                if self.close_notifier.is_closed() {
                    return Err(RaknetError::ConnectionClosed);
                }
""")],
"""
async fn demo() {
    let (c, p) = with_server(1400).await;
    let p = tokio::task::spawn_blocking(move || { p.collect(500, true); p }).await.unwrap();
    check!(c.flush().await.is_ok(), "flush failed");
    p.raw(&[0x15]);
    sleep(ms(500)).await;
    check!(matches!(timeout(secs(2), c.flush()).await, Ok(Err(error::RaknetError::ConnectionClosed))), "flush succeeds on a closed connection");
}
""")

add("c10-gap-expanded", "C10",
    "a datagram whose number is far ahead of the previous one (hostile, or after corruption)",
    "every missing number becomes an entry of its own: millions of entries and a hundred thousand datagrams for one received",
    [(A, "                self.nack.push((self.last_max + 1, s - 1));", "                self.nack.extend((self.last_max + 1..s).map(|n| (n, n)));")],
"""
async fn demo() {
    let (_l, s, mut p) = with_client(1400).await;
    p.seq += 0x6f0000;
    p.send(&[Frame::new(RELIABLE, p.ri, 0, &game(1, 60))]);
    check!(matches!(timeout(secs(5), s.recv()).await, Ok(Ok(_))), "nothing received");
    let n = tokio::task::spawn_blocking(move || {
        let mut n = 0;
        for _ in 0..5000 {
            if p.recv(1).is_some_and(|b| b[0] == 0xa0) { n += 1; }
        }
        n
    }).await.unwrap();
    check!(n < 1000, "{n} datagrams sent in reply to one");
}
""")

add("c11-address-family", "C11",
    "an OpenConnectionRequest2 whose address has a family byte other than 4 and 6",
    "the listener's task panics: no more pings, connections or messages",
    [(D, "        let ip_ver = self.read_u8()?;\n", """        let ip_ver = match self.read_u8()? {
            v @ (4 | 6) => v,
            v => unreachable!("address family {}", v),
        };
""")],
"""
async fn demo() {
    let mut l = RaknetListener::bind(&any()).await.unwrap();
    l.listen().await;
    let a = l.local_addr().unwrap();
    let p = Peer::new(a);
    let mut b = vec![7];
    b.extend(MAGIC);
    b.push(9);
    b.resize(80, 0);
    p.raw(&b);
    sleep(ms(300)).await;
    check!(timeout(secs(4), RaknetSocket::ping(&a)).await.is_ok(), "listener no longer answers pings");
}
""")

add("c12-string-length", "C12",
    "a string with characters outside ASCII",
    "the length written is the number of characters instead of bytes, so the decoded string is cut off or refused",
    [(D, "        self.buf.put_u16(raw.len() as u16);", "        self.buf.put_u16(body.chars().count() as u16);")],
'''
async fn demo() {
    let mut l = RaknetListener::bind(&any()).await.unwrap();
    l.listen().await;
    let motd = "MCPE;§aПривет мир;486;1.18.11;0;10;";
    l.set_full_motd(motd.to_string()).unwrap();
    match timeout(secs(4), RaknetSocket::ping(&l.local_addr().unwrap())).await {
        Ok(Ok((_, m))) => check!(m == motd, "ping returned {m:?}"),
        r => fail(&format!("{r:?}")),
    }
}
''')

add("c13-echo-address", "C13",
    "a client whose OpenConnectionRequest2 names the server by an address that is not its own (any client)",
    "OpenConnectionReply2 echoes the server's address instead of telling the client its own",
    [(V, '''                            guid,
                            address: addr,
                            mtu,''', '''                            guid,
                            address: req.address,
                            mtu,''')],
'''
async fn demo() {
    let mut l = RaknetListener::bind(&any()).await.unwrap();
    l.listen().await;
    let a = l.local_addr().unwrap();
    tokio::task::spawn_blocking(move || {
        let p = Peer::new(a);
        p.request1(10).unwrap();
        let r = p.request2(1400, a).unwrap();
        check!(read_address(&r[25..]) == p.me(), "client told it is {}", read_address(&r[25..]));
    }).await.unwrap();
}
''')

add("c14-motd-cap", "C14",
    "a MOTD longer than 1024 bytes",
    "ping refuses or never returns the MOTD of a valid pong",
    [(D, "        let mut buf = vec![0u8; size as usize].into_boxed_slice();\n\n        if self.buf.remaining() < size as usize {",
         "        let mut buf = vec![0u8; size as usize].into_boxed_slice();\n\n        if size > 1024 || self.buf.remaining() < size as usize {")],
'''
async fn demo() {
    let mut l = RaknetListener::bind(&any()).await.unwrap();
    l.listen().await;
    let motd = "MCPE;".repeat(250);
    l.set_full_motd(motd.clone()).unwrap();
    match timeout(secs(6), RaknetSocket::ping(&l.local_addr().unwrap())).await {
        Ok(Ok((_, m))) => check!(m == motd, "ping returned {m:?}"),
        r => fail(&format!("{r:?}")),
    }
}
''')

add("c15-drop-unseen", "C15",
    "a socket dropped before its drop watcher has run for the first time",
    "the drop goes unnoticed: the peer is never told and the session lives on",
    [(S, '''    fn drop(&mut self) {
        self.drop_notifier.notify_one();
    }''', '''    fn drop(&mut self) {
        self.drop_notifier.notify_waiters();
    }''')],
'''
async fn demo() {
    let mut l = RaknetListener::bind(&any()).await.unwrap();
    l.listen().await;
    let a = l.local_addr().unwrap();
    tokio::spawn(async move {
        loop {
            drop(l.accept().await.unwrap());
        }
    });
    for n in 0..20 {
        let p = tokio::task::spawn_blocking(move || {
            let p = Peer::new(a);
            p.request1(10).unwrap();
            p.request2(1400, a).unwrap();
            p.expect(3000, |b| b[0] == 0x15).is_some()
        }).await.unwrap();
        check!(p, "peer {n} not told of the drop");
    }
}
''', PRE.replace("#[tokio::main]", '#[tokio::main(flavor = "multi_thread", worker_threads = 1)]').replace("    demo().await;", "    tokio::spawn(demo()).await.unwrap();"))

add("c16-acks-not-heard", "C16",
    "a connection on which only acknowledgements arrive for more than a minute (one-way traffic)",
    "the connection is declared dead although its peer answers all the time",
    [(S, '''                last_heartbeat_time.store(cur_timestamp_millis(), Ordering::Relaxed);

''', ''),
     (S, '''                    for i in ack.sequences {''', '''                    if ack.record_count > 1 {
                        last_heartbeat_time.store(cur_timestamp_millis(), Ordering::Relaxed);
                    }
                    for i in ack.sequences {'''),
     (S, '''                if buf[0] == PacketID::Nack.to_u8() {
                    //handle nack''', '''                if buf[0] == PacketID::Nack.to_u8() {
                    last_heartbeat_time.store(cur_timestamp_millis(), Ordering::Relaxed);
                    //handle nack'''),
     (S, '''                    let frames = match FrameVec::new(buf.clone()) {''', '''                    last_heartbeat_time.store(cur_timestamp_millis(), Ordering::Relaxed);
                    let frames = match FrameVec::new(buf.clone()) {''')],
'''
async fn demo() {
    let (c, p) = with_server(1400).await;
    let t = tokio::task::spawn_blocking(move || p.collect(70000, true).len());
    for n in 0..65u32 {
        check!(c.send(&game(n, 50), Reliability::Reliable).await.is_ok(), "closed after {n} s");
        sleep(secs(1)).await;
    }
    check!(c.flush().await.is_ok(), "closed after 65 s");
    t.await.unwrap();
}
''')



add("c17-drop-unseen", "C17",
    "a listener dropped before its drop watcher has run for the first time",
    "the listener's tasks live on, its address stays taken",
    [(V, '''    fn drop(&mut self) {
        self.drop_notifier.notify_one();
    }''', '''    fn drop(&mut self) {
        self.drop_notifier.notify_waiters();
    }''')],
'''
async fn demo() {
    let mut l = RaknetListener::bind(&any()).await.unwrap();
    l.listen().await;
    let a = l.local_addr().unwrap();
    drop(l);
    sleep(ms(500)).await;
    check!(RaknetListener::bind(&a).await.is_ok(), "address still in use");
}
''', PRE.replace("#[tokio::main]", '#[tokio::main(flavor = "current_thread")]'))

add("c18-collect-by-ip", "C18",
    "two clients behind one IP address, one of which disconnects",
    "the session of the other client is removed too",
    [(V, '''                    sessions.remove(&addr);
                    raknet_log_debug!("collect socket : {}", addr);
                }
            }

            let mut sessions = sessions.lock().await;''', '''                    sessions.retain(|a, _| a.ip() != addr.ip());
                    raknet_log_debug!("collect socket : {}", addr);
                }
            }

            let mut sessions = sessions.lock().await;''')],
'''
async fn demo() {
    let mut l = RaknetListener::bind(&any()).await.unwrap();
    l.listen().await;
    let a = l.local_addr().unwrap();
    let c1 = RaknetSocket::connect(&a).await.unwrap();
    let s1 = l.accept().await.unwrap();
    let c2 = RaknetSocket::connect(&a).await.unwrap();
    let _s2 = l.accept().await.unwrap();
    c2.close().await.unwrap();
    sleep(secs(1)).await;
    c1.send(&game(1, 20), Reliability::Reliable).await.unwrap();
    check!(matches!(timeout(secs(5), s1.recv()).await, Ok(Ok(_))), "the other connection is dead");
}
''')

add("c19-await-after-pop", "C19",
    "recv cancelled (select, timeout) at the moment a message has arrived while a send holds the send queue",
    "a message already taken from the queue is lost with the cancelled recv",
    [(S, '''            Some(p) => Ok(p),
            None => {
                if self.close_notifier.is_closed() {''', '''            Some(p) => {
                let unsent = self.sendq.read().await.get_reliable_queue_size();
                raknet_log_debug!("{} : {} unsent while receiving", self.peer_addr, unsent);
                Ok(p)
            }
            None => {
                if self.close_notifier.is_closed() {''')],
'''
async fn demo() {
    let (_l, c, s) = pair().await;
    let s = std::sync::Arc::new(s);
    let s2 = s.clone();
    tokio::spawn(async move {
        for n in 0.. {
            s2.send(&game(n, 60_000), Reliability::ReliableOrdered).await.unwrap();
            sleep(ms(3)).await;
            if n % 100 == 99 { s2.flush().await.unwrap(); }
        }
    });
    let c = std::sync::Arc::new(c);
    let c2 = c.clone();
    tokio::spawn(async move { while c2.recv().await.is_ok() {} });
    tokio::spawn(async move {
        for n in 0..1000u32 {
            c.send(&game(n, 20), Reliability::ReliableOrdered).await.unwrap();
            if n % 2 == 0 { sleep(ms(1)).await; }
        }
        sleep(secs(100)).await;
    });
    let mut next = 0;
    let end = Instant::now() + secs(60);
    while next < 1000 {
        check!(Instant::now() < end, "only {next} arrived");
        tokio::select! {
            biased;
            m = s.recv() => {
                check!(m.unwrap() == game(next, 20), "message {next} lost");
                next += 1;
            }
            _ = tokio::task::yield_now() => {}
        }
    }
}
''')

add("c20-sequenced-16-bits", "C20",
    "more than 65536 sequenced messages on one connection",
    "the sequenced number starts again at 0 and everything newer is taken for stale",
    [(A, '''                frame.sequenced_frame_index = self.sequenced_frame_index;
                self.packets.push(frame);
                self.sequenced_frame_index += 1;
            }
            Reliability::Reliable => {''', '''                frame.sequenced_frame_index = self.sequenced_frame_index;
                self.packets.push(frame);
                self.sequenced_frame_index = (self.sequenced_frame_index + 1) & 0xffff;
            }
            Reliability::Reliable => {''')],
'''
async fn demo() {
    let (_l, c, s) = pair().await;
    let r = tokio::spawn(async move {
        loop {
            let m = s.recv().await.unwrap();
            if m[1..5] >= 66_000u32.to_be_bytes()[..] { return s; }
        }
    });
    for n in 0..66_050u32 {
        c.send(&game(n, 8), Reliability::UnreliableSequenced).await.unwrap();
        if n % 40 == 0 || n >= 66_000 { sleep(ms(1)).await; }
    }
    check!(timeout(secs(5), r).await.is_ok(), "sequenced messages stopped");
}
''')

ALLOC = '''
struct Count;
static LIVE: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
unsafe impl std::alloc::GlobalAlloc for Count {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 { LIVE.fetch_add(l.size(), std::sync::atomic::Ordering::Relaxed); std::alloc::System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) { LIVE.fetch_sub(l.size(), std::sync::atomic::Ordering::Relaxed); std::alloc::System.dealloc(p, l) }
}
#[global_allocator]
static ALLOC: Count = Count;
#[allow(dead_code)]
fn live() -> usize { LIVE.load(std::sync::atomic::Ordering::Relaxed) }
'''
add("c21-late-ordered-kept", "C21",
    "a split message that arrives twice (its fragments duplicated after it was delivered) under new reliable numbers, or ordered messages that repeat",
    "late fragments of messages already delivered pile up in the fragment queue",
    [(A, '''                ret.push(frame);
                self.ordered_packets.remove(&i);
''', '''                ret.push(frame);
                if ret.len() == 1 {
                    self.ordered_packets.remove(&i);
                }
''')],
ALLOC + '''
async fn demo() {
    let (_l, s, mut p) = with_client(1400).await;
    let base = live();
    for round in 0..2000u32 {
        // swapped pairs of ordered messages
        let (ri, oi) = (p.ri, p.oi);
        for k in [1u32, 0] {
            let f = Frame::new(ORDERED, ri + k, oi + k, &game(round * 2 + k, 1200));
            p.send(&[f]);
        }
        p.ri += 2;
        p.oi += 2;
        for _ in 0..2 {
            timeout(secs(5), s.recv()).await.expect("nothing received").unwrap();
        }
    }
    sleep(secs(1)).await;
    let kept = live().saturating_sub(base);
    check!(kept < 500_000, "{kept} bytes kept");
}
''')

add("c22-pong-clock", "C22",
    "a peer whose clock differs from ours sends a ConnectedPing",
    "the ConnectedPong does not echo the timestamp of the ping",
    [(S, "                    client_timestamp: packet.client_timestamp,", "                    client_timestamp: packet.client_timestamp.max(cur_timestamp_millis()),")],
'''
async fn demo() {
    let (_l, _s, mut p) = with_client(1400).await;
    let mut b = vec![0];
    b.extend(123456i64.to_be_bytes());
    p.send(&[Frame::new(UNRELIABLE, 0, 0, &b)]);
    let r = tokio::task::spawn_blocking(move || p.collect(1000, true)).await.unwrap();
    let pong = r.iter().find(|f| f.1.data[0] == 3).expect("no pong");
    check!(pong.1.data[1..9] == b[1..9], "timestamp not echoed");
}
''')

add("c22-one-flush-per-datagram", "C22",
    "a peer that packs several messages into one datagram",
    "only the first of several unordered messages in a datagram is delivered",
    [(S, '''                        for f in recvq.flush(&peer_addr) {
                            if !RaknetSocket::handle(
                                &f,
                                &peer_addr,
                                &sendq,
                                &user_data_sender,
                                &incomming_notify,
                            )
                            .await
                            .unwrap_or(true)
                            {
                                raknet_log_info!("handle over");
                                connected.close();
                                is_break = true;
                            };
                        }

                        if is_break {
                            break;
                        }
                    }
''', '''                    }

                    for f in recvq.flush(&peer_addr) {
                        if !RaknetSocket::handle(
                            &f,
                            &peer_addr,
                            &sendq,
                            &user_data_sender,
                            &incomming_notify,
                        )
                        .await
                        .unwrap_or(true)
                        {
                            raknet_log_info!("handle over");
                            connected.close();
                            is_break = true;
                        };
                    }

                    if is_break {
                        break;
                    }
''')],
'''
async fn demo() {
    let (_l, s, mut p) = with_client(1400).await;
    let f: Vec<Frame> = (0..3).map(|k| Frame::new(UNRELIABLE, 0, 0, &game(k, 20))).collect();
    p.send(&f);
    for n in 0..3 {
        check!(matches!(timeout(secs(3), s.recv()).await, Ok(Ok(_))), "only {n} of 3 messages delivered");
    }
}
''')

add("c13-any-lower-version", "C13",
    "a client with a protocol version below the supported ones",
    "an unsupported version is accepted instead of refused",
    [(V, '''                        if !RAKNET_PROTOCOL_VERSION_LIST
                            .as_slice()
                            .contains(&req.protocol_version)
                        {''', '''                        if RAKNET_PROTOCOL_VERSION_LIST
                            .iter()
                            .all(|v| req.protocol_version > *v)
                        {''')],
'''
async fn demo() {
    let mut l = RaknetListener::bind(&any()).await.unwrap();
    l.listen().await;
    let a = l.local_addr().unwrap();
    let r = timeout(secs(5), RaknetSocket::connect_with_version(&a, 8)).await;
    check!(matches!(r, Ok(Err(error::RaknetError::NotSupportVersion))), "version 8 not refused");
}
''')

add("c13-accept-cancelled", "C13",
    "an accept that is given up (timeout, select) at the moment a connection is ready",
    "the connection is taken from the queue and lost: its client is connected but no accept ever returns it",
    [(V, """                        Some(p) => Ok(p),
""", """                        Some(p) => {
                            // let the tasks of the session start before it is handed out
                            tokio::task::yield_now().await;
                            Ok(p)
                        }
""")],
"""
async fn demo() {
    let mut l = RaknetListener::bind(&any()).await.unwrap();
    l.listen().await;
    let a = l.local_addr().unwrap();
    let clients: Vec<_> = (0..10).map(|_| tokio::spawn(async move { RaknetSocket::connect(&a).await.unwrap() })).collect();
    let mut got = vec![];
    let t = Instant::now();
    while t.elapsed() < secs(4) && got.len() < 10 {
        tokio::select! {
            biased;
            k = l.accept() => got.push(k.unwrap()),
            _ = std::future::ready(()) => {}
        }
        sleep(ms(5)).await;
    }
    for c in clients {
        c.await.unwrap();
    }
    check!(got.len() == 10, "10 clients connected, {} were accepted", got.len());
}
""")

add("c16-repeat-replaces", "C16",
    "a delayed copy of OpenConnectionRequest2 arrives while its connection has been idle for more than 30 s",
    "the session of the idle connection is replaced by a new one and the connection ends",
    [(V, """                        if sessions.contains_key(&addr) {
                            let packet = if sessions[&addr].0 == 0 {
""", """                        // a client that has been silent for long is gone and begins again
                        let last = sessions
                            .get(&addr)
                            .map(|s| s.0)
                            .filter(|t| *t == 0 || cur_timestamp_millis() - *t <= RECEIVE_TIMEOUT / 2);

                        if let Some(last) = last {
                            let packet = if last == 0 {
""")],
"""
async fn demo() {
    let (l, s, mut p) = with_client(1400).await;
    let a = l.local_addr().unwrap();
    sleep(secs(32)).await;
    let p = tokio::task::spawn_blocking(move || {
        p.request2(1400, a);
        p.ordered(&game(1, 50));
        p
    }).await.unwrap();
    match timeout(secs(5), s.recv()).await {
        Ok(Ok(m)) => check!(m == game(1, 50), "another message"),
        r => fail(&format!("recv of a connection whose peer spoke 32 s ago: {r:?}")),
    }
    check!(s.send(&game(2, 50), Reliability::ReliableOrdered).await.is_ok(), "send failed");
    drop(p);
}
""")

add("c14-one-pong-per-instant", "C14",
    "two pings of one source within the same millisecond",
    "the second is not answered",
    [(V, """                    PacketID::UnconnectedPing1 => {
                        let _ping = match read_packet_ping(&buf[..size]) {
                            Ok(p) => p,
                            Err(_) => continue,
                        };
""", """                    PacketID::UnconnectedPing1 => {
                        let now = cur_timestamp_millis();
                        if read_packet_ping(&buf[..size]).is_err() || last_ping == Some((addr, now)) {
                            continue;
                        }
                        last_ping = Some((addr, now));
"""), (V, """            let mut buf = [0u8; 2048];
            let mut max_pending_version""", """            let mut buf = [0u8; 2048];
            let mut last_ping: Option<(SocketAddr, i64)> = None;
            let mut max_pending_version""")],
"""
async fn demo() {
    let mut l = RaknetListener::bind(&any()).await.unwrap();
    l.listen().await;
    let p = Peer::new(l.local_addr().unwrap());
    let mut b = vec![1];
    b.extend(5u64.to_be_bytes());
    b.extend(rk::MAGIC);
    b.extend(6u64.to_be_bytes());
    let n = tokio::task::spawn_blocking(move || {
        let mut n = 0;
        for _ in 0..20 {
            for _ in 0..5 {
                p.raw(&b);
            }
            while p.recv(100).is_some() {
                n += 1;
            }
        }
        n
    }).await.unwrap();
    check!(n == 100, "of 100 pings {n} were answered");
}
""")

add("c05-ordered-cap", "C05",
    "a ReliableOrdered message of more than 4095 fragments (5 MB)",
    "send refuses it, though ReliableOrdered messages of any size are to be sent",
    [(A, """                    let mut compound_size = buf.len() / max;
                    if buf.len() % max != 0 {
                        compound_size += 1;
                    }
""", """                    let compound_size = buf.len().div_ceil(max);
                    if compound_size > u16::MAX as usize / 16 {
                        return Err(RaknetError::PacketSizeExceedMTU);
                    }
""")],
"""
async fn demo() {
    let (_l, c, s) = pair().await;
    let m = game(1, 5_600_000);
    match c.send(&m, Reliability::ReliableOrdered).await {
        Ok(()) => {}
        r => fail(&format!("send of 5.6 MB: {r:?}")),
    }
    drop(s);
}
""")

add("c15-notices-and-holes", "C15",
    "the library closes a connection while ten or more ordered messages wait behind a missing one",
    "no disconnect notice is sent, the peer believes in the connection until it times out",
    [(S, """                    for _ in 0..10 {
""", """                    for _ in recvq.get_ordered_packet()..10 {
""")],
"""
async fn demo() {
    let (c, mut p) = with_server(1400).await;
    // it is not acknowledged, so nothing else is sent
    c.send(&game(1, 50), Reliability::Reliable).await.unwrap();
    let t = tokio::task::spawn_blocking(move || {
        // the first one is missing
        p.oi += 1;
        for n in 0..20 {
            p.ordered(&game(n, 50));
        }
        std::thread::sleep(ms(500));
        p
    });
    let p = t.await.unwrap();
    c.close().await.unwrap();
    let told = tokio::task::spawn_blocking(move || p.expect(3000, |b| b[0] == 0x15 || ((0x80..=0x8d).contains(&b[0]) && parse(b).1.iter().any(|f| f.data[0] == 0x15))).is_some()).await.unwrap();
    check!(told, "the peer was not told of the close");
}
""")

add("c06-wider-fragments", "C06",
    "a message of more than 4096 fragments",
    "its fragments are made larger instead of more numerous, and exceed the MTU",
    [(A, """                    let max = (self.mtu - 60) as usize;
                    let mut compound_size""", """                    let max = (self.mtu as usize - 60).max(buf.len() / 4096);
                    let mut compound_size""")],
"""
async fn demo() {
    let (c, p) = with_server(576).await;
    let t = tokio::task::spawn_blocking(move || p.expect(10_000, |b| b.len() > 576 - 28));
    c.send(&game(1, 2_500_000), Reliability::ReliableOrdered).await.unwrap();
    if let Some(b) = t.await.unwrap() {
        fail(&format!("a datagram of {} bytes at an MTU of 576", b.len()));
    }
}
""")

add("c01-ordered-backlog", "C01",
    "more than 4096 ordered messages wait behind one missing datagram, and nothing more arrives after it",
    "only the first 4096 are delivered",
    [(A, """        for i in ordered_keys {
            if i == self""", """        // so that one connection cannot take too long
        for i in ordered_keys.into_iter().take(4096) {
            if i == self""")],
"""
async fn demo() {
    let (_l, s, mut p) = with_client(1400).await;
    let t = tokio::task::spawn_blocking(move || {
        let (ri, oi) = (p.ri, p.oi);
        let all: Vec<u32> = (1..5000).collect();
        for part in all.chunks(40) {
            p.send(&part.iter().map(|n| Frame::new(ORDERED, ri + n, oi + n, &game(*n, 8))).collect::<Vec<_>>());
            std::thread::sleep(ms(20));
        }
        std::thread::sleep(ms(1000));
        p.send(&[Frame::new(ORDERED, ri, oi, &game(0, 8))]);
        p
    });
    for n in 0..5000 {
        match timeout(secs(10), s.recv()).await {
            Ok(Ok(m)) => check!(m == game(n, 8), "message {n} differs"),
            r => fail(&format!("message {n} of 5000: {r:?}")),
        }
    }
    t.await.unwrap();
}
""")

add("c13-reply2-given-up", "C13",
    "every OpenConnectionReply2 is lost for more than a minute",
    "connect fails though the server answers in the end",
    [(S, """        let buf = write_packet_connection_open_request_2(&packet).unwrap();

        loop {
""", """        let buf = write_packet_connection_open_request_2(&packet).unwrap();

        for tries in 0.. {
            if tries > 32 {
                return Err(RaknetError::ConnectionClosed);
            }
""")],
"""
async fn demo() {
    let (s, a) = Peer::bind();
    let t = tokio::task::spawn_blocking(move || {
        let t = Instant::now();
        let mut b = [0u8; 4096];
        loop {
            let (_, from) = s.recv_from(&mut b).unwrap();
            if b[0] == 5 {
                let mut r = vec![6];
                r.extend(rk::MAGIC);
                r.extend(9u64.to_be_bytes());
                r.extend([0, 5, 120]);
                s.send_to(&r, from).unwrap();
            }
            if b[0] == 7 && t.elapsed() > secs(75) {
                break;
            }
        }
        Peer::serve(s, 1400)
    });
    match timeout(secs(120), RaknetSocket::connect(&a)).await {
        Ok(Ok(_)) => {}
        Ok(Err(e)) => fail(&format!("connect: {e:?}")),
        Err(_) => fail("connect did not return"),
    }
    t.await.unwrap();
}
""")

add("c16-backlog-closes", "C16",
    "more than 100 datagrams arrive at a client while its tasks cannot run",
    "the client closes the connection",
    [(S, """                match sender.send(buf[..size].to_vec()).await {
                    Ok(_) => {}
                    Err(e) => {
                        raknet_log_debug!("channel send error : {}", e);
                        connected_s.close();""", """                match sender.try_send(buf[..size].to_vec()) {
                    Ok(_) => {}
                    Err(e) => {
                        raknet_log_debug!("channel send error : {}", e);
                        connected_s.close();""")],
"""
async fn demo() {
    let (c, p) = with_server(1400).await;
    let mut p = p;
    sleep(ms(300)).await;
    let t = std::thread::spawn(move || {
        for n in 0..150 {
            p.ordered(&game(n, 8));
        }
        p
    });
    // the application is busy
    let p = t.join().unwrap();
    std::thread::sleep(ms(300));
    let t = Instant::now();
    while t.elapsed() < secs(2) {
        sleep(ms(50)).await;
        check!(c.send(&game(1, 20), Reliability::Unreliable).await.is_ok(), "the connection was closed");
    }
    for n in 0..150 {
        match timeout(secs(3), c.recv()).await {
            Ok(Ok(m)) => check!(m == game(n, 8), "message {n} differs"),
            r => fail(&format!("message {n}: {r:?}")),
        }
    }
    drop(p);
}
""", PRE.replace("#[tokio::main]", '#[tokio::main(flavor = "current_thread")]'))

add("c18-shared-versions", "C18",
    "one source asks two listeners of the process for different versions at the same time",
    "what it says to one listener decides the version of its connection at the other",
    [(V, """        let (connection_sender, connection_receiver) = unbounded_channel::<RaknetSocket>();

        let ret = Self {
            motd: Arc::new(std::sync::Mutex::new(String::new())),
            socket: Some(Arc::new(s)),
            guid: rand::random(),
            listened: false,
            connection_receiver,
            connection_sender,
            sessions: Arc::new(Mutex::new(HashMap::new())),
            close_notifier: Arc::new(tokio::sync::Semaphore::new(0)),
            all_session_closed_notifier: Arc::new(Notify::new()),
            drop_notifier: Arc::new(Notify::new()),
            version_map: Arc::new(Mutex::new(HashMap::new())),
        };

        ret.drop_watcher().await;
        Ok(ret)
    }

    /// Creates a new RaknetListener from a UdpSocket.
""", """        let (connection_sender, connection_receiver) = unbounded_channel::<RaknetSocket>();

        let ret = Self {
            motd: Arc::new(std::sync::Mutex::new(String::new())),
            socket: Some(Arc::new(s)),
            guid: rand::random(),
            listened: false,
            connection_receiver,
            connection_sender,
            sessions: Arc::new(Mutex::new(HashMap::new())),
            close_notifier: Arc::new(tokio::sync::Semaphore::new(0)),
            all_session_closed_notifier: Arc::new(Notify::new()),
            drop_notifier: Arc::new(Notify::new()),
            version_map: pending_versions(),
        };

        ret.drop_watcher().await;
        Ok(ret)
    }

    /// Creates a new RaknetListener from a UdpSocket.
"""), (V, """/// Implementation of Raknet Server.
""", """type PendingVersions = Arc<Mutex<HashMap<String, (u8, i64)>>>;

/// The table of handshakes in progress, one for all listeners.
fn pending_versions() -> PendingVersions {
    static PENDING: std::sync::OnceLock<PendingVersions> = std::sync::OnceLock::new();
    PENDING.get_or_init(Default::default).clone()
}

/// Implementation of Raknet Server.
""")],
"""
async fn demo() {
    let mut a = RaknetListener::bind(&any()).await.unwrap();
    a.listen().await;
    let mut b = RaknetListener::bind(&any()).await.unwrap();
    b.listen().await;
    let (aa, ba) = (a.local_addr().unwrap(), b.local_addr().unwrap());
    let t = tokio::task::spawn_blocking(move || {
        let mut p = Peer::new(aa);
        p.request1(10).unwrap();
        p.to = ba;
        p.request1(11).unwrap();
        p.to = aa;
        p.request2(1400, aa).unwrap();
        p.online();
        p
    });
    let k = timeout(secs(5), a.accept()).await.unwrap().unwrap();
    let v = k.raknet_version().unwrap();
    check!(v == 10, "asked for version 10, connected with {v}");
    drop(t.await.unwrap());
}
""")
