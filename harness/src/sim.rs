//! A deterministic world: one thread, virtual time, simulated UDP.
use crate::engine::{Case, Rng};
use rust_raknet::verif;
use std::cell::Cell;
use std::collections::{BinaryHeap, HashMap, VecDeque};
use std::future::Future;
use std::io;
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr, SocketAddr};
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};
use std::time::Duration;
use tokio::time::Instant;

const BASE: i64 = 1_700_000_000_000;

thread_local! {
    static T0: Cell<Option<Instant>> = const { Cell::new(None) };
    static EPOCH: Cell<i64> = const { Cell::new(BASE) };
    static FAMILY: Cell<Option<u8>> = const { Cell::new(None) };
}

/// The wall clock at virtual time 0: half the worlds start shortly before the low 31 or 32 bits of
/// the milliseconds, or the seconds, run over.
pub fn epoch() -> i64 {
    EPOCH.with(|e| e.get())
}
fn pick_epoch(seed: u64) -> i64 {
    let h = crate::engine::mix(seed ^ 0xe90c);
    let before = (h >> 8) as i64 & 0xffff;
    match h % 8 {
        0 => (396 << 32) - before,
        1 => (793 << 31) - before,
        2 => (1 << 31) * 1000 - before,
        3 => (1 << 32) * 1000 - before,
        _ => BASE,
    }
}

/// Print every datagram (replays with RK_TRACE set).
pub static TRACE: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

/// Virtual milliseconds since the world began.
pub fn now() -> u64 {
    T0.with(|t| t.get()).map(|t| Instant::now().duration_since(t).as_millis() as u64).unwrap_or(0)
}
fn clock() -> i64 {
    epoch() + now() as i64
}
pub async fn sleep(ms: u64) {
    tokio::time::sleep(Duration::from_millis(ms)).await
}
/// Some(output), or None after `ms` virtual milliseconds.
pub async fn within<F: Future>(ms: u64, f: F) -> Option<F::Output> {
    tokio::time::timeout(Duration::from_millis(ms), f).await.ok()
}

/// One datagram as handed to the network by a sender.
#[derive(Clone)]
pub struct Dgram {
    pub t: u64,
    pub src: SocketAddr,
    pub dst: SocketAddr,
    pub data: Arc<[u8]>,
}

/// A datagram was handed to the network, or put into its receiver's queue.
#[derive(Clone)]
pub struct Ev {
    pub sent: bool,
    pub d: Dgram,
}

/// Deliveries of a datagram: (delay in ms, bytes). Empty: lost.
pub type Deliveries = Vec<(u64, Arc<[u8]>)>;
pub type Policy = Box<dyn FnMut(&Dgram) -> Deliveries + Send>;

struct Flight {
    at: u64,
    seq: u64,
    src: SocketAddr,
    dst: SocketAddr,
    data: Arc<[u8]>,
}
impl PartialEq for Flight {
    fn eq(&self, o: &Self) -> bool {
        self.at == o.at && self.seq == o.seq
    }
}
impl Eq for Flight {}
impl PartialOrd for Flight {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Flight {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        (o.at, o.seq).cmp(&(self.at, self.seq))
    }
}

#[derive(Default)]
struct Port {
    queue: VecDeque<(SocketAddr, Arc<[u8]>)>,
    wakers: Vec<Waker>,
}

fn wait(p: &mut Port, cx: &Context<'_>) {
    if !p.wakers.iter().any(|w| w.will_wake(cx.waker())) {
        p.wakers.push(cx.waker().clone());
    }
}

/// How many datagrams one instant of virtual time can carry without delay.
const SAME_INSTANT: u64 = 50_000;

struct Inner {
    ports: HashMap<SocketAddr, Port>,
    flights: BinaryHeap<Flight>,
    seq: u64,
    policy: Option<Policy>,
    latency: u64,
    host: IpAddr,
    next_port: u16,
    record: bool,
    events: Vec<Ev>,
    rng: Rng,
    yields: u64,
    no_yield: bool,
    /// how many of 256 lost datagrams are lost because the system call that sends them fails
    failures: u64,
    instant: (u64, u64),
}

pub struct Net {
    inner: Mutex<Inner>,
    wake: tokio::sync::Notify,
}

struct SimSocket {
    net: Arc<Net>,
    addr: SocketAddr,
    shown: SocketAddr,
}
struct Handle(Arc<Net>);

impl verif::net::Network for Handle {
    fn bind(&self, addr: SocketAddr) -> io::Result<Box<dyn verif::net::Socket>> {
        let (real, shown) = self.0.bind(addr)?;
        Ok(Box::new(SimSocket { net: self.0.clone(), addr: real, shown }))
    }
}

impl Net {
    fn bind(&self, addr: SocketAddr) -> io::Result<(SocketAddr, SocketAddr)> {
        let mut n = self.inner.lock().unwrap();
        let host = if addr.ip().is_unspecified() { n.host } else { addr.ip() };
        let port = if addr.port() != 0 {
            addr.port()
        } else {
            loop {
                n.next_port = if n.next_port >= 60000 { 40000 } else { n.next_port + 1 };
                if !n.ports.contains_key(&SocketAddr::new(host, n.next_port)) {
                    break n.next_port;
                }
            }
        };
        let real = SocketAddr::new(host, port);
        if n.ports.contains_key(&real) {
            return Err(io::Error::from(io::ErrorKind::AddrInUse));
        }
        n.ports.insert(real, Port::default());
        Ok((real, SocketAddr::new(addr.ip(), port)))
    }

    /// Returns false if the sender is told that it failed.
    fn send(&self, src: SocketAddr, dst: SocketAddr, data: &[u8]) -> bool {
        let mut n = self.inner.lock().unwrap();
        let d = Dgram { t: now(), src, dst, data: data.into() };
        // A network takes some time: an endless exchange at one instant must not stop the clock.
        if n.instant.0 != d.t {
            n.instant = (d.t, 0);
        }
        n.instant.1 += 1;
        let least = (n.instant.1 > SAME_INSTANT) as u64;
        if n.record {
            n.events.push(Ev { sent: true, d: d.clone() });
        }
        let trace = TRACE.load(std::sync::atomic::Ordering::Relaxed);
        let out = match &mut n.policy {
            Some(p) => p(&d),
            None => vec![(n.latency, d.data.clone())],
        };
        if trace {
            let how: Vec<u64> = out.iter().map(|o| o.0).collect();
            let mut what = format!("{:?}", crate::wire::Packet::decode(data));
            what.truncate(300);
            eprintln!("[{} ms] {src} -> {dst} delays {how:?}: {what}", d.t);
        }
        let told = !out.is_empty() || n.failures == 0 || n.rng.next() % 256 >= n.failures;
        for (delay, data) in out {
            let delay = delay.max(least);
            n.seq += 1;
            let f = Flight { at: d.t + delay, seq: n.seq, src, dst, data };
            if delay == 0 && n.flights.peek().map(|x| x.at > d.t).unwrap_or(true) {
                n.deliver(f);
            } else {
                n.flights.push(f);
            }
        }
        drop(n);
        self.wake.notify_one();
        told
    }
}

impl Inner {
    fn deliver(&mut self, f: Flight) {
        if self.record {
            self.events.push(Ev { sent: false, d: Dgram { t: now(), src: f.src, dst: f.dst, data: f.data.clone() } });
        }
        if let Some(p) = self.ports.get_mut(&f.dst) {
            p.queue.push_back((f.src, f.data));
            for w in p.wakers.drain(..) {
                w.wake();
            }
        }
    }
    fn yields(&mut self, cx: &Context<'_>) -> bool {
        if self.yields > 0 && !self.no_yield && self.rng.next() % 256 < self.yields {
            cx.waker().wake_by_ref();
            return true;
        }
        false
    }
}

async fn pump(net: Arc<Net>) {
    loop {
        let next = {
            let mut n = net.inner.lock().unwrap();
            let t = now();
            while n.flights.peek().map(|f| f.at <= t).unwrap_or(false) {
                let f = n.flights.pop().unwrap();
                n.deliver(f);
            }
            n.flights.peek().map(|f| f.at - t)
        };
        match next {
            Some(ms) => {
                tokio::select! {
                    biased;
                    _ = net.wake.notified() => {}
                    _ = sleep(ms) => {}
                }
            }
            None => net.wake.notified().await,
        }
    }
}

impl verif::net::Socket for SimSocket {
    fn local_addr(&self) -> io::Result<SocketAddr> {
        Ok(self.shown)
    }
    fn poll_send_to(&self, cx: &mut Context<'_>, buf: &[u8], target: SocketAddr) -> Poll<io::Result<usize>> {
        if self.net.inner.lock().unwrap().yields(cx) {
            return Poll::Pending;
        }
        if buf.len() > 65507 {
            return Poll::Ready(Err(io::Error::other("message too long")));
        }
        if self.shown.is_ipv4() != target.is_ipv4() {
            return Poll::Ready(Err(io::Error::other("address family not supported by protocol")));
        }
        if !self.net.send(self.addr, target, buf) {
            return Poll::Ready(Err(io::Error::other("no buffer space available")));
        }
        Poll::Ready(Ok(buf.len()))
    }
    fn poll_recv_from(&self, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<(usize, SocketAddr)>> {
        let mut n = self.net.inner.lock().unwrap();
        if n.yields(cx) {
            return Poll::Pending;
        }
        let p = n.ports.get_mut(&self.addr).unwrap();
        match p.queue.pop_front() {
            Some((src, d)) => {
                let k = d.len().min(buf.len());
                buf[..k].copy_from_slice(&d[..k]);
                Poll::Ready(Ok((k, src)))
            }
            None => {
                wait(p, cx);
                Poll::Pending
            }
        }
    }
}
impl Drop for SimSocket {
    fn drop(&mut self) {
        if let Ok(mut n) = self.net.inner.lock() {
            n.ports.remove(&self.addr);
        }
    }
}

/// A socket of the harness itself on the simulated network.
pub struct RawSock {
    net: Arc<Net>,
    pub addr: SocketAddr,
}
impl RawSock {
    pub fn send(&self, to: SocketAddr, data: &[u8]) {
        self.net.send(self.addr, to, data);
    }
    pub fn try_recv(&self) -> Option<(SocketAddr, Arc<[u8]>)> {
        self.net.inner.lock().unwrap().ports.get_mut(&self.addr).unwrap().queue.pop_front()
    }
    pub async fn recv(&self) -> (SocketAddr, Arc<[u8]>) {
        std::future::poll_fn(|cx| {
            let mut n = self.net.inner.lock().unwrap();
            let p = n.ports.get_mut(&self.addr).unwrap();
            match p.queue.pop_front() {
                Some(x) => Poll::Ready(x),
                None => {
                    wait(p, cx);
                    Poll::Pending
                }
            }
        })
        .await
    }
}
impl Drop for RawSock {
    fn drop(&mut self) {
        if let Ok(mut n) = self.net.inner.lock() {
            n.ports.remove(&self.addr);
        }
    }
}

/// Polls the inner future with wildcard binds resolving to one host.
pub struct OnHost<F> {
    net: Arc<Net>,
    host: IpAddr,
    f: F,
}
impl<F: Future> Future for OnHost<F> {
    type Output = F::Output;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<F::Output> {
        self.net.inner.lock().unwrap().host = self.host;
        unsafe { self.map_unchecked_mut(|s| &mut s.f) }.poll(cx)
    }
}

#[derive(Clone)]
pub struct World {
    pub net: Arc<Net>,
}

/// Address of the k-th host. What the addresses look like, and where they differ, depends on the world.
pub fn host(k: u8) -> IpAddr {
    let n = k as u16;
    match FAMILY.with(|f| f.get()).expect("host() outside a world") {
        0 => IpAddr::V4(Ipv4Addr::new(200, 255, k, 0)),
        1 => IpAddr::V4(Ipv4Addr::new(k, 0, 255, 1)),
        2 => IpAddr::V6(Ipv6Addr::new(0xfd00, 0, 0, 0, 0, 0, 0, n)),
        3 => IpAddr::V6(Ipv6Addr::new(0x2001, 0xdb8, n, 0xffff, 0, 0, 0, 1)),
        4 => IpAddr::V6(Ipv6Addr::new(0, 0, 0, 0, 0, 0xffff, 0x0a00, n)),
        _ => IpAddr::V4(Ipv4Addr::new(10, 0, 0, k)),
    }
}
pub fn server_addr() -> SocketAddr {
    SocketAddr::new(host(1), 19132)
}

impl World {
    pub fn on<F: Future>(&self, host: IpAddr, f: F) -> OnHost<F> {
        OnHost { net: self.net.clone(), host, f }
    }
    pub fn raw(&self, addr: SocketAddr) -> RawSock {
        let (real, _) = self.net.bind(addr).expect("raw bind");
        RawSock { net: self.net.clone(), addr: real }
    }
    pub fn bound(&self, addr: SocketAddr) -> bool {
        self.net.inner.lock().unwrap().ports.contains_key(&addr)
    }
    pub fn policy(&self, p: Option<Policy>) {
        self.net.inner.lock().unwrap().policy = p;
    }
    /// From now on, the sender of a lost datagram does not hear of the loss.
    pub fn silent_losses(&self) {
        self.net.inner.lock().unwrap().failures = 0;
    }
    pub fn latency(&self, ms: u64) {
        self.net.inner.lock().unwrap().latency = ms;
    }
    /// Wildcard binds get the next port after this one.
    pub fn next_port(&self, p: u16) {
        self.net.inner.lock().unwrap().next_port = p - 1;
    }
    pub fn record(&self, on: bool) {
        self.net.inner.lock().unwrap().record = on;
    }
    /// Gives back the memory the network itself holds in reserve.
    pub fn compact(&self) {
        let mut n = self.net.inner.lock().unwrap();
        n.flights.shrink_to_fit();
        n.ports.shrink_to_fit();
        for p in n.ports.values_mut() {
            p.queue.shrink_to_fit();
            p.wakers.shrink_to_fit();
        }
    }
    /// What happened on the network since the last call, in order.
    pub fn take_events(&self) -> Vec<Ev> {
        std::mem::take(&mut self.net.inner.lock().unwrap().events)
    }
    /// Put a datagram into flight with a forged or real source, bypassing the policy.
    pub fn inject(&self, delay: u64, src: SocketAddr, dst: SocketAddr, data: &[u8]) {
        let mut n = self.net.inner.lock().unwrap();
        n.seq += 1;
        let f = Flight { at: now() + delay, seq: n.seq, src, dst, data: data.into() };
        n.flights.push(f);
        drop(n);
        self.net.wake.notify_one();
    }
}

/// Run one scenario. `limit` bounds its virtual time.
pub fn run<F, Fut>(seed: u64, yields: u64, limit_ms: u64, f: F) -> Case
where
    F: FnOnce(World) -> Fut,
    Fut: Future<Output = Case>,
{
    struct Reset;
    impl Drop for Reset {
        fn drop(&mut self) {
            verif::net::set(None);
            verif::clock::set(None);
            T0.with(|t| t.set(None));
            FAMILY.with(|f| f.set(None));
        }
    }
    let _reset = Reset;
    FAMILY.with(|f| f.set(Some((crate::engine::mix(seed ^ 0xfa31) % 12) as u8)));
    let rt = tokio::runtime::Builder::new_current_thread()
        .enable_time()
        .start_paused(true)
        .rng_seed(tokio::runtime::RngSeed::from_bytes(&seed.to_le_bytes()))
        .build()
        .unwrap();
    let net = Arc::new(Net {
        inner: Mutex::new(Inner {
            ports: HashMap::new(),
            flights: BinaryHeap::new(),
            seq: 0,
            policy: None,
            latency: 1,
            host: host(2),
            next_port: 40000,
            record: false,
            events: vec![],
            rng: Rng::new(seed),
            yields,
            no_yield: false,
            failures: [0, 0, 0, 100][(crate::engine::mix(seed ^ 0x5e4d) % 4) as usize],
            instant: (0, 0),
        }),
        wake: tokio::sync::Notify::new(),
    });
    verif::net::set(Some(Arc::new(Handle(net.clone()))));
    verif::clock::set(Some(clock));
    EPOCH.with(|e| e.set(pick_epoch(seed)));
    let out = rt.block_on(async {
        T0.with(|t| t.set(Some(Instant::now())));
        tokio::spawn(pump(net.clone()));
        match tokio::time::timeout(Duration::from_millis(limit_ms), f(World { net: net.clone() })).await {
            Ok(r) => r,
            Err(_) => Err(format!("the scenario was still not finished after {} s of virtual time", limit_ms / 1000)),
        }
    });
    net.inner.lock().unwrap().policy = None;
    drop(rt);
    out
}
