From 00d205d8459bfb2da5bbe770375d46f5141b8178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:23 +0000
Subject: [PATCH 01/38] verif: cfg-guarded hooks (module re-export, clock and
 UDP stand-ins)

---
 src/lib.rs    |   6 ++
 src/server.rs |   3 +
 src/socket.rs |   5 +-
 src/utils.rs  |   5 ++
 src/verif.rs  | 191 ++++++++++++++++++++++++++++++++++++++++++++++++++
 5 files changed, 209 insertions(+), 1 deletion(-)
 create mode 100644 src/verif.rs

diff --git a/src/lib.rs b/src/lib.rs
index 1292fef..10fa26d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -38,6 +38,8 @@
 //! - [x] reliable ordered
 //! - [x] reliable sequenced
 
+#![allow(unexpected_cfgs)] // raknet_verif, see src/verif.rs
+
 mod arq;
 mod datatype;
 pub mod error;
@@ -48,6 +50,10 @@ mod server;
 mod socket;
 mod utils;
 
+// Verification hooks, see src/verif.rs. Absent from normal builds.
+#[cfg(raknet_verif)]
+pub mod verif;
+
 pub use crate::arq::Reliability;
 pub use crate::log::enable_raknet_log;
 pub use crate::server::*;
diff --git a/src/server.rs b/src/server.rs
index 4ac5256..c173d68 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -1,5 +1,8 @@
 use std::collections::HashMap;
 use std::{net::SocketAddr, sync::Arc};
+#[cfg(raknet_verif)]
+use crate::verif::net::UdpSocket;
+#[cfg(not(raknet_verif))]
 use tokio::net::UdpSocket;
 use tokio::sync::mpsc::channel;
 use tokio::sync::mpsc::{Receiver, Sender};
diff --git a/src/socket.rs b/src/socket.rs
index ac90cf9..3b91971 100644
--- a/src/socket.rs
+++ b/src/socket.rs
@@ -6,8 +6,11 @@ use std::{
         Arc,
     },
 };
+#[cfg(raknet_verif)]
+use crate::verif::net::UdpSocket;
+#[cfg(not(raknet_verif))]
+use tokio::net::UdpSocket;
 use tokio::{
-    net::UdpSocket,
     sync::{mpsc::channel, Mutex, Notify, RwLock},
     time::{sleep, timeout},
 };
diff --git a/src/utils.rs b/src/utils.rs
index 07d349e..d046e71 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -11,6 +11,11 @@ pub enum Endian {
 }
 
 pub fn cur_timestamp_millis() -> i64 {
+    #[cfg(raknet_verif)]
+    if let Some(now) = crate::verif::clock::now() {
+        return now;
+    }
+
     std::time::SystemTime::now()
         .duration_since(std::time::UNIX_EPOCH)
         .unwrap()
diff --git a/src/verif.rs b/src/verif.rs
new file mode 100644
index 0000000..2d0b57a
--- /dev/null
+++ b/src/verif.rs
@@ -0,0 +1,191 @@
+//! Verification hooks, compiled only with `RUSTFLAGS="--cfg raknet_verif"`.
+//!
+//! Nothing here is part of the crate in a normal build. The hooks
+//!  * re-export private modules, so a harness can drive them directly,
+//!  * let a harness supply the millisecond clock of the current thread, and
+//!  * let a harness supply the UDP network of the current thread.
+//!
+//! Without an installed clock or network the real ones are used.
+#![allow(dead_code)]
+
+pub mod arq {
+    pub use crate::arq::*;
+}
+pub mod datatype {
+    pub use crate::datatype::*;
+}
+pub mod fragment {
+    pub use crate::fragment::*;
+}
+pub mod packet {
+    pub use crate::packet::*;
+}
+pub mod utils {
+    pub use crate::utils::*;
+}
+
+/// Millisecond clock of the current thread.
+pub mod clock {
+    use std::cell::Cell;
+
+    thread_local! {
+        static CLOCK: Cell<Option<fn() -> i64>> = const { Cell::new(None) };
+    }
+
+    /// Install (or remove) the clock used by `cur_timestamp_millis` on this thread.
+    pub fn set(clock: Option<fn() -> i64>) {
+        CLOCK.with(|c| c.set(clock));
+    }
+
+    pub(crate) fn now() -> Option<i64> {
+        CLOCK.try_with(|c| c.get()).ok().flatten().map(|f| f())
+    }
+}
+
+/// UDP network of the current thread.
+pub mod net {
+    use std::cell::RefCell;
+    use std::io;
+    use std::net::SocketAddr;
+    use std::sync::Arc;
+    use std::task::{Context, Poll};
+    use tokio::net::ToSocketAddrs;
+
+    /// A simulated network.
+    pub trait Network: Send + Sync {
+        fn bind(&self, addr: SocketAddr) -> io::Result<Box<dyn Socket>>;
+    }
+
+    /// A simulated UDP socket; dropping it releases its address.
+    pub trait Socket: Send + Sync {
+        fn local_addr(&self) -> io::Result<SocketAddr>;
+        fn poll_send_to(
+            &self,
+            cx: &mut Context<'_>,
+            buf: &[u8],
+            target: SocketAddr,
+        ) -> Poll<io::Result<usize>>;
+        fn poll_recv_from(
+            &self,
+            cx: &mut Context<'_>,
+            buf: &mut [u8],
+        ) -> Poll<io::Result<(usize, SocketAddr)>>;
+    }
+
+    thread_local! {
+        static NETWORK: RefCell<Option<Arc<dyn Network>>> = const { RefCell::new(None) };
+    }
+
+    /// Install (or remove) the network on which this thread binds its sockets.
+    pub fn set(network: Option<Arc<dyn Network>>) {
+        NETWORK.with(|n| *n.borrow_mut() = network);
+    }
+
+    fn current() -> Option<Arc<dyn Network>> {
+        NETWORK.try_with(|n| n.borrow().clone()).ok().flatten()
+    }
+
+    enum Inner {
+        Real(tokio::net::UdpSocket),
+        Sim(Box<dyn Socket>, std::sync::Mutex<Option<SocketAddr>>),
+    }
+
+    /// Stand-in for `tokio::net::UdpSocket`.
+    pub struct UdpSocket(Inner);
+
+    async fn resolve<A: ToSocketAddrs>(addr: A) -> io::Result<SocketAddr> {
+        tokio::net::lookup_host(addr)
+            .await?
+            .next()
+            .ok_or_else(|| io::Error::from(io::ErrorKind::InvalidInput))
+    }
+
+    impl UdpSocket {
+        pub async fn bind<A: ToSocketAddrs>(addr: A) -> io::Result<UdpSocket> {
+            match current() {
+                None => tokio::net::UdpSocket::bind(addr)
+                    .await
+                    .map(|s| UdpSocket(Inner::Real(s))),
+                Some(n) => {
+                    let addr = resolve(addr).await?;
+                    Ok(UdpSocket(Inner::Sim(
+                        n.bind(addr)?,
+                        std::sync::Mutex::new(None),
+                    )))
+                }
+            }
+        }
+
+        pub fn from_std(socket: std::net::UdpSocket) -> io::Result<UdpSocket> {
+            tokio::net::UdpSocket::from_std(socket).map(|s| UdpSocket(Inner::Real(s)))
+        }
+
+        pub fn local_addr(&self) -> io::Result<SocketAddr> {
+            match &self.0 {
+                Inner::Real(s) => s.local_addr(),
+                Inner::Sim(s, _) => s.local_addr(),
+            }
+        }
+
+        pub async fn connect<A: ToSocketAddrs>(&self, addr: A) -> io::Result<()> {
+            match &self.0 {
+                Inner::Real(s) => s.connect(addr).await,
+                Inner::Sim(_, peer) => {
+                    let addr = resolve(addr).await?;
+                    *peer.lock().unwrap() = Some(addr);
+                    Ok(())
+                }
+            }
+        }
+
+        pub fn peer_addr(&self) -> io::Result<SocketAddr> {
+            match &self.0 {
+                Inner::Real(s) => s.peer_addr(),
+                Inner::Sim(_, peer) => peer
+                    .lock()
+                    .unwrap()
+                    .ok_or_else(|| io::Error::from(io::ErrorKind::NotConnected)),
+            }
+        }
+
+        pub async fn send_to<A: ToSocketAddrs>(&self, buf: &[u8], target: A) -> io::Result<usize> {
+            match &self.0 {
+                Inner::Real(s) => s.send_to(buf, target).await,
+                Inner::Sim(s, _) => {
+                    let target = resolve(target).await?;
+                    std::future::poll_fn(|cx| s.poll_send_to(cx, buf, target)).await
+                }
+            }
+        }
+
+        pub async fn send(&self, buf: &[u8]) -> io::Result<usize> {
+            match &self.0 {
+                Inner::Real(s) => s.send(buf).await,
+                Inner::Sim(s, _) => {
+                    let target = self.peer_addr()?;
+                    std::future::poll_fn(|cx| s.poll_send_to(cx, buf, target)).await
+                }
+            }
+        }
+
+        pub async fn recv_from(&self, buf: &mut [u8]) -> io::Result<(usize, SocketAddr)> {
+            match &self.0 {
+                Inner::Real(s) => s.recv_from(buf).await,
+                Inner::Sim(s, peer) => loop {
+                    let r = std::future::poll_fn(|cx| s.poll_recv_from(cx, buf)).await?;
+                    let peer = *peer.lock().unwrap();
+                    if peer.is_none() || peer == Some(r.1) {
+                        return Ok(r);
+                    }
+                },
+            }
+        }
+
+        pub async fn recv(&self, buf: &mut [u8]) -> io::Result<usize> {
+            match &self.0 {
+                Inner::Real(s) => s.recv(buf).await,
+                Inner::Sim(..) => self.recv_from(buf).await.map(|r| r.0),
+            }
+        }
+    }
+}
-- 
2.43.0


From 67be08229704d1894df5ec1a710d425cb5bdd22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:38 +0000
Subject: [PATCH 02/38] fix: deliver a reliable message only once when its
 acknowledgement is lost

---
 src/arq.rs    | 44 +++++++++++++++++++++++++++++++++++++++++++-
 src/socket.rs |  2 +-
 2 files changed, 44 insertions(+), 2 deletions(-)

diff --git a/src/arq.rs b/src/arq.rs
index 026cbbf..b57048c 100644
--- a/src/arq.rs
+++ b/src/arq.rs
@@ -1,4 +1,7 @@
-use std::{collections::HashMap, net::SocketAddr};
+use std::{
+    collections::{HashMap, HashSet},
+    net::SocketAddr,
+};
 
 use crate::{datatype::*, error::*, fragment::FragmentQ, raknet_log_debug, utils::*};
 
@@ -433,7 +436,35 @@ impl ACKSet {
     }
 }
 
+/// Remembers which reliable frames were received, so that a retransmission is recognised.
+struct ReliableWindow {
+    // all indices before this one were received
+    next: u32,
+    received: HashSet<u32>,
+}
+
+impl ReliableWindow {
+    fn new() -> Self {
+        Self {
+            next: 0,
+            received: HashSet::new(),
+        }
+    }
+
+    /// Returns false if the index was received before.
+    fn insert(&mut self, index: u32) -> bool {
+        if index < self.next || !self.received.insert(index) {
+            return false;
+        }
+        while self.received.remove(&self.next) {
+            self.next += 1;
+        }
+        true
+    }
+}
+
 pub struct RecvQ {
+    reliable_window: ReliableWindow,
     sequenced_frame_index: u32,
     last_ordered_index: u32,
     sequence_number_ackset: ACKSet,
@@ -445,6 +476,7 @@ pub struct RecvQ {
 impl RecvQ {
     pub fn new() -> Self {
         Self {
+            reliable_window: ReliableWindow::new(),
             sequence_number_ackset: ACKSet::new(),
             packets: HashMap::new(),
             fragment_queue: FragmentQ::new(),
@@ -454,6 +486,16 @@ impl RecvQ {
         }
     }
 
+    /// Insert a frame received from the peer, ignoring retransmissions of reliable frames.
+    pub fn receive(&mut self, frame: FrameSetPacket) -> Result<()> {
+        if frame.is_reliable()? && !self.reliable_window.insert(frame.reliable_frame_index) {
+            // the sender missed the ack
+            self.sequence_number_ackset.insert(frame.sequence_number);
+            return Ok(());
+        }
+        self.insert(frame)
+    }
+
     pub fn insert(&mut self, frame: FrameSetPacket) -> Result<()> {
         if self.packets.contains_key(&frame.sequence_number) {
             return Ok(());
diff --git a/src/socket.rs b/src/socket.rs
index 3b91971..dfb8d5d 100644
--- a/src/socket.rs
+++ b/src/socket.rs
@@ -514,7 +514,7 @@ impl RaknetSocket {
                     let mut recvq = recvq.lock().await;
                     let mut is_break = false;
                     for frame in frames.frames {
-                        recvq.insert(frame).unwrap();
+                        recvq.receive(frame).unwrap();
 
                         for f in recvq.flush(&peer_addr) {
                             if !RaknetSocket::handle(
-- 
2.43.0


From 7275a62e4c1981fbc613dd0edf67f01240fd2293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:41 +0000
Subject: [PATCH 03/38] fix: resend a frame promptly when it is reported
 missing

---
 src/arq.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/arq.rs b/src/arq.rs
index b57048c..5362de7 100644
--- a/src/arq.rs
+++ b/src/arq.rs
@@ -786,8 +786,9 @@ impl SendQ {
                 );
                 item.0.sequence_number = self.sequence_number;
                 self.sequence_number += 1;
+                // resend on the next flush
+                item.1 = false;
                 item.2 = tick;
-                item.3 += 1;
                 item.4.push(item.0.sequence_number);
             }
         }
-- 
2.43.0


From 776c0c43fe7c24d680c5ab9bea1633104e3083a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:35 +0000
Subject: [PATCH 04/38] fix: bound the backed-off retransmission timeout by
 RTO_UBOUND

---
 src/arq.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/arq.rs b/src/arq.rs
index 5362de7..ca67bfa 100644
--- a/src/arq.rs
+++ b/src/arq.rs
@@ -830,6 +830,7 @@ impl SendQ {
             for _ in 0..p.3 {
                 cur_rto = (cur_rto as f64 * 1.5) as i64;
             }
+            let cur_rto = cur_rto.min(SendQ::RTO_UBOUND);
 
             if p.1 && tick - p.2 >= cur_rto {
                 p.0.sequence_number = self.sequence_number;
-- 
2.43.0


From 1cdb9cffa911129a69f77f848bc8e7139444885e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:01 +0000
Subject: [PATCH 05/38] fix: return an error instead of panicking on truncated
 or malformed packets

---
 src/arq.rs      | 24 ++++++++++++------------
 src/datatype.rs |  6 +++++-
 2 files changed, 17 insertions(+), 13 deletions(-)

diff --git a/src/arq.rs b/src/arq.rs
index ca67bfa..05c7237 100644
--- a/src/arq.rs
+++ b/src/arq.rs
@@ -280,8 +280,8 @@ impl FrameVec {
 
         let mut reader = RaknetReader::new(buf);
 
-        ret.id = reader.read_u8().unwrap();
-        ret.sequence_number = reader.read_u24(Endian::Little).unwrap();
+        ret.id = reader.read_u8()?;
+        ret.sequence_number = reader.read_u24(Endian::Little)?;
 
         while reader.pos() < size.try_into().unwrap() {
             let mut frame = FrameSetPacket {
@@ -301,32 +301,32 @@ impl FrameVec {
 
             //Top 3 bits are reliability type
             //224 = 1110 0000(b)
-            frame.flags = reader.read_u8().unwrap();
+            frame.flags = reader.read_u8()?;
 
-            frame.length_in_bytes = reader.read_u16(Endian::Big).unwrap() / 8;
+            frame.length_in_bytes = reader.read_u16(Endian::Big)? / 8;
 
             if frame.is_reliable()? {
-                frame.reliable_frame_index = reader.read_u24(Endian::Little).unwrap();
+                frame.reliable_frame_index = reader.read_u24(Endian::Little)?;
             }
 
             if frame.is_sequenced()? {
-                frame.sequenced_frame_index = reader.read_u24(Endian::Little).unwrap();
+                frame.sequenced_frame_index = reader.read_u24(Endian::Little)?;
             }
             if frame.is_ordered()? {
-                frame.ordered_frame_index = reader.read_u24(Endian::Little).unwrap();
-                frame.order_channel = reader.read_u8().unwrap();
+                frame.ordered_frame_index = reader.read_u24(Endian::Little)?;
+                frame.order_channel = reader.read_u8()?;
             }
 
             //fourth bit is 1 when the frame is fragmented and part of a compound.
             //flags and 16 [0001 0000(b)] == if fragmented
             if (frame.flags & 16) != 0 {
-                frame.compound_size = reader.read_u32(Endian::Big).unwrap();
-                frame.compound_id = reader.read_u16(Endian::Big).unwrap();
-                frame.fragment_index = reader.read_u32(Endian::Big).unwrap();
+                frame.compound_size = reader.read_u32(Endian::Big)?;
+                frame.compound_id = reader.read_u16(Endian::Big)?;
+                frame.fragment_index = reader.read_u32(Endian::Big)?;
             }
 
             let mut buf = vec![0u8; frame.length_in_bytes as usize].into_boxed_slice();
-            reader.read(&mut buf).unwrap();
+            reader.read(&mut buf)?;
             frame.data.append(&mut buf.to_vec());
             ret.frames.push(frame);
         }
diff --git a/src/datatype.rs b/src/datatype.rs
index fe9d08b..9d984e2 100644
--- a/src/datatype.rs
+++ b/src/datatype.rs
@@ -193,6 +193,10 @@ impl RaknetReader {
         }
     }
     pub fn read_u8(&mut self) -> Result<u8> {
+        if self.buf.remaining() < 1 {
+            return Err(RaknetError::ReadPacketBufferError);
+        }
+
         Ok(self.buf.get_u8())
     }
 
@@ -277,7 +281,7 @@ impl RaknetReader {
         }
 
         self.read(&mut buf)?;
-        Ok(String::from_utf8(buf.to_vec()).unwrap())
+        String::from_utf8(buf.to_vec()).map_err(|_| RaknetError::PacketParseError)
     }
 
     pub fn read_magic(&mut self) -> Result<bool> {
-- 
2.43.0


From b37b8bf7ba2d76f88a096489ae45be8bdd494711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:01 +0000
Subject: [PATCH 06/38] fix: write the version byte of an IPv6 address and read
 its real length

---
 src/datatype.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/datatype.rs b/src/datatype.rs
index 9d984e2..4d91ea3 100644
--- a/src/datatype.rs
+++ b/src/datatype.rs
@@ -154,6 +154,7 @@ impl RaknetWriter {
             self.write_u16(address.port(), Endian::Big)?;
             Ok(())
         } else {
+            self.write_u8(0x6)?;
             self.write_i16(23, Endian::Little)?;
             self.write_u16(address.port(), Endian::Big)?;
             self.write_i32(0, Endian::Big)?;
@@ -315,7 +316,8 @@ impl RaknetReader {
             let port = self.read_u16(Endian::Big)?;
             Ok(SocketAddr::new(IpAddr::V4(ip), port))
         } else {
-            if self.buf.remaining() < 44 {
+            // family(2) + port(2) + flow info(4) + address(16) + scope id(4)
+            if self.buf.remaining() < 28 {
                 return Err(RaknetError::ReadPacketBufferError);
             }
 
-- 
2.43.0


From 1f8c20b7c53dc4c0b93f28bbdf0645c0c20f89b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:13 +0000
Subject: [PATCH 07/38] fix: ignore malformed datagrams and messages instead of
 killing the connection's receiver

---
 src/socket.rs | 44 ++++++++++++++++++++++++++++++++------------
 1 file changed, 32 insertions(+), 12 deletions(-)

diff --git a/src/socket.rs b/src/socket.rs
index dfb8d5d..c26471e 100644
--- a/src/socket.rs
+++ b/src/socket.rs
@@ -86,7 +86,8 @@ impl RaknetSocket {
         user_data_sender: &Sender<Vec<u8>>,
         incomming_notify: &Notify,
     ) -> Result<bool> {
-        match PacketID::from(frame.data[0])? {
+        let id = *frame.data.first().ok_or(RaknetError::PacketParseError)?;
+        match PacketID::from(id)? {
             PacketID::ConnectionRequest => {
                 let packet = read_packet_connection_request(frame.data.as_slice())?;
 
@@ -440,7 +441,7 @@ impl RaknetSocket {
                 if connected.is_closed() {
                     let mut recvq = recvq.lock().await;
                     for f in recvq.flush(&peer_addr) {
-                        RaknetSocket::handle(
+                        let _ = RaknetSocket::handle(
                             &f,
                             &peer_addr,
                             &local_addr,
@@ -448,8 +449,7 @@ impl RaknetSocket {
                             &user_data_sender,
                             &incomming_notify,
                         )
-                        .await
-                        .unwrap();
+                        .await;
                     }
                     break;
                 }
@@ -465,15 +465,27 @@ impl RaknetSocket {
 
                 last_heartbeat_time.store(cur_timestamp_millis(), Ordering::Relaxed);
 
-                if PacketID::from(buf[0]).unwrap() == PacketID::Disconnect {
-                    connected.close();
-                    break;
+                // a malformed or unknown datagram is ignored
+                if buf.is_empty() {
+                    continue;
+                }
+
+                match PacketID::from(buf[0]) {
+                    Ok(PacketID::Disconnect) => {
+                        connected.close();
+                        break;
+                    }
+                    Ok(_) => {}
+                    Err(_) => continue,
                 }
 
                 if buf[0] == PacketID::Ack.to_u8() {
                     //handle ack
                     let mut sendq = sendq.write().await;
-                    let ack = read_packet_ack(&buf).unwrap();
+                    let ack = match read_packet_ack(&buf) {
+                        Ok(p) => p,
+                        Err(_) => continue,
+                    };
                     for i in 0..ack.record_count {
                         if ack.sequences[i as usize].0 == ack.sequences[i as usize].1 {
                             sendq.ack(ack.sequences[i as usize].0, cur_timestamp_millis());
@@ -488,7 +500,10 @@ impl RaknetSocket {
 
                 if buf[0] == PacketID::Nack.to_u8() {
                     //handle nack
-                    let nack = read_packet_nack(&buf).unwrap();
+                    let nack = match read_packet_nack(&buf) {
+                        Ok(p) => p,
+                        Err(_) => continue,
+                    };
 
                     let mut sendq = sendq.write().await;
 
@@ -509,12 +524,17 @@ impl RaknetSocket {
                 if buf[0] >= PacketID::FrameSetPacketBegin.to_u8()
                     && buf[0] <= PacketID::FrameSetPacketEnd.to_u8()
                 {
-                    let frames = FrameVec::new(buf.clone()).unwrap();
+                    let frames = match FrameVec::new(buf.clone()) {
+                        Ok(p) => p,
+                        Err(_) => continue,
+                    };
 
                     let mut recvq = recvq.lock().await;
                     let mut is_break = false;
                     for frame in frames.frames {
-                        recvq.receive(frame).unwrap();
+                        if recvq.receive(frame).is_err() {
+                            continue;
+                        }
 
                         for f in recvq.flush(&peer_addr) {
                             if !RaknetSocket::handle(
@@ -526,7 +546,7 @@ impl RaknetSocket {
                                 &incomming_notify,
                             )
                             .await
-                            .unwrap()
+                            .unwrap_or(true)
                             {
                                 raknet_log_info!("handle over");
                                 connected.close();
-- 
2.43.0


From d054ce8627134ff86b28ea1fb4c276c583f3a3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:38 +0000
Subject: [PATCH 08/38] fix: process acknowledgement ranges in time bounded by
 the outstanding packets

---
 src/arq.rs    | 32 +++++++++++++++++++++++++++-----
 src/socket.rs | 21 ++++-----------------
 2 files changed, 31 insertions(+), 22 deletions(-)

diff --git a/src/arq.rs b/src/arq.rs
index 05c7237..ac0ddd6 100644
--- a/src/arq.rs
+++ b/src/arq.rs
@@ -773,10 +773,10 @@ impl SendQ {
         self.rto
     }
 
-    pub fn nack(&mut self, sequence: u32, tick: i64) {
+    pub fn nack(&mut self, first: u32, last: u32, tick: i64) {
         for i in 0..self.sent_packet.len() {
             let item = &mut self.sent_packet[i];
-            if item.1 && item.0.sequence_number == sequence {
+            if item.1 && (first..=last).contains(&item.0.sequence_number) {
                 raknet_log_debug!(
                     "packet {}-{}-{} nack {} times",
                     item.0.sequence_number,
@@ -796,9 +796,7 @@ impl SendQ {
 
     pub fn ack(&mut self, sequence: u32, tick: i64) {
         if sequence != 0 && sequence != self.ack_sequence_number + 1 {
-            for i in self.ack_sequence_number + 1..sequence {
-                self.nack(i, tick);
-            }
+            self.nack(self.ack_sequence_number + 1, sequence - 1, tick);
         }
 
         self.ack_sequence_number = sequence;
@@ -819,6 +817,30 @@ impl SendQ {
         }
     }
 
+    /// Acknowledge a range of sequence numbers.
+    pub fn ack_range(&mut self, first: u32, last: u32, tick: i64) {
+        // a number that was never used cannot have been received
+        if last >= self.sequence_number {
+            return;
+        }
+
+        // only the numbers of outstanding packets and the end of the range have any effect
+        let mut sequences: Vec<u32> = self
+            .sent_packet
+            .iter()
+            .flat_map(|p| p.4.iter().cloned())
+            .filter(|s| (first..last).contains(s))
+            .collect();
+        sequences.sort_unstable();
+
+        for i in sequences {
+            self.ack(i, tick);
+        }
+        if first <= last {
+            self.ack(last, tick);
+        }
+    }
+
     fn tick(&mut self, tick: i64) {
         for i in 0..self.sent_packet.len() {
             let p = &mut self.sent_packet[i];
diff --git a/src/socket.rs b/src/socket.rs
index c26471e..8bbc352 100644
--- a/src/socket.rs
+++ b/src/socket.rs
@@ -486,14 +486,8 @@ impl RaknetSocket {
                         Ok(p) => p,
                         Err(_) => continue,
                     };
-                    for i in 0..ack.record_count {
-                        if ack.sequences[i as usize].0 == ack.sequences[i as usize].1 {
-                            sendq.ack(ack.sequences[i as usize].0, cur_timestamp_millis());
-                        } else {
-                            for i in ack.sequences[i as usize].0..ack.sequences[i as usize].1 + 1 {
-                                sendq.ack(i, cur_timestamp_millis());
-                            }
-                        }
+                    for i in ack.sequences {
+                        sendq.ack_range(i.0, i.1, cur_timestamp_millis());
                     }
                     continue;
                 }
@@ -507,15 +501,8 @@ impl RaknetSocket {
 
                     let mut sendq = sendq.write().await;
 
-                    for i in 0..nack.record_count {
-                        if nack.sequences[i as usize].0 == nack.sequences[i as usize].1 {
-                            sendq.nack(nack.sequences[i as usize].0, cur_timestamp_millis());
-                        } else {
-                            for i in nack.sequences[i as usize].0..nack.sequences[i as usize].1 + 1
-                            {
-                                sendq.nack(i, cur_timestamp_millis());
-                            }
-                        }
+                    for i in nack.sequences {
+                        sendq.nack(i.0, i.1, cur_timestamp_millis());
                     }
                     continue;
                 }
-- 
2.43.0


From d876ee430301f3bbe101d02175a0d8861ffba029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:53 +0000
Subject: [PATCH 09/38] fix: keep counting when the 24-bit numbers of the wire
 format wrap around

---
 src/arq.rs    | 52 +++++++++++++++++++++++++++++++++++++++++++++++----
 src/socket.rs |  2 +-
 2 files changed, 49 insertions(+), 5 deletions(-)

diff --git a/src/arq.rs b/src/arq.rs
index ac0ddd6..bf9d64a 100644
--- a/src/arq.rs
+++ b/src/arq.rs
@@ -51,6 +51,30 @@ impl Reliability {
     }
 }
 
+/// The number closest to `near` whose lower 24 bits are `n`, as indices are 24 bits wide on the wire.
+fn expand_u24(n: u32, near: u32) -> u32 {
+    let ahead = n.wrapping_sub(near) & 0xff_ffff;
+    let behind = 0x100_0000 - ahead;
+    if ahead >= 0x80_0000 && near >= behind {
+        near - behind
+    } else {
+        near + ahead
+    }
+}
+
+/// Split ranges at multiples of 2^24, where the numbers on the wire wrap around.
+fn split_u24(ranges: Vec<(u32, u32)>) -> Vec<(u32, u32)> {
+    let mut ret = vec![];
+    for (mut first, last) in ranges {
+        while first >> 24 != last >> 24 {
+            ret.push((first, first | 0xff_ffff));
+            first = (first | 0xff_ffff) + 1;
+        }
+        ret.push((first, last));
+    }
+    ret
+}
+
 const NEEDS_B_AND_AS_FLAG: u8 = 0x4;
 const CONTINUOUS_SEND_FLAG: u8 = 0x8;
 
@@ -487,7 +511,15 @@ impl RecvQ {
     }
 
     /// Insert a frame received from the peer, ignoring retransmissions of reliable frames.
-    pub fn receive(&mut self, frame: FrameSetPacket) -> Result<()> {
+    pub fn receive(&mut self, mut frame: FrameSetPacket) -> Result<()> {
+        frame.sequence_number =
+            expand_u24(frame.sequence_number, self.sequence_number_ackset.last_max);
+        frame.reliable_frame_index =
+            expand_u24(frame.reliable_frame_index, self.reliable_window.next);
+        frame.sequenced_frame_index =
+            expand_u24(frame.sequenced_frame_index, self.sequenced_frame_index);
+        frame.ordered_frame_index = expand_u24(frame.ordered_frame_index, self.last_ordered_index);
+
         if frame.is_reliable()? && !self.reliable_window.insert(frame.reliable_frame_index) {
             // the sender missed the ack
             self.sequence_number_ackset.insert(frame.sequence_number);
@@ -565,11 +597,11 @@ impl RecvQ {
     }
 
     pub fn get_ack(&mut self) -> Vec<(u32, u32)> {
-        self.sequence_number_ackset.get_ack()
+        split_u24(self.sequence_number_ackset.get_ack())
     }
 
     pub fn get_nack(&mut self) -> Vec<(u32, u32)> {
-        self.sequence_number_ackset.get_nack()
+        split_u24(self.sequence_number_ackset.get_nack())
     }
 
     pub fn flush(&mut self, _peer_addr: &SocketAddr) -> Vec<FrameSetPacket> {
@@ -773,7 +805,16 @@ impl SendQ {
         self.rto
     }
 
-    pub fn nack(&mut self, first: u32, last: u32, tick: i64) {
+    /// Handle a range of sequence numbers reported missing by the peer.
+    pub fn nack_range(&mut self, first: u32, last: u32, tick: i64) {
+        self.nack(
+            expand_u24(first, self.sequence_number),
+            expand_u24(last, self.sequence_number),
+            tick,
+        );
+    }
+
+    fn nack(&mut self, first: u32, last: u32, tick: i64) {
         for i in 0..self.sent_packet.len() {
             let item = &mut self.sent_packet[i];
             if item.1 && (first..=last).contains(&item.0.sequence_number) {
@@ -819,6 +860,9 @@ impl SendQ {
 
     /// Acknowledge a range of sequence numbers.
     pub fn ack_range(&mut self, first: u32, last: u32, tick: i64) {
+        let first = expand_u24(first, self.sequence_number);
+        let last = expand_u24(last, self.sequence_number);
+
         // a number that was never used cannot have been received
         if last >= self.sequence_number {
             return;
diff --git a/src/socket.rs b/src/socket.rs
index 8bbc352..4b8af26 100644
--- a/src/socket.rs
+++ b/src/socket.rs
@@ -502,7 +502,7 @@ impl RaknetSocket {
                     let mut sendq = sendq.write().await;
 
                     for i in nack.sequences {
-                        sendq.nack(i.0, i.1, cur_timestamp_millis());
+                        sendq.nack_range(i.0, i.1, cur_timestamp_millis());
                     }
                     continue;
                 }
-- 
2.43.0


From ce9c3550f243eb9f189efc6b8ca630d55eff7f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:53 +0000
Subject: [PATCH 10/38] fix: let the fragment group id wrap around instead of
 overflowing

---
 src/arq.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arq.rs b/src/arq.rs
index bf9d64a..6bb581e 100644
--- a/src/arq.rs
+++ b/src/arq.rs
@@ -758,7 +758,7 @@ impl SendQ {
                         self.packets.push(frame);
                         self.reliable_frame_index += 1;
                     }
-                    self.compound_id += 1;
+                    self.compound_id = self.compound_id.wrapping_add(1);
                     self.ordered_frame_index += 1;
                 }
             }
-- 
2.43.0


From 48d5b5df9b22ce2ccbd19ba1fcb4f932471a9444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:53 +0000
Subject: [PATCH 11/38] fix: reject a fragment of a group without fragments

---
 src/arq.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/arq.rs b/src/arq.rs
index 6bb581e..8d5c6a5 100644
--- a/src/arq.rs
+++ b/src/arq.rs
@@ -567,6 +567,10 @@ impl RecvQ {
                 }
 
                 if frame.is_fragment() {
+                    if frame.compound_size == 0 {
+                        return Err(RaknetError::PacketParseError);
+                    }
+
                     self.fragment_queue.insert(frame);
 
                     for i in self.fragment_queue.flush()? {
-- 
2.43.0


From 2c02624e8207d0bd0da0428124eb68d3d1508092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:10 +0000
Subject: [PATCH 12/38] fix: ignore an empty datagram instead of reading the
 previous one's id

---
 src/server.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/server.rs b/src/server.rs
index c173d68..e5a42a4 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -268,6 +268,10 @@ impl RaknetListener {
                     }
                 }
 
+                if size == 0 {
+                    continue;
+                }
+
                 let cur_status = match PacketID::from(buf[0]) {
                     Ok(p) => p,
                     Err(e) => {
-- 
2.43.0


From a718b6331de1f28ebd2c18f8751255d96b04505f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:10 +0000
Subject: [PATCH 13/38] fix: keep listening when a disconnect arrives for a
 session that just ended

---
 src/server.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/server.rs b/src/server.rs
index e5a42a4..c93c11e 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -457,7 +457,8 @@ impl RaknetListener {
                     PacketID::Disconnect => {
                         let mut sessions = sessions.lock().await;
                         if sessions.contains_key(&addr) {
-                            sessions[&addr].1.send(buf[..size].to_vec()).await.unwrap();
+                            // the session may have ended by itself
+                            let _ = sessions[&addr].1.send(buf[..size].to_vec()).await;
                             sessions.remove(&addr);
                         }
                     }
-- 
2.43.0


From e44a27520179a9ea4837741139b181ddcf6b9243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:11 +0000
Subject: [PATCH 14/38] fix: keep the negotiated MTU within its legal range

---
 src/server.rs | 5 +++--
 src/socket.rs | 6 ++++--
 src/utils.rs  | 3 +++
 3 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/server.rs b/src/server.rs
index c93c11e..d7876e4 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -390,12 +390,13 @@ impl RaknetListener {
                             Ok(p) => p,
                             Err(_) => continue,
                         };
+                        let mtu = req.mtu.clamp(RAKNET_MIN_MTU, RAKNET_CLIENT_MTU);
 
                         let packet = crate::packet::OpenConnectionReply2 {
                             magic: true,
                             guid,
                             address: addr,
-                            mtu: req.mtu,
+                            mtu,
                             encryption_enabled: 0x00,
                         };
 
@@ -444,7 +445,7 @@ impl RaknetListener {
                             &addr,
                             &socket,
                             receiver,
-                            req.mtu,
+                            mtu,
                             collect_sender.clone(),
                             raknet_version,
                         )
diff --git a/src/socket.rs b/src/socket.rs
index 4b8af26..0dab9c9 100644
--- a/src/socket.rs
+++ b/src/socket.rs
@@ -272,10 +272,12 @@ impl RaknetSocket {
             Err(_) => return Err(RaknetError::PacketParseError),
         };
 
+        let mtu = reply1.mtu_size.clamp(RAKNET_MIN_MTU, RAKNET_CLIENT_MTU);
+
         let packet = OpenConnectionRequest2 {
             magic: true,
             address: remote_addr,
-            mtu: reply1.mtu_size,
+            mtu,
             guid,
         };
 
@@ -326,7 +328,7 @@ impl RaknetSocket {
             break;
         }
 
-        let sendq = Arc::new(RwLock::new(SendQ::new(reply1.mtu_size)));
+        let sendq = Arc::new(RwLock::new(SendQ::new(mtu)));
 
         let packet = ConnectionRequest {
             guid,
diff --git a/src/utils.rs b/src/utils.rs
index d046e71..5b0c50b 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -3,6 +3,9 @@ pub const RAKNET_PROTOCOL_VERSION_LIST: [u8; 2] = [10, 11];
 //the MTU is minecraft bedrock 1.18.2 give me
 pub const RAKNET_CLIENT_MTU: u16 = 1400;
 
+//the smallest MTU of a Raknet connection
+pub const RAKNET_MIN_MTU: u16 = 400;
+
 pub const RECEIVE_TIMEOUT: i64 = 60000;
 
 pub enum Endian {
-- 
2.43.0


From 05420fa5a0a83ccaf52e0908e44f388fa464ddfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:12 +0000
Subject: [PATCH 15/38] fix: return ConnectionClosed when the connection closes
 during a send

---
 src/socket.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/socket.rs b/src/socket.rs
index 0dab9c9..11daa9b 100644
--- a/src/socket.rs
+++ b/src/socket.rs
@@ -836,7 +836,7 @@ impl RaknetSocket {
                     self.loss_rate.load(Ordering::Relaxed),
                 ))
                 .await
-                .unwrap();
+                .map_err(|_| RaknetError::ConnectionClosed)?;
         }
         Ok(())
     }
-- 
2.43.0


From abf614260cf3a15cd8d3077b41a7b87125df8007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:12 +0000
Subject: [PATCH 16/38] fix: do not let the drop watcher take its own start
 notification for the drop

---
 src/server.rs | 4 ----
 src/socket.rs | 4 ----
 2 files changed, 8 deletions(-)

diff --git a/src/server.rs b/src/server.rs
index d7876e4..0eff5be 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -614,8 +614,6 @@ impl RaknetListener {
         let drop_notifier = self.drop_notifier.clone();
         tokio::spawn(async move {
             raknet_log_debug!("listener drop watcher start");
-            drop_notifier.notify_one();
-
             drop_notifier.notified().await;
 
             if close_notifier.is_closed() {
@@ -627,8 +625,6 @@ impl RaknetListener {
 
             raknet_log_debug!("listener drop watcher closed");
         });
-
-        self.drop_notifier.notified().await;
     }
 }
 
diff --git a/src/socket.rs b/src/socket.rs
index 11daa9b..88e9ece 100644
--- a/src/socket.rs
+++ b/src/socket.rs
@@ -932,8 +932,6 @@ impl RaknetSocket {
         let drop_notifier = self.drop_notifier.clone();
         tokio::spawn(async move {
             raknet_log_debug!("socket drop watcher start");
-            drop_notifier.notify_one();
-
             drop_notifier.notified().await;
 
             if close_notifier.is_closed() {
@@ -945,8 +943,6 @@ impl RaknetSocket {
 
             raknet_log_debug!("socket drop watcher closed");
         });
-
-        self.drop_notifier.notified().await;
     }
 }
 
-- 
2.43.0


From 5ed85714b513bc1aa0698589636c7f4b60730284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:13 +0000
Subject: [PATCH 17/38] fix: let a listener that never listened be closed

---
 src/server.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/server.rs b/src/server.rs
index 0eff5be..3fed973 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -577,7 +577,9 @@ impl RaknetListener {
             return Ok(());
         }
         self.close_notifier.close();
-        self.all_session_closed_notifier.notified().await;
+        if self.listened {
+            self.all_session_closed_notifier.notified().await;
+        }
 
         // wait all thread exit and drop socket pointer.
         while Arc::strong_count(self.socket.as_ref().unwrap()) != 1 {
-- 
2.43.0


From 431065ad07ec498c44319c6e1e6549036ae86af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:13 +0000
Subject: [PATCH 18/38] fix: return an error from local_addr of a closed
 listener

---
 src/server.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/server.rs b/src/server.rs
index 3fed973..36fdfb6 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -562,7 +562,10 @@ impl RaknetListener {
     /// assert_eq!(socket.local_addr().unwrap().ip(), IpAddr::V4(Ipv4Addr::new(127, 0, 0, 1)));
     /// ```
     pub fn local_addr(&self) -> Result<SocketAddr> {
-        Ok(self.socket.as_ref().unwrap().local_addr().unwrap())
+        match self.socket.as_ref() {
+            Some(s) => s.local_addr().map_err(|_| RaknetError::SocketError),
+            None => Err(RaknetError::NotListen),
+        }
     }
 
     /// Close Raknet Server and all connections.
-- 
2.43.0


From e3568e511559e078fdf754e588c488498f9b7142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:14 +0000
Subject: [PATCH 19/38] fix: do not block the listener while connections wait
 to be accepted

---
 src/server.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/server.rs b/src/server.rs
index 36fdfb6..a174e50 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -4,8 +4,8 @@ use std::{net::SocketAddr, sync::Arc};
 use crate::verif::net::UdpSocket;
 #[cfg(not(raknet_verif))]
 use tokio::net::UdpSocket;
-use tokio::sync::mpsc::channel;
-use tokio::sync::mpsc::{Receiver, Sender};
+use tokio::sync::mpsc::{channel, unbounded_channel};
+use tokio::sync::mpsc::{Receiver, Sender, UnboundedReceiver, UnboundedSender};
 use tokio::sync::{Mutex, Notify};
 
 use crate::error::{RaknetError, Result};
@@ -24,8 +24,8 @@ pub struct RaknetListener {
     socket: Option<Arc<UdpSocket>>,
     guid: u64,
     listened: bool,
-    connection_receiver: Receiver<RaknetSocket>,
-    connection_sender: Sender<RaknetSocket>,
+    connection_receiver: UnboundedReceiver<RaknetSocket>,
+    connection_sender: UnboundedSender<RaknetSocket>,
     sessions: Arc<Mutex<HashMap<SocketAddr, SessionSender>>>,
     close_notifier: Arc<tokio::sync::Semaphore>,
     all_session_closed_notifier: Arc<Notify>,
@@ -50,7 +50,7 @@ impl RaknetListener {
             }
         };
 
-        let (connection_sender, connection_receiver) = channel::<RaknetSocket>(10);
+        let (connection_sender, connection_receiver) = unbounded_channel::<RaknetSocket>();
 
         let ret = Self {
             motd: String::new(),
@@ -88,7 +88,7 @@ impl RaknetListener {
             }
         };
 
-        let (connection_sender, connection_receiver) = channel::<RaknetSocket>(10);
+        let (connection_sender, connection_receiver) = unbounded_channel::<RaknetSocket>();
 
         let ret = Self {
             motd: String::new(),
@@ -453,7 +453,7 @@ impl RaknetListener {
 
                         raknet_log_debug!("accept connection : {}", addr);
                         sessions.insert(addr, (cur_timestamp_millis(), sender));
-                        let _ = connection_sender.send(s).await;
+                        let _ = connection_sender.send(s);
                     }
                     PacketID::Disconnect => {
                         let mut sessions = sessions.lock().await;
-- 
2.43.0


From 22a7e2de8d21f393f7b3884d8ab9976d9ee67852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:15 +0000
Subject: [PATCH 20/38] fix: do not start a session while the listener is
 closing

---
 src/server.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/server.rs b/src/server.rs
index a174e50..793f55d 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -407,6 +407,11 @@ impl RaknetListener {
 
                         let mut sessions = sessions.lock().await;
 
+                        // no session may start once the collecter ended all of them
+                        if close_notify.is_closed() {
+                            break;
+                        }
+
                         if sessions.contains_key(&addr) {
                             let packet = write_packet_already_connected(&AlreadyConnected {
                                 magic: true,
-- 
2.43.0


From 5294f50661d56a3e265eb583b4d2be158297e17c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:16 +0000
Subject: [PATCH 21/38] fix: do not stall the connection and its listener when
 messages are left unread

---
 src/socket.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/socket.rs b/src/socket.rs
index 88e9ece..e69fce5 100644
--- a/src/socket.rs
+++ b/src/socket.rs
@@ -11,7 +11,10 @@ use crate::verif::net::UdpSocket;
 #[cfg(not(raknet_verif))]
 use tokio::net::UdpSocket;
 use tokio::{
-    sync::{mpsc::channel, Mutex, Notify, RwLock},
+    sync::{
+        mpsc::{channel, unbounded_channel},
+        Mutex, Notify, RwLock,
+    },
     time::{sleep, timeout},
 };
 
@@ -20,7 +23,7 @@ use crate::{
     raknet_log_error, raknet_log_info,
 };
 use std::sync::atomic::{AtomicBool, Ordering};
-use tokio::sync::mpsc::{Receiver, Sender};
+use tokio::sync::mpsc::{Receiver, Sender, UnboundedReceiver, UnboundedSender};
 
 use crate::{arq::*, packet::*, raknet_log_debug, utils::*};
 
@@ -28,7 +31,7 @@ use crate::{arq::*, packet::*, raknet_log_debug, utils::*};
 pub struct RaknetSocket {
     local_addr: SocketAddr,
     peer_addr: SocketAddr,
-    user_data_receiver: Arc<Mutex<Receiver<Vec<u8>>>>,
+    user_data_receiver: Arc<Mutex<UnboundedReceiver<Vec<u8>>>>,
     recvq: Arc<Mutex<RecvQ>>,
     sendq: Arc<RwLock<SendQ>>,
     close_notifier: Arc<tokio::sync::Semaphore>,
@@ -53,7 +56,7 @@ impl RaknetSocket {
         collecter: Arc<Mutex<Sender<SocketAddr>>>,
         raknet_version: u8,
     ) -> Self {
-        let (user_data_sender, user_data_receiver) = channel::<Vec<u8>>(100);
+        let (user_data_sender, user_data_receiver) = unbounded_channel::<Vec<u8>>();
         let (sender_sender, sender_receiver) = channel::<(Vec<u8>, SocketAddr, bool, u8)>(10);
 
         let ret = RaknetSocket {
@@ -83,7 +86,7 @@ impl RaknetSocket {
         peer_addr: &SocketAddr,
         local_addr: &SocketAddr,
         sendq: &RwLock<SendQ>,
-        user_data_sender: &Sender<Vec<u8>>,
+        user_data_sender: &UnboundedSender<Vec<u8>>,
         incomming_notify: &Notify,
     ) -> Result<bool> {
         let id = *frame.data.first().ok_or(RaknetError::PacketParseError)?;
@@ -147,7 +150,7 @@ impl RaknetSocket {
                 return Ok(false);
             }
             _ => {
-                match user_data_sender.send(frame.data.clone()).await {
+                match user_data_sender.send(frame.data.clone()) {
                     Ok(_) => {}
                     Err(_) => {
                         return Ok(false);
@@ -342,7 +345,7 @@ impl RaknetSocket {
         sendq1.insert(Reliability::ReliableOrdered, &buf)?;
         std::mem::drop(sendq1);
 
-        let (user_data_sender, user_data_receiver) = channel::<Vec<u8>>(100);
+        let (user_data_sender, user_data_receiver) = unbounded_channel::<Vec<u8>>();
 
         let (sender, receiver) = channel::<Vec<u8>>(100);
 
@@ -426,7 +429,7 @@ impl RaknetSocket {
         &self,
         s: &Arc<UdpSocket>,
         mut receiver: Receiver<Vec<u8>>,
-        user_data_sender: Sender<Vec<u8>>,
+        user_data_sender: UnboundedSender<Vec<u8>>,
     ) {
         let connected = self.close_notifier.clone();
         let peer_addr = self.peer_addr;
-- 
2.43.0


From f9f4cba5ee1a7b646b4de83aa9a9e253831ab468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:17 +0000
Subject: [PATCH 22/38] fix: parse the received reply, not the sent request,
 when the version is refused

---
 src/socket.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/socket.rs b/src/socket.rs
index e69fce5..ecdd35c 100644
--- a/src/socket.rs
+++ b/src/socket.rs
@@ -255,7 +255,9 @@ impl RaknetSocket {
 
             if reply1_buf[0] != PacketID::OpenConnectionReply1.to_u8() {
                 if reply1_buf[0] == PacketID::IncompatibleProtocolVersion.to_u8() {
-                    let _packet = match read_packet_incompatible_protocol_version(&buf[..size]) {
+                    let _packet = match read_packet_incompatible_protocol_version(
+                        &reply1_buf[..size],
+                    ) {
                         Ok(p) => p,
                         Err(_) => return Err(RaknetError::NotSupportVersion),
                     };
-- 
2.43.0


From fe47f1f19fd5e6ecb90103524441089d91dfc13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:18 +0000
Subject: [PATCH 23/38] fix: ignore datagrams that do not come from the server

---
 src/socket.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/socket.rs b/src/socket.rs
index ecdd35c..a5eb929 100644
--- a/src/socket.rs
+++ b/src/socket.rs
@@ -363,7 +363,7 @@ impl RaknetSocket {
                 if connected_s.is_closed() {
                     break;
                 }
-                let (size, _) = match match timeout(
+                let (size, src) = match match timeout(
                     std::time::Duration::from_secs(10),
                     recv_s.recv_from(&mut buf),
                 )
@@ -386,6 +386,11 @@ impl RaknetSocket {
                     }
                 };
 
+                // only the server speaks for this connection
+                if src != remote_addr {
+                    continue;
+                }
+
                 match sender.send(buf[..size].to_vec()).await {
                     Ok(_) => {}
                     Err(e) => {
-- 
2.43.0


From 4e03a7d160b2dcfecff251df32303141668101af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:31 +0000
Subject: [PATCH 24/38] fix: let connect fail when the connection closes before
 it is established

---
 src/socket.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/socket.rs b/src/socket.rs
index a5eb929..b15f35d 100644
--- a/src/socket.rs
+++ b/src/socket.rs
@@ -427,7 +427,15 @@ impl RaknetSocket {
         ret.drop_watcher().await;
 
         raknet_log_debug!("wait incomming notify");
-        ret.incomming_notifier.notified().await;
+        let closed = tokio::select! {
+            biased;
+            _ = ret.incomming_notifier.notified() => false,
+            _ = ret.close_notifier.acquire() => true,
+        };
+
+        if closed {
+            return Err(RaknetError::ConnectionClosed);
+        }
 
         Ok(ret)
     }
-- 
2.43.0


From 91d47d99dddfa3ee8dac3531459096a1604d17e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:32 +0000
Subject: [PATCH 25/38] fix: accept only a complete pong as the reply to a ping

---
 src/socket.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/socket.rs b/src/socket.rs
index b15f35d..7d2801e 100644
--- a/src/socket.rs
+++ b/src/socket.rs
@@ -793,7 +793,7 @@ impl RaknetSocket {
 
             let mut buf = [0u8; 1024];
 
-            match match tokio::time::timeout(
+            let (size, _) = match match tokio::time::timeout(
                 std::time::Duration::from_secs(5),
                 s.recv_from(&mut buf),
             )
@@ -808,9 +808,13 @@ impl RaknetSocket {
                 Err(_) => return Err(RaknetError::SocketError),
             };
 
-            if let Ok(p) = read_packet_pong(&buf) {
-                return Ok((p.time - packet.time, p.motd));
-            };
+            if size != 0 && buf[0] == PacketID::UnconnectedPong.to_u8() {
+                if let Ok(p) = read_packet_pong(&buf[..size]) {
+                    if p.magic {
+                        return Ok((p.time - packet.time, p.motd));
+                    }
+                };
+            }
 
             tokio::time::sleep(std::time::Duration::from_secs(2)).await;
         }
-- 
2.43.0


From 595fa47443a08e230219dbc6777be628dab6e77a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:33 +0000
Subject: [PATCH 26/38] fix: answer pings with the current motd after it
 changed

---
 src/server.rs | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/server.rs b/src/server.rs
index 793f55d..d85ace2 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -20,7 +20,7 @@ type SessionSender = (i64, Sender<Vec<u8>>);
 
 /// Implementation of Raknet Server.
 pub struct RaknetListener {
-    motd: String,
+    motd: Arc<std::sync::Mutex<String>>,
     socket: Option<Arc<UdpSocket>>,
     guid: u64,
     listened: bool,
@@ -53,7 +53,7 @@ impl RaknetListener {
         let (connection_sender, connection_receiver) = unbounded_channel::<RaknetSocket>();
 
         let ret = Self {
-            motd: String::new(),
+            motd: Arc::new(std::sync::Mutex::new(String::new())),
             socket: Some(Arc::new(s)),
             guid: rand::random(),
             listened: false,
@@ -91,7 +91,7 @@ impl RaknetListener {
         let (connection_sender, connection_receiver) = unbounded_channel::<RaknetSocket>();
 
         let ret = Self {
-            motd: String::new(),
+            motd: Arc::new(std::sync::Mutex::new(String::new())),
             socket: Some(Arc::new(s)),
             guid: rand::random(),
             listened: false,
@@ -211,7 +211,7 @@ impl RaknetListener {
             return;
         }
 
-        if self.motd.is_empty() {
+        if self.get_motd().await.is_empty() {
             self.set_motd(
                 SERVER_NAME,
                 MAX_CONNECTION,
@@ -227,7 +227,7 @@ impl RaknetListener {
         let guid = self.guid;
         let sessions = self.sessions.clone();
         let connection_sender = self.connection_sender.clone();
-        let motd = self.get_motd().await;
+        let motd = self.motd.clone();
 
         self.listened = true;
 
@@ -245,7 +245,6 @@ impl RaknetListener {
             raknet_log_debug!("start listen worker : {}", local_addr);
 
             loop {
-                let motd = motd.clone();
                 let size: usize;
                 let addr: SocketAddr;
 
@@ -291,7 +290,7 @@ impl RaknetListener {
                             time: cur_timestamp_millis(),
                             guid,
                             magic: true,
-                            motd,
+                            motd: motd.lock().unwrap().clone(),
                         };
 
                         let pong = match write_packet_pong(&packet) {
@@ -317,7 +316,7 @@ impl RaknetListener {
                             time: cur_timestamp_millis(),
                             guid,
                             magic: true,
-                            motd,
+                            motd: motd.lock().unwrap().clone(),
                         };
 
                         let pong = match write_packet_pong(&packet) {
@@ -536,7 +535,7 @@ impl RaknetListener {
         game_type: &str,
         port: u16,
     ) {
-        self.motd = format!(
+        *self.motd.lock().unwrap() = format!(
             "MCPE;{};{};{};0;{};{};Bedrock level;{};1;{};",
             server_name,
             mc_protocol_version,
@@ -556,7 +555,7 @@ impl RaknetListener {
     /// let motd = listener.get_motd().await;
     /// ```
     pub async fn get_motd(&self) -> String {
-        self.motd.clone()
+        self.motd.lock().unwrap().clone()
     }
 
     /// Returns the socket address of the local half of this Raknet connection.
@@ -609,7 +608,7 @@ impl RaknetListener {
     /// socket.set_full_motd("motd").await;
     /// ```
     pub fn set_full_motd(&mut self, motd: String) -> Result<()> {
-        self.motd = motd;
+        *self.motd.lock().unwrap() = motd;
         Ok(())
     }
 
-- 
2.43.0


From 6e47195774638d5fe6036fb4886e28d61ba9c0ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:33 +0000
Subject: [PATCH 27/38] fix: repeat a lost OpenConnectionReply2 instead of
 refusing the client

---
 src/server.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/server.rs b/src/server.rs
index d85ace2..c80b46c 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -16,6 +16,7 @@ use crate::{raknet_log_debug, raknet_log_error, socket::*};
 const SERVER_NAME: &str = "Rust Raknet Server";
 const MAX_CONNECTION: u32 = 99999;
 
+// time of the last datagram of the session, 0 if there was none yet
 type SessionSender = (i64, Sender<Vec<u8>>);
 
 /// Implementation of Raknet Server.
@@ -412,11 +413,16 @@ impl RaknetListener {
                         }
 
                         if sessions.contains_key(&addr) {
-                            let packet = write_packet_already_connected(&AlreadyConnected {
-                                magic: true,
-                                guid,
-                            })
-                            .unwrap();
+                            let packet = if sessions[&addr].0 == 0 {
+                                // the reply was lost
+                                reply
+                            } else {
+                                write_packet_already_connected(&AlreadyConnected {
+                                    magic: true,
+                                    guid,
+                                })
+                                .unwrap()
+                            };
 
                             match socket.send_to(&packet, addr).await {
                                 Ok(_) => {}
@@ -456,7 +462,7 @@ impl RaknetListener {
                         .await;
 
                         raknet_log_debug!("accept connection : {}", addr);
-                        sessions.insert(addr, (cur_timestamp_millis(), sender));
+                        sessions.insert(addr, (0, sender));
                         let _ = connection_sender.send(s);
                     }
                     PacketID::Disconnect => {
-- 
2.43.0


From aed88a37d41bbdf4f77a0da5a0a5bac78fe8c26a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:28 +0000
Subject: [PATCH 28/38] fix: split negative acknowledgements that exceed the
 MTU

---
 src/socket.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/socket.rs b/src/socket.rs
index 7d2801e..f42a4b7 100644
--- a/src/socket.rs
+++ b/src/socket.rs
@@ -27,6 +27,9 @@ use tokio::sync::mpsc::{Receiver, Sender, UnboundedReceiver, UnboundedSender};
 
 use crate::{arq::*, packet::*, raknet_log_debug, utils::*};
 
+// a record has up to 7 bytes, the smallest MTU must hold them, the header and the udp overhead(28)
+const MAX_NACK_RECORDS: usize = (RAKNET_MIN_MTU as usize - 28 - 3) / 7;
+
 /// Raknet socket wrapper with local and remote.
 pub struct RaknetSocket {
     local_addr: SocketAddr,
@@ -653,10 +656,10 @@ impl RaknetSocket {
                 // flush nack
                 let mut recvq = recvq.lock().await;
                 let nacks = recvq.get_nack();
-                if !nacks.is_empty() {
+                for sequences in nacks.chunks(MAX_NACK_RECORDS) {
                     let nack = Nack {
-                        record_count: nacks.len() as u16,
-                        sequences: nacks,
+                        record_count: sequences.len() as u16,
+                        sequences: sequences.to_vec(),
                     };
 
                     let buf = write_packet_nack(&nack).unwrap();
-- 
2.43.0


From 70ae66b17734671b816c72bfdb0f826ed1f0fee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:33 +0000
Subject: [PATCH 29/38] fix: tell the server its own address in
 NewIncomingConnection

---
 src/socket.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/socket.rs b/src/socket.rs
index f42a4b7..6bc0ca8 100644
--- a/src/socket.rs
+++ b/src/socket.rs
@@ -87,7 +87,6 @@ impl RaknetSocket {
     async fn handle(
         frame: &FrameSetPacket,
         peer_addr: &SocketAddr,
-        local_addr: &SocketAddr,
         sendq: &RwLock<SendQ>,
         user_data_sender: &UnboundedSender<Vec<u8>>,
         incomming_notify: &Notify,
@@ -114,7 +113,7 @@ impl RaknetSocket {
                 let packet = read_packet_connection_request_accepted(frame.data.as_slice())?;
 
                 let packet_reply = NewIncomingConnection {
-                    server_address: *local_addr,
+                    server_address: *peer_addr,
                     request_timestamp: packet.request_timestamp,
                     accepted_timestamp: cur_timestamp_millis(),
                 };
@@ -451,7 +450,6 @@ impl RaknetSocket {
     ) {
         let connected = self.close_notifier.clone();
         let peer_addr = self.peer_addr;
-        let local_addr = self.local_addr;
         let sendq = self.sendq.clone();
         let recvq = self.recvq.clone();
         let last_heartbeat_time = self.last_heartbeat_time.clone();
@@ -467,7 +465,6 @@ impl RaknetSocket {
                         let _ = RaknetSocket::handle(
                             &f,
                             &peer_addr,
-                            &local_addr,
                             &sendq,
                             &user_data_sender,
                             &incomming_notify,
@@ -550,7 +547,6 @@ impl RaknetSocket {
                             if !RaknetSocket::handle(
                                 &f,
                                 &peer_addr,
-                                &local_addr,
                                 &sendq,
                                 &user_data_sender,
                                 &incomming_notify,
-- 
2.43.0


From 6a0f4f828ac9fdc79a531aedfa641e1aeeb924f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:36 +0000
Subject: [PATCH 30/38] fix: receive pongs longer than 1024 bytes in ping

---
 src/socket.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/socket.rs b/src/socket.rs
index 6bc0ca8..dfd551a 100644
--- a/src/socket.rs
+++ b/src/socket.rs
@@ -790,7 +790,7 @@ impl RaknetSocket {
                 }
             };
 
-            let mut buf = [0u8; 1024];
+            let mut buf = [0u8; 2048];
 
             let (size, _) = match match tokio::time::timeout(
                 std::time::Duration::from_secs(5),
-- 
2.43.0


From 2d481a0fc06cdb7b44f55658dc70d1c0073d1820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:14 +0000
Subject: [PATCH 31/38] fix: keep a dying session registered until the
 collecter removes it

---
 src/server.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/server.rs b/src/server.rs
index c80b46c..223bb1b 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -466,11 +466,10 @@ impl RaknetListener {
                         let _ = connection_sender.send(s);
                     }
                     PacketID::Disconnect => {
-                        let mut sessions = sessions.lock().await;
+                        let sessions = sessions.lock().await;
                         if sessions.contains_key(&addr) {
-                            // the session may have ended by itself
+                            // the session may have ended by itself , the collecter removes it
                             let _ = sessions[&addr].1.send(buf[..size].to_vec()).await;
-                            sessions.remove(&addr);
                         }
                     }
                     _ => {
@@ -479,7 +478,7 @@ impl RaknetListener {
                             match sessions[&addr].1.send(buf[..size].to_vec()).await {
                                 Ok(_) => {}
                                 Err(_) => {
-                                    sessions.remove(&addr);
+                                    // the collecter is about to remove it
                                     continue;
                                 }
                             };
-- 
2.43.0


From a30dec0da16bc7d3b9b178256fa4f571a1d579e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:19 +0000
Subject: [PATCH 32/38] fix: reassemble fragmented messages of every
 reliability class

---
 src/arq.rs      | 43 ++++++++++++++++++++++++++-----------------
 src/fragment.rs | 17 +++++++++++++++--
 2 files changed, 41 insertions(+), 19 deletions(-)

diff --git a/src/arq.rs b/src/arq.rs
index 8d5c6a5..4b1888f 100644
--- a/src/arq.rs
+++ b/src/arq.rs
@@ -535,6 +535,29 @@ impl RecvQ {
 
         self.sequence_number_ackset.insert(frame.sequence_number);
 
+        if !frame.is_fragment() {
+            return self.insert_message(frame);
+        }
+
+        if matches!(frame.reliability()?, Reliability::ReliableOrdered)
+            && frame.ordered_frame_index < self.last_ordered_index
+        {
+            return Ok(());
+        }
+
+        if frame.compound_size == 0 {
+            return Err(RaknetError::PacketParseError);
+        }
+
+        self.fragment_queue.insert(frame);
+
+        for i in self.fragment_queue.flush()? {
+            self.insert_message(i)?;
+        }
+        Ok(())
+    }
+
+    fn insert_message(&mut self, frame: FrameSetPacket) -> Result<()> {
         //The fourth parameter takes one of five major values. Lets say you send data 1,2,3,4,5,6. Here's the order and substance of what you might get back:
         match frame.reliability()? {
             // UNRELIABLE - 5, 1, 6
@@ -566,23 +589,9 @@ impl RecvQ {
                     return Ok(());
                 }
 
-                if frame.is_fragment() {
-                    if frame.compound_size == 0 {
-                        return Err(RaknetError::PacketParseError);
-                    }
-
-                    self.fragment_queue.insert(frame);
-
-                    for i in self.fragment_queue.flush()? {
-                        self.ordered_packets
-                            .entry(i.ordered_frame_index)
-                            .or_insert(i);
-                    }
-                } else {
-                    self.ordered_packets
-                        .entry(frame.ordered_frame_index)
-                        .or_insert(frame);
-                }
+                self.ordered_packets
+                    .entry(frame.ordered_frame_index)
+                    .or_insert(frame);
             }
             // RELIABLE_SEQUENCED - 5, 6 (1,2,3,4 arrived later than 5)
             Reliability::ReliableSequenced => {
diff --git a/src/fragment.rs b/src/fragment.rs
index 64baea3..30fd29f 100644
--- a/src/fragment.rs
+++ b/src/fragment.rs
@@ -6,15 +6,22 @@ struct Fragment {
     pub flags: u8,
     pub compound_size: u32,
     pub ordered_frame_index: u32,
+    pub sequenced_frame_index: u32,
     pub frames: HashMap<u32, FrameSetPacket>,
 }
 
 impl Fragment {
-    pub fn new(flags: u8, compound_size: u32, ordered_frame_index: u32) -> Self {
+    pub fn new(
+        flags: u8,
+        compound_size: u32,
+        ordered_frame_index: u32,
+        sequenced_frame_index: u32,
+    ) -> Self {
         Self {
             flags,
             compound_size,
             ordered_frame_index,
+            sequenced_frame_index,
             frames: HashMap::new(),
         }
     }
@@ -51,6 +58,7 @@ impl Fragment {
         let mut ret = FrameSetPacket::new(Reliability::from((self.flags & 224) >> 5)?, buf);
 
         ret.ordered_frame_index = self.ordered_frame_index;
+        ret.sequenced_frame_index = self.sequenced_frame_index;
         ret.sequence_number = sequence_number;
         Ok(ret)
     }
@@ -74,7 +82,12 @@ impl FragmentQ {
                 .unwrap()
                 .insert(frame);
         } else {
-            let mut v = Fragment::new(frame.flags, frame.compound_size, frame.ordered_frame_index);
+            let mut v = Fragment::new(
+                frame.flags,
+                frame.compound_size,
+                frame.ordered_frame_index,
+                frame.sequenced_frame_index,
+            );
             let k = frame.compound_id;
             v.insert(frame);
             self.fragments.insert(k, v);
-- 
2.43.0


From bf9e1481037ebf0b0cc6c869b9cf996e18d7c697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:11 +0000
Subject: [PATCH 33/38] fix: send no datagrams larger than the MTU of
 OpenConnectionReply2

---
 src/socket.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/socket.rs b/src/socket.rs
index dfd551a..77fe800 100644
--- a/src/socket.rs
+++ b/src/socket.rs
@@ -279,7 +279,7 @@ impl RaknetSocket {
             Err(_) => return Err(RaknetError::PacketParseError),
         };
 
-        let mtu = reply1.mtu_size.clamp(RAKNET_MIN_MTU, RAKNET_CLIENT_MTU);
+        let mut mtu = reply1.mtu_size.clamp(RAKNET_MIN_MTU, RAKNET_CLIENT_MTU);
 
         let packet = OpenConnectionRequest2 {
             magic: true,
@@ -327,11 +327,14 @@ impl RaknetSocket {
                 continue;
             }
 
-            let _reply2 = match read_packet_connection_open_reply_2(&buf[..size]) {
+            let reply2 = match read_packet_connection_open_reply_2(&buf[..size]) {
                 Ok(p) => p,
                 Err(_) => return Err(RaknetError::PacketParseError),
             };
 
+            // the server decides , it may ask for less than was requested
+            mtu = reply2.mtu.clamp(RAKNET_MIN_MTU, mtu);
+
             break;
         }
 
-- 
2.43.0


From 37d41fc75eb5dd40b65f8768cf8e8981f281d686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:16 +0000
Subject: [PATCH 34/38] fix: measure the latency of a ping with one clock

---
 src/socket.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/socket.rs b/src/socket.rs
index 77fe800..2d1b47a 100644
--- a/src/socket.rs
+++ b/src/socket.rs
@@ -813,7 +813,7 @@ impl RaknetSocket {
             if size != 0 && buf[0] == PacketID::UnconnectedPong.to_u8() {
                 if let Ok(p) = read_packet_pong(&buf[..size]) {
                     if p.magic {
-                        return Ok((p.time - packet.time, p.motd));
+                        return Ok((cur_timestamp_millis() - packet.time, p.motd));
                     }
                 };
             }
-- 
2.43.0


From b21944178fb3a482eb9cb2df69e9525e7520f7f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:49 +0000
Subject: [PATCH 35/38] fix: the versions clients asked for are forgotten with
 their sessions

---
 src/server.rs | 36 ++++++++++++++++++++++++++----------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/src/server.rs b/src/server.rs
index 223bb1b..2bd33fa 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -16,8 +16,11 @@ use crate::{raknet_log_debug, raknet_log_error, socket::*};
 const SERVER_NAME: &str = "Rust Raknet Server";
 const MAX_CONNECTION: u32 = 99999;
 
-// time of the last datagram of the session, 0 if there was none yet
-type SessionSender = (i64, Sender<Vec<u8>>);
+// above so many sources that asked for a connection but did not go on, the old ones are forgotten
+const MAX_PENDING_VERSION: usize = 4096;
+
+// time of the last datagram of the session, 0 if there was none yet, and its raknet version
+type SessionSender = (i64, Sender<Vec<u8>>, u8);
 
 /// Implementation of Raknet Server.
 pub struct RaknetListener {
@@ -31,7 +34,8 @@ pub struct RaknetListener {
     close_notifier: Arc<tokio::sync::Semaphore>,
     all_session_closed_notifier: Arc<Notify>,
     drop_notifier: Arc<Notify>,
-    version_map: Arc<Mutex<HashMap<String, u8>>>,
+    // versions asked for by sources that have no session yet, and when
+    version_map: Arc<Mutex<HashMap<String, (u8, i64)>>>,
 }
 
 impl RaknetListener {
@@ -242,6 +246,7 @@ impl RaknetListener {
         let version_map = self.version_map.clone();
         tokio::spawn(async move {
             let mut buf = [0u8; 2048];
+            let mut max_pending_version = MAX_PENDING_VERSION;
 
             raknet_log_debug!("start listen worker : {}", local_addr);
 
@@ -359,8 +364,15 @@ impl RaknetListener {
                             continue;
                         }
                         {
+                            let now = cur_timestamp_millis();
                             let mut version_map = version_map.lock().await;
-                            version_map.insert(addr.to_string(), req.protocol_version);
+                            if version_map.len() >= max_pending_version {
+                                version_map.retain(|_, v| now - v.1 <= RECEIVE_TIMEOUT);
+                                version_map.shrink_to_fit();
+                                max_pending_version =
+                                    MAX_PENDING_VERSION.max(version_map.len() * 2);
+                            }
+                            version_map.insert(addr.to_string(), (req.protocol_version, now));
                         }
 
                         let packet = crate::packet::OpenConnectionReply1 {
@@ -445,10 +457,11 @@ impl RaknetListener {
 
                         let raknet_version: u8;
                         {
-                            let version_map = version_map.lock().await;
-                            raknet_version = *version_map
-                                .get(&addr.to_string())
-                                .unwrap_or(&RAKNET_PROTOCOL_VERSION);
+                            let mut version_map = version_map.lock().await;
+                            raknet_version = version_map
+                                .remove(&addr.to_string())
+                                .map(|v| v.0)
+                                .unwrap_or(RAKNET_PROTOCOL_VERSION);
                         }
 
                         let s = RaknetSocket::from(
@@ -462,7 +475,7 @@ impl RaknetListener {
                         .await;
 
                         raknet_log_debug!("accept connection : {}", addr);
-                        sessions.insert(addr, (0, sender));
+                        sessions.insert(addr, (0, sender, raknet_version));
                         let _ = connection_sender.send(s);
                     }
                     PacketID::Disconnect => {
@@ -618,9 +631,12 @@ impl RaknetListener {
     }
 
     pub async fn get_peer_raknet_version(&self, peer: &SocketAddr) -> Result<u8> {
+        if let Some(session) = self.sessions.lock().await.get(peer) {
+            return Ok(session.2);
+        }
         let version_map = self.version_map.lock().await;
         let ver = version_map.get(&peer.to_string());
-        Ok(*ver.unwrap_or(&RAKNET_PROTOCOL_VERSION))
+        Ok(ver.map(|v| v.0).unwrap_or(RAKNET_PROTOCOL_VERSION))
     }
 
     async fn drop_watcher(&self) {
-- 
2.43.0


From 69aa0506b6ea255b39b7e994675af8df978f619d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:43 +0000
Subject: [PATCH 36/38] fix: keep the version of a client whose session ended
 before it began

---
 src/server.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/server.rs b/src/server.rs
index 2bd33fa..8d16e5d 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -457,9 +457,10 @@ impl RaknetListener {
 
                         let raknet_version: u8;
                         {
-                            let mut version_map = version_map.lock().await;
+                            // it may begin again without a datagram of the session , the version stays the same
+                            let version_map = version_map.lock().await;
                             raknet_version = version_map
-                                .remove(&addr.to_string())
+                                .get(&addr.to_string())
                                 .map(|v| v.0)
                                 .unwrap_or(RAKNET_PROTOCOL_VERSION);
                         }
@@ -495,7 +496,11 @@ impl RaknetListener {
                                     continue;
                                 }
                             };
-                            sessions.get_mut(&addr).unwrap().0 = cur_timestamp_millis();
+                            let session = sessions.get_mut(&addr).unwrap();
+                            if session.0 == 0 {
+                                version_map.lock().await.remove(&addr.to_string());
+                            }
+                            session.0 = cur_timestamp_millis();
                         }
                     }
                 }
-- 
2.43.0


From 071305e1d0305c9af85949f6ac344aeb25d5d6f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:24:15 +0000
Subject: [PATCH 37/38] fix: connect and ping reach IPv6 addresses

---
 src/socket.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/socket.rs b/src/socket.rs
index 2d1b47a..a6dfc10 100644
--- a/src/socket.rs
+++ b/src/socket.rs
@@ -1,6 +1,6 @@
 use rand::Rng;
 use std::{
-    net::SocketAddr,
+    net::{Ipv4Addr, Ipv6Addr, SocketAddr},
     sync::{
         atomic::{AtomicI64, AtomicU8},
         Arc,
@@ -47,6 +47,14 @@ pub struct RaknetSocket {
     raknet_version: u8,
 }
 
+/// The address to bind to for reaching `addr`: a socket only sends to its own address family.
+fn any_addr(addr: &SocketAddr) -> SocketAddr {
+    match addr {
+        SocketAddr::V4(_) => (Ipv4Addr::UNSPECIFIED, 0).into(),
+        SocketAddr::V6(_) => (Ipv6Addr::UNSPECIFIED, 0).into(),
+    }
+}
+
 impl RaknetSocket {
     /// Create a Raknet Socket from a UDP socket with an established Raknet connection
     ///
@@ -206,7 +214,7 @@ impl RaknetSocket {
     pub async fn connect_with_version(addr: &SocketAddr, raknet_version: u8) -> Result<Self> {
         let guid: u64 = rand::random();
 
-        let s = match UdpSocket::bind("0.0.0.0:0").await {
+        let s = match UdpSocket::bind(any_addr(addr)).await {
             Ok(p) => p,
             Err(_) => return Err(RaknetError::BindAdressError),
         };
@@ -771,7 +779,7 @@ impl RaknetSocket {
     /// assert!((0..10).contains(&latency));
     /// ```
     pub async fn ping(addr: &SocketAddr) -> Result<(i64, String)> {
-        let s = match UdpSocket::bind("0.0.0.0:0").await {
+        let s = match UdpSocket::bind(any_addr(addr)).await {
             Ok(p) => p,
             Err(_) => return Err(RaknetError::BindAdressError),
         };
-- 
2.43.0


From ed40ced98414c21eb9a6ed943b15bfcba1f64825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:43:09 +0000
Subject: [PATCH 38/38] fix: a listener's close goes on where one that was
 cancelled stopped

The second call returned Ok at once, with the socket still bound and sessions
perhaps still ending.
---
 src/server.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/server.rs b/src/server.rs
index 8d16e5d..e803db4 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -603,23 +603,23 @@ impl RaknetListener {
     /// socket.close().await;
     /// ```
     pub async fn close(&mut self) -> Result<()> {
-        if self.close_notifier.is_closed() {
-            return Ok(());
-        }
         self.close_notifier.close();
         if self.listened {
             self.all_session_closed_notifier.notified().await;
+            self.listened = false;
         }
 
-        // wait all thread exit and drop socket pointer.
-        while Arc::strong_count(self.socket.as_ref().unwrap()) != 1 {
+        // wait all thread exit and drop socket pointer. An earlier close that was cancelled may
+        // have got anywhere , this one goes on from there.
+        while let Some(socket) = &self.socket {
+            if Arc::strong_count(socket) == 1 {
+                // drop socket and free bind port
+                self.socket = None;
+                break;
+            }
             tokio::time::sleep(std::time::Duration::from_millis(50)).await;
         }
 
-        // drop socket and free bind port
-        self.socket = None;
-        self.listened = false;
-
         Ok(())
     }
 
-- 
2.43.0

