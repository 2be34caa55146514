#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=hook)))
SIM = "guarded stand-in for the UDP socket and the millisecond clock (cfg raknet_verif), so a whole client/server world runs in one thread on virtual time"
MOD = "guarded re-export of private modules (cfg raknet_verif)"

p("C01", "Reliable-ordered messages arrive exactly once, intact and in order",
  "Every message accepted for sending as ReliableOrdered is returned by the peer's recv exactly once, byte for byte as sent, and in the order the sends were made, for every message size including those that must be split over many datagrams. This holds whatever datagrams the network loses, duplicates, reorders or delays (data, acknowledgements and retransmissions alike), provided the network eventually lets retransmissions through before the connection is declared dead, and whatever messages of other reliability classes are interleaved.",
  ["inputs", "schedules", "fault_sequences", "histories"],
  "all sequences of messages (class, size, content, timing) in both directions, and all finite periods of loss, duplication, reordering and delay applied to any datagram",
  "The tests send a handful of fixed messages over loopback, twice with a uniform random loss; they never duplicate, reorder or delay a datagram, lose a chosen acknowledgement, or interleave classes.",
  ["src/arq.rs", "src/fragment.rs", "src/socket.rs"],
  [("SendQ::insert / flush / tick / ack / nack", "src/arq.rs"), ("RecvQ::insert / flush (ordered index, hold-back)", "src/arq.rs"), ("FragmentQ reassembly", "src/fragment.rs"), ("receiver and tick tasks", "src/socket.rs")],
  ["RaknetSocket::send", "RaknetSocket::recv"],
  [dict(name="ordered_packets / last_ordered_index", meaning="messages held back until their turn", where="RecvQ"), dict(name="sent_packet", meaning="reliable frames not yet acknowledged", where="SendQ")], SIM)

p("C02", "Reliable messages arrive exactly once and intact",
  "Every message accepted for sending as Reliable is returned by the peer's recv exactly once and byte for byte as sent, in any order. Neither network duplication nor a retransmission caused by a lost or late acknowledgement makes a message appear twice, and no finite period of loss, reordering or delay makes one disappear.",
  ["inputs", "schedules", "fault_sequences", "histories"],
  "all message sequences and all finite periods of loss, duplication, reordering and delay of any datagram",
  "The tests send two or three Reliable messages over a perfect loopback; duplicates only arise when an acknowledgement is lost or a datagram is duplicated, which no test does.",
  ["src/arq.rs", "src/socket.rs"],
  [("reliable branch of RecvQ::insert", "src/arq.rs"), ("retransmission in SendQ", "src/arq.rs"), ("receiver task", "src/socket.rs")],
  ["RaknetSocket::send", "RaknetSocket::recv"], None, SIM)

p("C03", "Sequenced messages are never stale, repeated or lost when newest",
  "In each direction of a connection, the sequenced messages (UnreliableSequenced and ReliableSequenced) that recv returns appear in strictly increasing send order: an older one is never returned after a newer one and none is returned twice. The newest ReliableSequenced message is always eventually delivered unless a newer sequenced message was delivered instead, and over a network that neither loses nor reorders every sequenced message is delivered.",
  ["inputs", "schedules", "fault_sequences", "histories"],
  "all interleavings of sequenced and other messages, and all finite periods of loss, duplication, reordering and delay",
  "One test sends 100 sequenced messages with random loss, checks only the second byte with >=, and would accept repeats; nothing is ever reordered or duplicated.",
  ["src/arq.rs"],
  [("sequenced branches of RecvQ::insert", "src/arq.rs"), ("sequenced index assignment in SendQ::insert", "src/arq.rs")],
  ["RaknetSocket::send", "RaknetSocket::recv"], None, SIM)

p("C04", "recv only returns what the peer of that very connection sent",
  "Every message returned by recv on a connection is byte-identical to a message the peer application sent on that same connection; nothing is fabricated, truncated, merged, altered or taken from another connection of the same listener, for any number of concurrent connections, including clients that share an IP address or a port number. Over a network that delivers every datagram once and in order, unreliable messages are each delivered exactly once too.",
  ["inputs", "schedules", "histories", "fault_sequences"],
  "all sets of concurrent connections, message contents of every class and size, and network faults",
  "Tests use one client at a time and compare constant payloads, so cross-talk, mixing of fragments and partial corruption are not reachable.",
  ["src/server.rs", "src/socket.rs", "src/arq.rs", "src/fragment.rs"],
  [("sessions map dispatch by peer address", "src/server.rs"), ("frame serialisation and parsing", "src/arq.rs"), ("FragmentQ keyed by compound id", "src/fragment.rs")],
  ["RaknetSocket::send", "RaknetSocket::recv", "RaknetSocket::peer_addr"],
  [dict(name="sessions", meaning="peer address to session channel", where="RaknetListener")], SIM)

p("C05", "send admits exactly the documented messages and rejects without effect",
  "send rejects an empty message or one whose first byte is not 0xfe with PacketHeaderError, rejects a message of any class but ReliableOrdered that is larger than the negotiated MTU minus 60 with PacketSizeExceedMTU, accepts every smaller one and every ReliableOrdered size, and never panics. A rejected message is never delivered, in whole or in part, and does not disturb the delivery of any other message.",
  ["inputs", "configurations", "histories"],
  "all payload sizes and first bytes, all reliability classes, all negotiated MTUs, at any point of a message history",
  "No test sends a rejected message, negotiates an MTU other than 1400, or uses a size next to the limit.",
  ["src/socket.rs", "src/arq.rs"],
  [("RaknetSocket::send checks", "src/socket.rs"), ("size checks in SendQ::insert", "src/arq.rs")],
  ["RaknetSocket::send", "RaknetSocket::recv"], None, SIM)

p("C06", "Emitted datagrams are well-formed RakNet and fit the negotiated MTU",
  "Every datagram an endpoint emits on a connection is parsed completely by an independent RakNet decoder (no trailing or missing bytes, valid ids and lengths) and, with 28 bytes of IP/UDP overhead, is no larger than the MTU negotiated for the connection, for every negotiated MTU from 400 to 1400. Datagram sequence numbers are never reused, a reliable index always carries the same content when retransmitted, ordered indices are contiguous, and the fragments of a split message are consistent and concatenate to that message.",
  ["inputs", "configurations", "histories", "fault_sequences"],
  "all message histories, negotiated MTUs and retransmission patterns",
  "Tests only ever let the library talk to itself over MTU 1400 and never look at a datagram; two recorded packets are parsed, none generated.",
  ["src/arq.rs", "src/packet.rs", "src/datatype.rs", "src/socket.rs"],
  [("FrameSetPacket::serialize", "src/arq.rs"), ("fragmentation in SendQ::insert", "src/arq.rs"), ("write_packet_*", "src/packet.rs")],
  ["UDP datagrams emitted by RaknetSocket"], None, SIM)

p("C07", "Acknowledgements are truthful and complete",
  "An endpoint acknowledges a datagram sequence number only after it received a datagram with that number, and every datagram it accepts on an open connection is acknowledged. A negative acknowledgement only names numbers that were missing when a higher number had already arrived, and every number skipped that way (from 1 up) is reported.",
  ["inputs", "schedules", "histories"],
  "all arrival orders, gaps, repeats and jumps of datagram sequence numbers, and any number of frames per datagram",
  "One unit test feeds three short ascending lists to the range accumulator; descending, repeated, interleaved and merging arrivals are untested, as is what actually leaves on the wire.",
  ["src/arq.rs", "src/packet.rs", "src/socket.rs"],
  [("ACKSet::insert / get_ack / get_nack", "src/arq.rs"), ("write_packet_ack / write_packet_nack", "src/packet.rs"), ("flush ack, flush nack", "src/socket.rs")],
  ["ACK and NACK datagrams emitted by an endpoint"],
  [dict(name="ack / nack / last_max", meaning="ranges to report", where="ACKSet")], SIM)

p("C08", "Reliable frames are retransmitted until acknowledged, selectively and fast",
  "A reliable frame that is not acknowledged is transmitted again and again for as long as the connection lives, at intervals that never exceed the 12 s retransmission bound; once any of its transmissions is acknowledged it is never transmitted again, and frames that are not outstanding (acknowledged or unreliable) are never retransmitted. A frame reported missing by a negative acknowledgement, or passed over by an acknowledgement of a later datagram, is retransmitted promptly instead of waiting longer than its timeout.",
  ["schedules", "fault_sequences", "histories"],
  "all patterns of acknowledging, negatively acknowledging, ignoring and delaying, in any order, including acknowledgements of earlier transmissions",
  "One unit test acknowledges two frames in order; loss tests use uniform random loss and only check eventual arrival, so needless, missing or ever slower retransmission is invisible.",
  ["src/arq.rs", "src/socket.rs"],
  [("SendQ::tick / flush / ack / nack / update_rto", "src/arq.rs"), ("tick task", "src/socket.rs")],
  ["frame datagrams emitted by an endpoint in response to ACK/NACK"],
  [dict(name="sent_packet", meaning="outstanding frames with timers and every sequence number used", where="SendQ")], SIM)

p("C09", "flush returns only when everything sent has been acknowledged",
  "When flush returns Ok, every reliable message whose send completed before the flush began has been acknowledged by the peer, and hence is available to the peer's recv. flush does return once all acknowledgements have arrived, and returns ConnectionClosed if the connection is or becomes closed.",
  ["schedules", "histories", "fault_sequences"],
  "all message histories, acknowledgement delays and losses, and all moments of closing relative to the flush",
  "The tests call flush over a perfect loopback where acknowledgements are immediate, so returning early would go unnoticed.",
  ["src/socket.rs", "src/arq.rs"],
  [("RaknetSocket::flush", "src/socket.rs"), ("SendQ::is_empty", "src/arq.rs")],
  ["RaknetSocket::flush"], None, SIM)

p("C10", "No datagram from a peer can crash or corrupt an established connection",
  "Whatever bytes arrive from the peer's address on an established connection, on either side, no task of the library panics and processing takes time bounded by the datagram and the outstanding traffic. A malformed, truncated, empty or unknown datagram is ignored: the connection stays open and traffic in both directions continues to be delivered as if it had not arrived.",
  ["inputs", "histories", "fault_sequences"],
  "all byte strings as datagrams, valid, mutated, truncated or hostile (extreme ranges, indices and sizes), at any point of a connection",
  "Every datagram in the tests is produced by the library itself or is one of seven recorded packets; malformed input is never presented.",
  ["src/socket.rs", "src/arq.rs", "src/packet.rs", "src/datatype.rs", "src/fragment.rs"],
  [("receiver task dispatch", "src/socket.rs"), ("FrameVec::new", "src/arq.rs"), ("read_packet_ack / read_packet_nack", "src/packet.rs"), ("RaknetReader bounds checks", "src/datatype.rs"), ("FragmentQ::flush / Fragment::merge", "src/fragment.rs")],
  ["RaknetSocket::send", "RaknetSocket::recv"], None, SIM)

p("C11", "No datagram from anyone can stop a listener",
  "Whatever datagrams arrive at a listening address from whatever sources, connected or not, the listener neither panics nor hangs: afterwards it still answers pings, still accepts new connections, and existing connections of other peers still exchange messages.",
  ["inputs", "histories"],
  "all byte strings from any source address, including empty and truncated offline packets, extreme handshake parameters, and packets for connections that have just died",
  "The tests only present well-formed handshakes from well-behaved clients.",
  ["src/server.rs", "src/packet.rs", "src/datatype.rs", "src/socket.rs"],
  [("listen worker", "src/server.rs"), ("read_packet_* of offline packets", "src/packet.rs")],
  ["RaknetListener::accept", "RaknetSocket::ping", "RaknetSocket::connect"], None, SIM)

p("C12", "Packet encoding and decoding are exact inverses and decoding is total",
  "For every packet type, encoding produces the RakNet byte layout and decoding that layout yields the original field values, for all values including IPv4 and IPv6 addresses and full-range integers. Decoding arbitrary bytes never panics, and a packet cut short inside its fields is rejected with an error rather than misread.",
  ["inputs"],
  "all field values of every packet type and all byte strings",
  "One test round-trips one 24-bit integer and one re-serialises one recorded frame; no control packet is round-tripped and no malformed input is decoded.",
  ["src/packet.rs", "src/datatype.rs", "src/arq.rs"],
  [("read_packet_* / write_packet_*", "src/packet.rs"), ("RaknetReader / RaknetWriter", "src/datatype.rs"), ("FrameSetPacket::serialize / FrameVec::new", "src/arq.rs")],
  ["the packet codec functions"], None, MOD)

p("C13", "The handshake negotiates version, addresses and MTU faithfully",
  "connect succeeds against a reachable listener exactly when the requested protocol version is one the listener supports (10 or 11) and otherwise fails with NotSupportVersion; each successful connect produces one accepted socket, and both ends agree on version and addresses. connect neither panics nor hangs: it completes under any finite period of handshake loss, duplication and delay, and returns an error if the server disconnects it before the connection is established.",
  ["inputs", "configurations", "schedules", "fault_sequences"],
  "all protocol versions, all server replies (valid, hostile or malformed) and all finite faults on handshake datagrams",
  "Tests connect with version 10 over a perfect loopback only; loss is switched on after the handshake.",
  ["src/socket.rs", "src/server.rs", "src/packet.rs"],
  [("connect_with_version", "src/socket.rs"), ("OpenConnectionRequest1/2 handling, version_map", "src/server.rs")],
  ["RaknetSocket::connect_with_version", "RaknetListener::accept", "raknet_version / get_peer_raknet_version / peer_addr / local_addr"],
  [dict(name="version_map", meaning="protocol version announced by each peer address", where="RaknetListener")], SIM)

p("C14", "Unconnected pings report the listener's current MOTD",
  "A listening server answers every well-formed unconnected ping (both ping ids) with a pong carrying the offline magic, its constant server id and the current MOTD, the string get_motd returns, whether it was the default, set before or changed after listening, and for any text that fits a pong. RaknetSocket::ping returns exactly that MOTD, with a latency between zero and the duration of the call, also when pings or pongs are lost, and malformed replies make it neither panic nor return a wrong MOTD.",
  ["inputs", "histories", "fault_sequences"],
  "all MOTD strings up to the pong size, all orders of set, listen and ping, all ping contents and losses, all reply bytes",
  "The only ping test is commented out.",
  ["src/server.rs", "src/socket.rs", "src/packet.rs"],
  [("UnconnectedPing handling, set_motd / set_full_motd / get_motd", "src/server.rs"), ("RaknetSocket::ping", "src/socket.rs"), ("read_packet_pong / write_packet_pong", "src/packet.rs")],
  ["RaknetSocket::ping", "RaknetListener::get_motd", "pong datagrams"], None, SIM)

p("C15", "Closing a connection is clean, final and noticed by the peer",
  "After a connection is closed (by close, by dropping the socket, or by the peer), send and flush return ConnectionClosed, further closes succeed, recv first returns the messages that had already arrived and then an error instead of hanging, and no call panics whatever the interleaving. If any disconnect notice gets through, the peer sees its connection closed too within seconds, and everything the closing side had successfully flushed beforehand can still be read by the peer.",
  ["schedules", "histories", "fault_sequences"],
  "all interleavings of closing or dropping at either or both ends with sends, receives and flushes, and losses that spare at least one disconnect notice",
  "One test closes after a flush on a perfect loopback, and its assertions run in a detached task whose panics are ignored; concurrent use, drops and reading after close are not tested.",
  ["src/socket.rs", "src/server.rs"],
  [("RaknetSocket::close, Drop and drop_watcher", "src/socket.rs"), ("receiver, sender and tick tasks' exit paths", "src/socket.rs"), ("session collector and Disconnect dispatch", "src/server.rs")],
  ["RaknetSocket::close / send / recv / flush / drop"],
  [dict(name="close_notifier", meaning="closed flag shared by all tasks of a connection", where="RaknetSocket")], SIM)

p("C16", "Connections end only for cause, and a silent peer is detected",
  "A connection stays open as long as its application does not close it, its peer does not disconnect, its listener is not closed and some datagram of the connection (frame set, ACK or NACK) arrives from the peer at least once a minute, whichever of these kinds it is. If nothing arrives for 60 seconds the connection is closed, within a bounded delay, and pending and later calls report it closed.",
  ["schedules", "histories", "fault_sequences"],
  "all arrival patterns of datagrams of every kind over minutes of connection life, and silences starting at any moment",
  "No test lasts more than a few seconds, so neither the 60 s limit nor premature closing can be observed.",
  ["src/socket.rs", "src/server.rs", "src/utils.rs"],
  [("last_heartbeat_time update and RECEIVE_TIMEOUT test", "src/socket.rs"), ("drop_watcher start-up", "src/socket.rs"), ("session collector", "src/server.rs")],
  ["RaknetSocket::recv / send / flush over virtual minutes"], None, SIM)

p("C17", "Closing a listener always finishes, ends every session and frees the port",
  "RaknetListener::close returns in bounded time whatever state its connections are in (never listened, none, handshaking, not yet accepted, idle, busy, with unread backlog, dropped), after which every client sees its connection closed, accepted sockets report ConnectionClosed, accept returns NotListen, the address can be bound again at once, and no later call on the listener panics. Closing twice is harmless, and dropping the listener also ends its sessions.",
  ["schedules", "histories", "configurations"],
  "all mixes of connection states and datagrams in flight at the moment of closing",
  "One test closes a listener with a single idle connection and one with none.",
  ["src/server.rs", "src/socket.rs"],
  [("RaknetListener::close and Drop", "src/server.rs"), ("start_session_collect", "src/server.rs"), ("listen worker exit", "src/server.rs")],
  ["RaknetListener::close / accept / bind / local_addr"],
  [dict(name="sessions / all_session_closed_notifier", meaning="what close waits for", where="RaknetListener")], SIM)

p("C18", "Connections are isolated from each other and from strangers",
  "What happens on one connection does not affect others of the same listener: an application that stops reading or accepting, a peer that floods, misbehaves, disconnects or dies leaves other connections delivering, pings answered and new connections accepted without delay. A datagram from an address that is not a connection's peer never delivers data to, acknowledges, or closes that connection.",
  ["schedules", "histories", "fault_sequences", "inputs"],
  "all combinations of one misbehaving or stalled connection with healthy ones, and all datagrams from foreign addresses",
  "Tests run a single connection per listener and always read everything.",
  ["src/server.rs", "src/socket.rs"],
  [("per-session channels and dispatch under the sessions lock", "src/server.rs"), ("client receive loop", "src/socket.rs"), ("user data channel", "src/socket.rs")],
  ["RaknetSocket::recv / connect / ping while another connection is stalled"], None, SIM)

p("C19", "Concurrent use and cancellation of calls lose and duplicate nothing",
  "A RaknetSocket may be shared by tasks that send, receive and flush concurrently: the ReliableOrdered messages of each sending task arrive once and in that task's order, and each message is returned by exactly one recv call. Cancelling a pending recv (as in a select or timeout) never loses a message, and cancelling a pending send leaves that message either delivered whole or not at all and never disturbs another.",
  ["schedules", "histories"],
  "all interleavings of concurrent senders and receivers with cancellations at any await point",
  "Every test uses one task per socket end and awaits each call to completion, although the bundled proxy example relies on cancellable recv.",
  ["src/socket.rs"],
  [("send under the send-queue lock", "src/socket.rs"), ("recv over a mutex-protected channel", "src/socket.rs")],
  ["RaknetSocket::send / recv / flush from several tasks"], None, SIM)

p("C20", "Long-lived connections survive counter wrap-around",
  "The number of messages, fragments and datagrams exchanged on one connection is not limited by the width of any protocol counter: delivery guarantees of reliable, ordered, sequenced and fragmented messages continue to hold when the 16-bit fragment-group id and the 24-bit datagram, reliable, ordered and sequenced numbers wrap around.",
  ["histories", "fault_sequences"],
  "all histories that carry a counter past its width, with loss, duplication and reordering around the wrap",
  "Tests send at most a few hundred datagrams; the smallest counter wraps after 65536 fragmented messages, the others after 16.7 million datagrams.",
  ["src/arq.rs", "src/fragment.rs", "src/packet.rs"],
  [("counters in SendQ", "src/arq.rs"), ("index comparisons in RecvQ and ACKSet", "src/arq.rs"), ("FragmentQ keyed by compound id", "src/fragment.rs")],
  ["send and receive queues driven through the wire format"], None, MOD)

p("C21", "Buffers are released once traffic or connections end",
  "After all traffic has been delivered and acknowledged, an endpoint retains no memory that grows with the number or size of messages already exchanged, whatever faults occurred, and after connections end the listener keeps no buffers, channels or tasks for them. Memory in use is therefore bounded by what is in flight plus the live connections.",
  ["histories", "fault_sequences"],
  "all traffic histories with loss, duplication and reordering, and all sequences of connecting and disconnecting",
  "Tests never measure retained state, and leaks build up only over many rounds of duplicated or late datagrams.",
  ["src/arq.rs", "src/fragment.rs", "src/server.rs", "src/socket.rs"],
  [("removal from sent_packet, packets, ordered_packets, fragments", "src/arq.rs"), ("session collector", "src/server.rs"), ("task exit paths", "src/socket.rs")],
  ["live heap bytes after quiescence"], None, SIM)

p("C22", "The library interoperates with an independent RakNet peer",
  "An independent peer that speaks the RakNet wire protocol can connect to a listener, and a socket can connect to an independent server: offline and online handshake packets carry the right fields (magic, server id, echoed addresses and timestamps, MTU), connected pings are answered with pongs echoing their timestamp, and an in-band disconnect ends the connection. Legal forms the library itself does not emit are understood: several frames in one datagram, acknowledgement ranges and lists, fragments in any order, unknown message ids and keep-alives between messages.",
  ["inputs", "configurations", "schedules"],
  "all legal packings of frames into datagrams, record forms of acknowledgements, fragment orders, MTUs and timestamps",
  "The library is only tested against itself, so a symmetric mistake in both directions is invisible; two recorded sessions cover two packings.",
  ["src/packet.rs", "src/arq.rs", "src/socket.rs", "src/server.rs"],
  [("RaknetSocket::handle", "src/socket.rs"), ("offline packet handling", "src/server.rs"), ("FrameVec::new", "src/arq.rs")],
  ["datagrams exchanged with a reference peer", "RaknetSocket::send / recv"], None, SIM)

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
