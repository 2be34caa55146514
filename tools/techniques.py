HOOKS = ["00d205d8459bfb2da5bbe770375d46f5141b8178"]
SIM = "Random and shrinking search, not a proof: tens of thousands of generated cases per run against the real library over a simulated network and clock (single-threaded tokio, seeded scheduling). Trusts harness/src/sim.rs, wire.rs and the oracle."
T["C01"] = ("stateful property-based testing: generated sessions and network faults in a deterministic simulation, exact-sequence oracle", SIM)
T["C02"] = ("stateful property-based testing: generated sessions and network faults, multiset oracle", SIM)
T["C03"] = ("stateful property-based testing: generated sessions and network faults, history invariant on the send order", SIM)
T["C04"] = ("stateful property-based testing: concurrent connections under faults, provenance oracle", SIM)
T["C05"] = ("property-based testing around generated size and header limits, documented-verdict oracle plus delivery model", SIM)
MON = SIM + " Every datagram on the simulated wire is decoded by an independent codec."
T["C06"] = ("property-based testing: generated sessions and scripted peers creating acknowledgement gaps; invariant on every datagram sent", MON)
T["C07"] = ("property-based testing: generated sessions under loss; history invariant relating each ACK/NACK to the datagrams received", MON)
T["C08"] = ("property-based testing: generated sessions and scripted acknowledgement histories; invariant on the retransmission history", MON)
T["C10"] = ("property-based fuzzing with structured and mutated datagrams inside generated conversations; delivery oracle, panic and CPU-time monitors", MON)
T["C11"] = ("property-based fuzzing of a listener with generated datagrams and connection churn; liveness oracle", SIM)
T["C13"] = ("property-based testing: generated versions, fault plans and server behaviours during the handshake; outcome oracle", SIM)
T["C14"] = ("property-based testing: generated MOTDs, pings and malformed replies; exact-reply oracle", MON)
T["C18"] = ("stateful property-based testing: one generated misbehaving connection or stranger beside healthy ones; delivery and latency oracle", SIM)
T["C22"] = ("model-based testing: an independent scripted RakNet peer in generated dialogues with the library; reference-model oracle", MON)
T["C09"] = ("property-based testing: generated sessions and scripted acknowledgement histories; oracle relating each flush to the acknowledgements on the wire", MON)
T["C15"] = ("stateful property-based testing: generated closes, drops, lost notices and racing calls; history invariants and delivery oracle", SIM)
T["C16"] = ("property-based testing over virtual time: generated silences and keep-alive patterns; lifetime oracle", SIM)
T["C17"] = ("stateful property-based testing: a listener closed with connections in generated states; termination and effect oracle", SIM)
T["C19"] = ("stateful property-based testing: generated tasks sharing a socket, calls cancelled at generated points, virtual schedules and real threads; exactly-once and order oracle", SIM)
T["C21"] = ("property-based testing: generated traffic and connection histories; live-heap and task-count oracle comparing a quarter of the history with all of it", SIM)
T["C20"] = ("stateful property-based testing of long histories: real connections carried to each wrap-around, then forked into many generated continuations with faults; delivery oracles and wire monitors", MON)
T["C12"] = ("property-based fuzzing of the codec: round-trip, differential against an independent codec, and truncated / mutated bytes, plus handshakes and pings over the wire", "Random and shrinking search, not a proof. Trusts harness/src/wire.rs as the independent codec.")
NA = {}
