"""Single source for properties.jsonl and MANIFEST.json (written by tools/gen.py)."""
T = "crates/transport/transport/src/"
M = "crates/transport/messages/src/"
CN = "crates/connection/connection/src/"
NC = "crates/connection/netcode/src/"
P2 = "crates/connection/p2p/src/"
SY = "crates/core/sync/src/"
CO = "crates/core/core/src/"
IO = "crates/io/"

def mech(*pairs):
    return [{"name": n, "where": w} for n, w in pairs]

PROPS = []

def prop(id, title, statement, over, qtext, why, files, mechanism, observe, state=(), engine=None, note="", hook=None):
    PROPS.append(dict(id=id, title=title, statement=statement,
        quantifier={"over": over, "text": qtext}, why_tests_cant=why,
        anchors={"files": files, "mechanism": mech(*mechanism),
                 "state": [dict(name=a, meaning=b, where=c) for a, b, c in state],
                 "observe_at": observe, "hook_needed": hook},
        engine=engine, note=note))

# ------------------------------------------------------------------ transport
prop("T01", "Reliable messages arrive exactly once",
 "Every message sent on a reliable unordered or reliable ordered channel is handed to the remote application exactly once, whatever loss, duplication, delay or reordering the network applies, as soon as the network lets enough packets through. On a reliable sequenced channel every message is handed over at most once and the last one sent always gets there. Nothing the sender did not send is ever handed over.",
 ["schedules", "fault_sequences"], "every interleaving of application sends, flushes, receive passes and every network choice to drop, duplicate, delay or reorder packets (data and acknowledgement packets alike), followed by a period where packets get through",
 "the tests exercise a handful of fixed loss patterns on single channel objects; the guarantee quantifies over all network schedules and over the sender/receiver/ack loop as a whole",
 [T+"channel/send_reliable.rs", T+"channel/receive.rs", T+"plugin.rs", T+"packet/header.rs"],
 [("reliable sender keeps a message until acked", T+"channel/send_reliable.rs"), ("receiver dedup window", T+"channel/receive.rs"), ("packet acks mapped to message acks", T+"plugin.rs")],
 ["application send call", "messages read from the receiving channel"],
 [("unacked messages", "messages kept for retransmission", T+"channel/send_reliable.rs"), ("received set / pending id", "what the receiver already accepted", T+"channel/receive.rs")],
 engine="transport")
prop("T02", "Ordered channels keep send order, sequenced channels never go back",
 "On an ordered channel the remote application reads messages in exactly the order they were sent, without gaps. On a sequenced channel (reliable or not) a message is never read after one that was sent later. This holds for every arrival order of whole messages and fragments and across message-number wraparound.",
 ["schedules", "fault_sequences"], "every order, duplication and loss pattern of packets, every mix of small and fragmented messages, every receive cadence",
 "tests check two- or three-message permutations without fragmentation interleavings or the network loop",
 [T+"channel/receive.rs", T+"channel/send.rs", T+"packet/message.rs"],
 [("ordered receiver waits for next id", T+"channel/receive.rs"), ("sequenced receivers drop older ids", T+"channel/receive.rs")],
 ["order of messages read from the receiving channel"], engine="transport")
prop("T03", "Messages arrive whole, intact and on the channel they were sent on",
 "Whatever a receiving channel hands over is byte for byte one message that the peer sent on that same channel in the same session, tagged with the tick of a packet that carried it; messages larger than one packet are reassembled from their pieces in any arrival order and are never delivered partially or mixed with another message. On unreliable channels a message is handed over no more often than the network delivered it; on unordered unreliable ones it is handed over if all packets carrying it arrive within the reassembly window.",
 ["schedules", "inputs", "fault_sequences"], "all message sizes (empty to many fragments), contents, channel mixes and arrival orders, duplicates and losses of the packets",
 "tests reassemble a few fixed messages in order",
 [T+"channel/fragments/receive.rs", T+"channel/fragments/send.rs", T+"packet/packet_builder.rs", T+"packet/message.rs", T+"plugin.rs"],
 [("fragment bookkeeping per message id", T+"channel/fragments/receive.rs"), ("packet packing of several channels", T+"packet/packet_builder.rs")],
 ["messages read from the receiving channel"], engine="transport")
prop("T04", "Acknowledgements and losses are reported truthfully and once",
 "A packet is reported acknowledged only if the peer really received it, and reported lost only if no acknowledgement arrived within the configured timeout; every packet carrying application data gets exactly one of the two verdicts, and the round-trip sample attached to an acknowledgement equals the time since that packet was sent. A message is reported acknowledged at most once and only if the peer received all of it.",
 ["schedules", "fault_sequences"], "every loss, duplication, delay and reordering of packets in both directions, including stale, repeated and partial acknowledgement information",
 "tests feed hand-made headers for a few packets in order",
 [T+"packet/header.rs", T+"plugin.rs", T+"channel/send_reliable.rs", T+"channel/fragments/ack.rs", T+"packet/nack.rs"],
 [("receive window encoded in each header", T+"packet/header.rs"), ("packet to message ack map", T+"plugin.rs"), ("loss timeout", T+"packet/nack.rs")],
 ["packet acknowledged / packet lost notifications", "per-channel message acknowledgement and loss lists"], engine="transport")
prop("T05", "Retransmission follows acknowledgements and the resend delay",
 "A reliable message that has been handed to the link is sent again when, and only when, it is still unacknowledged and more than the configured resend delay has passed since it was last sent; once acknowledged it is never sent again. A message not yet sent goes out at the next flush of its channel when nothing limits bandwidth, and no more often than the channel's send interval allows.",
 ["schedules", "fault_sequences", "configurations"], "all frame timings, round-trip values, resend settings, send frequencies and ack arrival orders",
 "tests pin one delay with one message",
 [T+"channel/send_reliable.rs", T+"channel/send.rs", T+"plugin.rs"],
 [("resend delay from RTT", T+"channel/builder.rs"), ("last-sent stamp committed with the packet", T+"channel/send_reliable.rs")],
 ["messages admitted to the link in each frame"], engine="transport")
prop("T06", "Bandwidth cap is respected, by priority, without losing messages",
 "With a bandwidth cap, the application bytes handed to the link never exceed the burst allowance plus the sustained rate times the elapsed time. When the cap stops a flush, no message is sent while a strictly more important one was left behind; messages left behind on reliable or retrying channels are sent later, and messages on non-retrying channels are either sent in that flush or never, but never partially abandoned.",
 ["inputs", "configurations", "histories"], "all mixes of channels, message sizes, priorities, caps and flush sequences",
 "tests use two or three messages and one cap",
 [T+"packet/priority_manager.rs", T+"plugin.rs", T+"channel/send.rs", T+"packet/packet_builder.rs"],
 [("token bucket on final packet bytes", T+"packet/priority_manager.rs"), ("transactional staging, discard-or-retry at flush end", T+"channel/send.rs")],
 ["packets pushed on the link", "messages admitted in each frame"], engine="transport")
prop("T07", "Packets never exceed the link's packet size and nothing gets stuck",
 "No packet handed to the link is larger than the link's maximum packet size at that moment, for any message sizes, number of channels and batching. Without a bandwidth cap every message buffered before a flush leaves in that flush, whatever the mix of sizes.",
 ["inputs", "configurations"], "all message sizes around the packet and fragment limits, channel ids, batch counts and link packet sizes",
 "tests use a few sizes with default limits",
 [T+"packet/packet_builder.rs", T+"packet/packet.rs", T+"channel/fragments/send.rs", IO+"link/src/lib.rs"],
 [("packet builder size accounting", T+"packet/packet_builder.rs"), ("fragment size derived from the minimum packet size", T+"packet/packet.rs")],
 ["packets pushed on the link"], engine="transport")
prop("T08", "A new connection starts clean",
 "After a peer is disconnected and connected again, no message, fragment, acknowledgement, loss notification or sequence state of the previous session has any effect: messages queued before the disconnect are not sent or delivered, and all delivery guarantees hold for the new session from its first message, as for a fresh one.",
 ["histories", "fault_sequences", "crash_points"], "disconnection at every point of a session, with any traffic in flight or half assembled",
 "tests reset one idle transport",
 [T+"channel/builder.rs", T+"plugin.rs", M+"plugin.rs"],
 [("transport state rebuilt on disconnect", T+"channel/builder.rs")],
 ["messages read and packets emitted after the reconnection"], engine="transport")
prop("T09", "Received data is acknowledged promptly and idle peers go silent",
 "Every received packet that carries application data is acknowledged in the next flush of the receiver, if necessary by a packet sent for that purpose only. Acknowledgement-only packets never cause another packet, so two peers with nothing to send stop exchanging packets after everything is acknowledged.",
 ["schedules", "fault_sequences"], "all traffic patterns, losses and duplications in both directions",
 "tests look at one packet exchange",
 [T+"plugin.rs", T+"packet/header.rs", T+"packet/packet_type.rs"],
 [("ack-pending flag", T+"packet/header.rs"), ("ack-only packet at flush end", T+"plugin.rs")],
 ["packets pushed on the link in each flush"], engine="transport")

# ------------------------------------------------------------------ link / io
prop("L01", "Links and link conditioners pass packets on unchanged and on time",
 "A link buffer hands packets over in the order they were put in, each once, unchanged. With a conditioner, a packet is handed over unchanged at the first frame where its assigned delay has elapsed and never before, at most once each, packets with different due times in due order; with zero loss every packet comes out, with total loss none, and the delay stays within latency plus or minus jitter.",
 ["schedules", "configurations", "inputs"], "all arrival times, polling times and conditioner settings",
 "tests check a couple of packets at fixed times",
 [IO+"link/src/conditioner.rs", IO+"link/src/lib.rs", "crates/core/utils/src/ready_buffer.rs"],
 [("time-ordered ready queue", "crates/core/utils/src/ready_buffer.rs"), ("conditioner delay and loss", IO+"link/src/conditioner.rs")],
 ["packets popped from the link receive side"], engine="link")
prop("L02", "IO layers deliver each datagram once to the right peer",
 "The in-process channel IO delivers every packet exactly once, in order and unchanged to the other end until one end goes away, after which the remaining end becomes unlinked. The UDP server attributes every datagram to exactly one link per remote address, creates that link once, and sends each peer's packets only to that peer's address.",
 ["schedules", "histories"], "all interleavings of sends, receives, links going down and new peers appearing",
 "tests move one packet each way",
 [IO+"crossbeam/src/lib.rs", IO+"udp/src/lib.rs", IO+"udp/src/server.rs"],
 [("crossbeam channel pair", IO+"crossbeam/src/lib.rs"), ("address to link map", IO+"udp/src/server.rs")],
 ["link receive buffers", "link state markers"], engine="link")

# ------------------------------------------------------------------ connection
prop("C01", "Lifecycle states are exclusive and the peer registry matches them",
 "At any observation point a link is in at most one of the states linking, linked, unlinked and a connection in at most one of connecting, connected, disconnecting, disconnected, whatever order of state changes the application and plugins apply. Every peer that connects is registered under its identity and mapped to the entity that connected last with it, until that connection ends or another entity connects under the same identity; no registration remains for an entity that is disconnected or gone.",
 ["histories", "schedules"], "every sequence of lifecycle transitions on any number of entities, including repeated, conflicting and re-ordered ones, despawns and reconnections with the same identity",
 "tests apply two or three transitions to one entity",
 [CN+"client.rs", CN+"network_target.rs", IO+"link/src/lib.rs", IO+"link/src/server.rs", CN+"server.rs"],
 [("component insertion hooks remove the other markers", CN+"client.rs"), ("peer map maintained on connect and disconnect", CN+"client.rs")],
 ["state components", "peer registry resource"], engine="conn")
prop("C02", "Stopping a server or losing its link ends every client session",
 "When a server stops or is unlinked, every client attached to it is disconnected and its entity removed, and no client remains attached; other servers' clients are untouched. A client whose link goes down is disconnected; a server-side client that is told to disconnect is disconnected and then removed; and starting a stopped server again accepts fresh clients.",
 ["histories", "crash_points"], "every sequence of starts, stops, unlinks and client arrivals, at any moment of the clients' handshakes",
 "tests stop one server with one client",
 [CN+"server.rs", CN+"client_of.rs", IO+"link/src/server.rs", "crates/connection/raw_connection/src/server.rs"],
 [("unlink cascades to children", IO+"link/src/server.rs"), ("disconnected client entities are despawned", CN+"server.rs")],
 ["entities attached to the server", "state components"], engine="conn")
prop("C03", "The reported network role always matches the entities present",
 "After every frame the reported network role (client, server, host, peer-to-peer with its member list, undefined, or invalid) is the one determined by the roles present at that moment alone, independent of the order in which they appeared, changed or disappeared.",
 ["histories"], "every sequence of adding, removing, changing state of and despawning client, server, host and peer-to-peer roles",
 "tests build a few final situations directly",
 [CN+"network_topology.rs"],
 [("dirty flag and recomputation", CN+"network_topology.rs")],
 ["reported topology"], engine="conn")
prop("C04", "Message targets select exactly the intended peers",
 "Combining target sets by union, intersection, exclusion, inversion and extension, and resolving the result against connected peers, selects exactly the peers that set algebra prescribes, each once, for every combination and nesting; encoding and decoding a target preserves what it selects.",
 ["inputs"], "all target expressions over any set of peers and all sets of connected peers",
 "tests check selected pairs",
 [CN+"network_target.rs"],
 [("canonicalising set operations", CN+"network_target.rs"), ("resolver", CN+"network_target.rs")],
 ["selected peers"], engine="conn")

# ------------------------------------------------------------------ netcode
prop("N01", "Only holders of a valid token get connected, under that token's identity",
 "A server considers a client connected only after that client, using a token issued with the server's key for this protocol and this server and not yet expired, has answered the server's own challenge; the identity reported is the one in the token. A client considers itself connected only after a genuine server that can read its token confirmed it, and both sides then agree on identity and user data.",
 ["inputs", "schedules", "fault_sequences"], "all tokens (wrong key, wrong protocol, wrong server, expired, tampered), all message orders, losses, duplications, replays and cross-wired addresses",
 "tests connect one honest client and check one bad token",
 [NC+"server.rs", NC+"client.rs", NC+"token.rs", NC+"packet.rs"],
 [("token decryption and checks", NC+"server.rs"), ("challenge token bound to the client", NC+"server.rs")],
 ["connection events on the server", "client state"], engine="netcode")
prop("N02", "Server slots: capacity and one session per client identity",
 "A server never has more connected clients than its capacity and never two sessions for the same client identity or the same address; a client refused for lack of room or by the application is told so and ends in the matching denied state instead of waiting, and its slot-less attempt does not disturb connected clients. Slots of disconnected or timed-out clients become available again.",
 ["schedules", "histories", "configurations"], "all orders of joins, leaves, crashes, rejoins and duplicate attempts around the capacity limit",
 "tests fill a server once",
 [NC+"server.rs"],
 [("connected-client limit at request and response", NC+"server.rs"), ("duplicate id and address checks", NC+"server.rs")],
 ["connection events", "client state"], engine="netcode")
prop("N03", "Session payloads are authentic, private to the session and never replayed",
 "Every payload handed up by either side is exactly one that the other end of the same session sent, and each is handed up at most once in that session no matter how packets are duplicated, delayed, replayed, altered or injected from other sessions or addresses. A payload delivered unaltered, for the first time and within the window of recent packets is handed up.",
 ["schedules", "inputs", "fault_sequences"], "every capture-and-replay, reordering, alteration and cross-session injection schedule",
 "tests check the replay window with a fixed sequence",
 [NC+"packet.rs", NC+"replay.rs", NC+"crypto.rs", NC+"server.rs", NC+"client.rs"],
 [("authenticated encryption with sequence nonce", NC+"crypto.rs"), ("replay window", NC+"replay.rs")],
 ["payloads handed up on either side"], engine="netcode")
prop("N04", "Lost peers are noticed: timeouts, keep-alives and clean disconnects",
 "While packets get through, an established session stays up indefinitely even without payloads; when they stop getting through, each side ends the session once the token's timeout has passed, and not before. A graceful disconnect ends the session on the other side as soon as one of its notices arrives, and a connecting client always reaches connected or a final failure state in bounded time.",
 ["schedules", "fault_sequences"], "all outage start times and durations, partial losses, timeout settings and disconnect moments",
 "tests wait out one timeout",
 [NC+"server.rs", NC+"client.rs"],
 [("receive timers and keep-alive sends", NC+"server.rs"), ("client state timeouts and server failover", NC+"client.rs")],
 ["client state", "server events"], engine="netcode")
prop("N05", "Hostile packets neither crash an endpoint nor disturb honest sessions",
 "No sequence of arbitrary, truncated, altered, replayed or forged packets from any address makes a server or client crash, connects or disconnects anybody, or changes which payloads honest peers exchange.",
 ["inputs", "fault_sequences"], "all byte strings and all mutations of genuine packets, at any moment of any session",
 "tests parse a few malformed packets",
 [NC+"packet.rs", NC+"server.rs", NC+"client.rs", NC+"token.rs"],
 [("packet validation and decryption before use", NC+"packet.rs")],
 ["process survival", "session states and payloads"], engine="netcode")

# ------------------------------------------------------------------ p2p
prop("P01", "Peers that start a peer-to-peer session start it at the same tick",
 "Any two peers of the same session attempt that report the session started report the same start tick and member list, start exactly at that tick, and only after every member was connected, synchronised and agreed; no peer starts before all members confirmed. A peer that cannot reach agreement in time reports failure and never starts that attempt.",
 ["schedules", "fault_sequences", "histories"], "all message losses, delays and orders, all tick offsets between peers, all moments at which peers request the start, and any number of peers",
 "tests run one three-peer happy path and selected failures",
 [P2+"session.rs"],
 [("ready/ack barrier with generation and roster hash", P2+"session.rs"), ("start only when the local clock reaches the agreed tick", P2+"session.rs")],
 ["start, failure and stop notifications", "reported member list"], engine="p2p")
prop("P02", "Session attempts are isolated and stop cleanly",
 "Messages from an earlier or different attempt, from unknown peers, or repeated ones never influence a session; a change of members during the agreement fails the attempt; stopping returns every member link to inactive and reports exactly one stop if it was running. A new attempt after a stop or failure works as from fresh.",
 ["histories", "schedules", "fault_sequences"], "all sequences of start, stop, disconnect and restart with stale messages in flight",
 "tests cover selected single transitions",
 [P2+"session.rs"],
 [("generation and roster checks on every message", P2+"session.rs"), ("reset on stop", P2+"session.rs")],
 ["session state and notifications"], engine="p2p")

# ------------------------------------------------------------------ sync / time
prop("S01", "Round-trip estimates are sane",
 "A ping is answered at most once per measurement and only the matching newest ping updates the estimate; each sample equals the elapsed time minus the peer's reported processing time, never negative; the smoothed estimate always lies within the range of the samples seen.",
 ["schedules", "fault_sequences"], "all losses, duplications, delays and reorderings of pings and pongs",
 "tests feed a single ping/pong pair",
 [SY+"ping/manager.rs", SY+"ping/estimator.rs", SY+"ping/store.rs"],
 [("ping store with ids", SY+"ping/store.rs"), ("smoothing filter", SY+"ping/estimator.rs")],
 ["reported RTT and jitter"], engine="sync")
prop("S02", "Synchronised clocks converge and only move in allowed ways",
 "A clock that follows a remote one does nothing before the handshake measurements are in, then jumps once to its target; afterwards it jumps only when the error exceeds the configured maximum, otherwise changes speed only in the direction that reduces a persistent error, keeps the configured speed bounds, and returns to normal speed when the error is small. Under a steady network it ends within the error margin of its target and stays there.",
 ["histories", "configurations"], "all error sequences, margins and speed settings",
 "tests apply single error values",
 [SY+"timeline/sync.rs", SY+"timeline/input.rs"],
 [("sync controller", SY+"timeline/sync.rs")],
 ["clock speed, jumps and synced flag"], engine="sync")
prop("S03", "Prediction never runs further ahead than allowed",
 "The wait decision stops the local clock exactly when it is at least the allowed number of ticks ahead of the newest confirmed one and resumes only after the lead has dropped by the hysteresis, for any sequence of confirmations; the input delay chosen for a given connection quality lies within the configured bounds, is monotone in the latency, and together with the allowed prediction covers the latency.",
 ["histories", "configurations", "inputs"], "all sequences of local ticks and confirmations, all configurations and link qualities",
 "tests check a handful of values",
 [SY+"timeline/input.rs"],
 [("prediction window wait", SY+"timeline/input.rs"), ("input delay computation", SY+"timeline/input.rs")],
 ["waiting flag", "input delay"], engine="sync")

# ------------------------------------------------------------------ core
prop("K01", "Tick and clock arithmetic is consistent",
 "Ticks, sub-tick instants and sequence numbers obey one arithmetic: adding a difference gets back to the other operand, ordering agrees with the sign of the difference, sequence-number ordering is right for any two numbers less than half the range apart across wraparound, and conversions between instants, deltas and durations round in a fixed way without drift.",
 ["inputs"], "all values including extremes and wraparound points",
 "tests check a few values",
 [CO+"tick.rs", CO+"time.rs", "crates/core/utils/src/wrapping_id.rs"],
 [("tick arithmetic", CO+"tick.rs"), ("fixed point instants", CO+"time.rs"), ("wrapping ids", "crates/core/utils/src/wrapping_id.rs")],
 ["results of arithmetic"], engine="core")
prop("K02", "Histories answer as of any tick",
 "A value history returns, for any tick, the newest value recorded at or before it, through any sequence of recording, removal, clearing before or after a tick and popping; clearing old entries never changes the answer for later ticks, and clearing newer ones never changes the answer for earlier ticks.",
 ["histories", "inputs"], "every sequence of history operations",
 "tests run short fixed sequences",
 [CO+"history_buffer.rs", CO+"confirmed_history.rs"],
 [("sorted history with anchor on clear", CO+"history_buffer.rs")],
 ["values returned"], engine="core")
prop("K03", "Bounded sequence and ready buffers never mix up entries",
 "A sequence-indexed buffer of N places returns for an id the last value inserted in that id's place (ids a multiple of N apart share one) and nothing once it was removed; a ready buffer releases exactly the items whose key has been reached, in key order, each once; the packet buffer pool hands out empty buffers, never changes the bytes of anything handed off and still held, and keeps no more than its limit.",
 ["histories", "inputs"], "every sequence of inserts, removals, lookups, hand-offs and recyclings, including wraparound",
 "tests run short fixed sequences",
 ["crates/core/utils/src/sequence_buffer.rs", "crates/core/utils/src/ready_buffer.rs"],
 [("slot by id modulo window", "crates/core/utils/src/sequence_buffer.rs"), ("heap by key", "crates/core/utils/src/ready_buffer.rs"), ("split and reclaim of handed-off buffers", CO+"buffer_pool.rs")],
 ["values returned"], engine="core")
SE = "crates/transport/serde/src/"
prop("K04", "Wire encodings round-trip and reject bad bytes cleanly",
 "Decoding what was encoded gives the same value back and consumes exactly the announced number of bytes, whatever precedes or follows it, for every encodable type (integers, ticks, ids, entities with their mapping mark, byte strings, collections); no truncated encoding decodes, and decoding arbitrary bytes ends in a value that encodes again or in an error, without a crash or an allocation beyond the bytes at hand.",
 ["inputs"], "all values of each type, including length and range limits, and all byte strings",
 "tests encode a few values",
 [SE+"lib.rs", SE+"varint.rs", SE+"reader.rs", SE+"writer.rs", SE+"entity_map.rs", CO+"id.rs", CO+"tick.rs", CO+"time.rs"],
 [("variable-length integers", SE+"varint.rs"), ("length-prefixed collections", SE+"lib.rs"), ("entity bits with mapping mark", SE+"entity_map.rs")],
 ["bytes written", "values read"], engine="core")

# ------------------------------------------------------------------ messages
prop("M01", "Typed messages reach exactly the addressed receivers",
 "A typed message or event sent by one side appears in the matching typed receiver of each addressed peer exactly once per send on a reliable channel, with the sender's identity, channel and sending tick, and in no other receiver; entity references inside it are translated by the receiver's mapping. A message the receiver has not taken by the end of the frame is discarded, and nothing sent or received before a disconnect surfaces afterwards.",
 ["histories", "configurations", "schedules"], "all mixes of message types, channels, targets, host and remote clients, connects and disconnects",
 "tests send single messages between two peers",
 [M+"send.rs", M+"receive.rs", M+"multi.rs", M+"server.rs", M+"plugin.rs", M+"receive_event.rs"],
 [("type id on the wire and registry dispatch", M+"receive.rs"), ("target resolution", M+"server.rs"), ("cleanup on disconnect", M+"plugin.rs")],
 ["typed receivers and events"], engine="messages")
prop("M02", "Timeline-delayed messages appear exactly when their tick is reached",
 "A message sent on a timeline-delayed channel becomes visible in the first frame in which the receiving timeline has reached the sending tick, not earlier and exactly once, in sending-tick order and receive order within a tick, whatever order messages arrive in and however the timeline moves; too-far-future or over-limit messages are rejected without affecting others.",
 ["schedules", "histories"], "all arrival orders and timeline movements including jumps and stalls",
 "tests release one to three messages",
 [M+"receive.rs", M+"receive_event.rs", M+"plugin.rs", "crates/core/utils/src/ready_buffer.rs"],
 [("per-timeline pending queue", M+"receive.rs"), ("release pass", M+"plugin.rs")],
 ["typed receivers and events per frame"], engine="messages")

# ------------------------------------------------------------------ inputs
IN = "crates/inputs/inputs/src/"
IV = "crates/inputs/inputs_native/src/"
prop("I01", "An input history reads at each tick what was set for it",
 "An input buffer is the history of one player's inputs over an interval of ticks. A tick reads the input that was last set for it; a gap left when a later tick is set reads as the input before it; a prediction beyond the end repeats the last input; before the first tick and for ticks set to no input it reads as nothing. Taking out or forgetting ticks up to some tick gives that tick's input and leaves every later one as it was (the variant that keeps the last input never forgets that one); cutting off the end leaves every earlier tick. This holds however inputs were compressed inside, at tick zero and after gaps of any length.",
 ["histories", "inputs"], "every sequence of sets, gaps, cuts, extensions and pops, at any tick",
 "tests set and pop a handful of ticks; the buffer is a run-length encoding in which each operation has to keep the runs of its neighbours intact",
 [IN+"input_buffer.rs"],
 [("repeats stored as same-as-precedent", IN+"input_buffer.rs"), ("pop carries the value over to the new start", IN+"input_buffer.rs")],
 ["get, get_predict, get_last, pop, len"], [("buffer, start_tick", "inputs from start_tick on", IN+"input_buffer.rs")], engine="inbuf")
prop("I02", "An input message says what was pressed at each of the last ticks",
 "The input message a client makes for a tick says, for each of the last ticks it covers (as many as asked for, or as the history goes back to), exactly the input the client's history has for that tick, with the first one spelled out; there is a message as soon as the history has any of these ticks.",
 ["histories", "inputs"], "every history, every number of ticks, any input delay and change of delay",
 "tests build one or two messages from short histories",
 [IN+"input_message.rs", IV+"input_message.rs", IN+"input_buffer.rs"],
 [("message built from the buffer", IV+"input_message.rs")],
 ["decoded content of the message"], engine="inbuf")
prop("I03", "Received inputs are what is simulated, and a wrong prediction is always found",
 "Whatever input messages arrive, in whatever order, however late and however often: a server simulates a tick with the input received for it, or if none came in time with the last one before it; another client predicts the last input for ticks it has nothing for, a message whose inputs differ from what was predicted reports the first tick that differs (and none when all are as predicted), and after replaying from there every tick has run with the input received. What was received for a tick is never changed by a later message, and the last received tick never goes back.",
 ["schedules", "fault_sequences", "histories"], "every loss, duplication, delay and reordering of input messages, every input delay, every pace of sender and receiver",
 "tests deliver one or two messages in order",
 [IN+"input_message.rs", IN+"input_buffer.rs", IN+"server.rs", IN+"client.rs"],
 [("update of the buffer from a message, earliest mismatch", IN+"input_message.rs"), ("server takes the tick's input or predicts", IN+"server.rs"), ("remote client's prediction", IN+"client.rs")],
 ["inputs simulated per tick, mismatch reported, last received tick"], [("last_remote_tick", "latest tick received", IN+"input_buffer.rs")], engine="inbuf")
