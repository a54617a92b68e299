"""How each property is checked (used by run.py and gen.py)."""
ENGINES = {
 "transport": dict(dir="spec/transport", module="TransportTrace", cfg="trace.cfg",
   assumptions=["two endpoints, six channels (one per mode), up to a few hundred packets per execution",
                "packets are not altered in flight (corruption is outside the transport's contract)"]),
 "long": dict(dir="spec/transport", module="LongTrace", cfg="trace.cfg",
   assumptions=["long histories: one channel per execution, up to 140000 messages; no packet is delayed past 32767 newer messages of its channel, and pieces of unreliable messages not past the reassembly window"]),
 "netcode": dict(dir="spec/netcode", module="NetcodeTrace", cfg="trace.cfg",
   assumptions=["the AEAD and its keys are ideal: only holders of a session's keys can seal packets (crafted packets of a key holder are generated; the state of his own session is then free)",
                "one netcode server, up to a dozen connection attempts; datagrams duplicated, lost, delayed, replayed, altered, forged"]),
 "link": dict(dir="spec/link", module="LinkTrace", cfg="trace.cfg",
   assumptions=["a packet's random delay and loss are known only as the window and probability its conditioner's settings give",
                "UDP over the loopback interface; up to four peers, datagrams up to 1472 bytes"]),
 "conn": dict(dir="spec/conn", module="ConnTrace", cfg="trace.cfg",
   assumptions=["up to two servers, six connection entities and four identities; identity of a connected entity is fixed while connected; marker components of connection and link states are never removed by hand",
                "link states are not changed to linking or linked on an entity that is in the middle of disconnecting"]),
 "p2p": dict(dir="spec/p2p", module="P2PTrace", cfg="trace.cfg",
   assumptions=["two to four peers, fully or partly linked, each with its own virtual clock and tick offset; links are up or down at both ends together or one end at a time",
                "a link that connects carries the identity of its remote peer"]),
 "msg": dict(dir="spec/msg", module="MsgTrace", cfg="trace.cfg",
   assumptions=["one server, up to three clients and an in-process client; six message and event types over six channels of five settings; two timelines",
                "messages to a client that is not connected may or may not be kept; with a network that loses packets only what is seen is checked, not when",
                "links are up at both ends together and go down at one end at a time"]),
 "sync": dict(dir="spec/sync", module="SyncTrace", cfg="trace.cfg",
   assumptions=["the controller over up to four scripted remote clocks; whole apps over one link with a constant latency and constant frame lengths",
                "times are compared in 1/1024 tick (1024 ns in the ping protocol), speeds in 1/10000; a decision whose outcome depends on less is not judged"]),
 "inbuf": dict(dir="spec/input", module="BufTrace", cfg="trace.cfg", build="build_in.sh", mem_gb=6, timeout=120,
   assumptions=["one sender and one receiver of one entity's native inputs; the input crates are compiled against stand-ins for lightyear_replication and lightyear_prediction, which do not build here",
                "the sender's delay is not grown again before the ticks written under a longer delay have passed"]),
 "core": dict(dir="spec/core", module="CoreTrace", cfg="trace.cfg",
   assumptions=["values drawn around the ends, wrap points and length limits of each type, and at random"]),
}
TECH = "TLA+ specification checked with TLC; recorded executions of the real code validated against it"
CHECKS = {}
def check(ids, engine, cases, note, models=(), sims=(), **kw):
    for i in ids.split():
        CHECKS[i] = dict(engine=engine, cases=cases, note=note, technique=TECH, models=list(models), sims=list(sims), **kw)

def tmodels(quick, deep=()):
    return [dict(dir="spec/transport", module="MCTransport", cfg=f"mc_{m}.cfg") for m in quick.split()] + \
           [dict(dir="spec/transport", module="MCTransport", cfg=f"deep_{m}.cfg", thorough=True) for m in deep]
def tsims(modes):
    return [dict(dir="spec/transport", module="MCTransport", cfg=f"sim_{m}.cfg", num=80, depth=60) for m in modes.split()]
LONG = [("long", 4)]
NOTE_T = "Bounded: exhaustive on the small-constant model, sampled (seeded, plus schedules generated from the model) on the real code; TLC validates every recorded step."
MCFLUSH = [dict(dir="spec/transport", module="MCFlush", cfg="mc_flush.cfg")]
def wrap(modes):
    return [dict(dir="spec/transport", module="MCWrap", cfg=f"wrap_{m}.cfg") for m in modes.split()] + \
           [dict(dir="spec/transport", module="MCWrap", cfg=f"deepwrap_{m}.cfg", thorough=True) for m in modes.split()]
check("T01", "transport", 150, NOTE_T, also=LONG, models=tmodels("UR OR", ["UR", "OR", "SR"]) + wrap("UR SR"), sims=tsims("UR OR SR"))
check("T02", "transport", 150, NOTE_T, also=LONG, models=tmodels("OR SU SR", ["OR", "SR", "SU"]) + wrap("OR SU SR"), sims=tsims("OR SU SR"))
check("T03", "transport", 150, NOTE_T, also=LONG, models=tmodels("UU SU", ["UU", "SU"]), sims=tsims("UU UA SU"))
check("T04", "transport", 150, NOTE_T, also=LONG, models=tmodels("UA UR", ["UA", "UR"]), sims=tsims("UA UR"))
check("T05", "transport", 150, NOTE_T, also=LONG, models=tmodels("UR SR", ["UR", "SR"]), sims=tsims("UR SR OR"))
check("T06", "transport", 150, NOTE_T, MCFLUSH)
check("T07", "transport", 150, NOTE_T, also=LONG, models=MCFLUSH)
check("T08", "transport", 150, NOTE_T, tmodels("UR", ["UR"]))
check("T09", "transport", 150, NOTE_T, tmodels("UU", ["UU"]), tsims("UU"))

NOTE_N = "Bounded: exhaustive on the small-constant model (network keeps and replays every packet), sampled on the real NetcodeServer and NetcodeClient under a hostile network, plus schedules generated from the model; TLC validates every recorded step."
def nm(q, deep=()):
    return [dict(dir="spec/netcode", module="MCNetcode", cfg=f"mc_{m}.cfg") for m in q.split()] + \
           [dict(dir="spec/netcode", module="MCNetcode", cfg=f"deep_{m}.cfg", thorough=True) for m in deep]
NSIM = [dict(dir="spec/netcode", module="MCNetcode", cfg="sim.cfg", num=60, depth=80)]
check("N01", "netcode", 160, NOTE_N, nm("bad addr", ["same", "addr"]), NSIM)
check("N02", "netcode", 160, NOTE_N, nm("two same", ["two", "same"]), NSIM)
check("N03", "netcode", 160, NOTE_N, nm("pay", ["pay"]), NSIM)
check("N04", "netcode", 160, NOTE_N, nm("bad pay", ["pay", "two"]), NSIM)
check("N05", "netcode", 240, NOTE_N, nm("addr", ["addr"]), NSIM)

NOTE_K = "Bounded: laws checked exhaustively on small domains and at the edges of the real ones; the real types are driven by seeded operation sequences, every result of which TLC validates."
def km(q, deep=()):
    return [dict(dir="spec/core", module=q[0], cfg=f"mc_{c}.cfg") for c in q[1:]] + [dict(dir="spec/core", module=q[0], cfg=f"deep_{c}.cfg", thorough=True) for c in q[1:]]
check("K01", "core", 400, NOTE_K, km(("MCArith", "arith")))
check("K02", "core", 300, NOTE_K, km(("MCHist", "hist", "conf")))
check("K03", "core", 300, NOTE_K)
check("K04", "core", 300, NOTE_K, km(("MCArith", "arith")))

NOTE_L = "Bounded: exhaustive on the small-constant models of the mechanisms; sampled on the real conditioner, channel IO and UDP sockets, every step validated by TLC."
def lm(q, deep):
    return [dict(dir="spec/link", module="MCLink", cfg=f"mc_{m}.cfg") for m in q.split()] + \
           [dict(dir="spec/link", module="MCLink", cfg=f"deep_{m}.cfg", thorough=True) for m in deep.split()]
check("L01", "link", 300, NOTE_L, lm("cond burst", "cond"))
check("L02", "link", 250, NOTE_L, lm("chan chan1 udp", "chan udp"))

NOTE_C = "Bounded: exhaustive on the small-constant models; the real entities, hooks and observers are driven by seeded histories of lifecycle operations in a real App, the state after every operation validated by TLC."
def cm(module, q, deep=""):
    return [dict(dir="spec/conn", module=module, cfg=f"mc_{m}.cfg") for m in q.split()] + \
           [dict(dir="spec/conn", module=module, cfg=f"deep_{m}.cfg", thorough=True) for m in deep.split()]
check("C01", "conn", 300, NOTE_C, cm("MCLife", "life", "life"))
check("C02", "conn", 300, NOTE_C, cm("MCLife", "life", "life"))
check("C03", "conn", 300, NOTE_C, cm("MCTarget", "topo"))
check("C04", "conn", 300, NOTE_C, cm("MCTarget", "set res"))
NOTE_P = "Bounded: exhaustive on models of two and three peers whose messages are lost, delayed and reordered at will; sampled on the real session code under random faults, with every message, notification and state change validated by TLC."
MP = [dict(dir="spec/p2p", module="MCP2P", cfg=f"mc_{m}.cfg") for m in ("two","cut")] + [dict(dir="spec/p2p", module="MCP2P", cfg=f"deep_{m}.cfg", thorough=True) for m in ("two","three")]
check("P01", "p2p", 300, NOTE_P, MP)
check("P02", "p2p", 300, NOTE_P, MP)
NOTE_M = "Bounded: exhaustive on the small-constant model (sender, reordering network, moving timeline, reconnection); sampled on real apps, every frame's observations validated by TLC."
MM = [dict(dir="spec/msg", module="MCMsg", cfg="mc_msg.cfg"), dict(dir="spec/msg", module="MCMsg", cfg="deep_msg.cfg", thorough=True)]
check("M01", "msg", 160, NOTE_M, MM)
check("M02", "msg", 160, NOTE_M, MM)
NOTE_S = "Bounded: the controller, the prediction window and the delay are checked exhaustively on small-constant models closed over a clock; sampled on the real plugins, every frame validated by TLC."
SC = [dict(dir="spec/sync", module="MCSync", cfg="mc_ctl.cfg"), dict(dir="spec/sync", module="MCSync", cfg="deep_ctl.cfg", thorough=True)]
SW = [dict(dir="spec/sync", module="MCWait", cfg=f"mc_wait{i}.cfg") for i in (0, 1, 2, 5)] + [dict(dir="spec/sync", module="MCWait", cfg="deep_wait.cfg", thorough=True)]
SP = [dict(dir="spec/sync", module="MCPing", cfg="mc_ping.cfg"), dict(dir="spec/sync", module="MCPing", cfg="deep_ping.cfg", thorough=True)]
check("S01", "sync", 150, NOTE_S, SP)
check("S02", "sync", 100, NOTE_S, SC)
check("S03", "sync", 200, NOTE_S, SW)
NOTE_I = "Bounded: exhaustive on the small-constant model (sender, network that loses, repeats and reorders, server or replaying client); the real buffers and messages are driven by seeded histories, every result validated by TLC."
MI = [dict(dir="spec/input", module="MCInput", cfg=f"mc_{f}.cfg") for f in ("server", "client")] + [dict(dir="spec/input", module="MCInput", cfg=f"deep_{f}.cfg", thorough=True) for f in ("server", "client")]
check("I01", "inbuf", 150, NOTE_I, MI)
check("I02", "inbuf", 150, NOTE_I, MI)
check("I03", "inbuf", 150, NOTE_I, MI)
HOOKS = {"guard": "cfg lightyear_verif", "enable": "RUSTC_WORKSPACE_WRAPPER=/verif/tools/rustc-wrap (set by tools/build.sh) passes --cfg lightyear_verif to the workspace's own crates", "source_commits": ["4e44559", "9386748"]}
