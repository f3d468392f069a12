# Which scenarios, enumerations and design models decide which property.
# rnd: (family, quick count, thorough count); exh: complete enumerations; mc: design models.

T = 12   # thorough = T x quick


def R(**k):
    return [(f, n, n * T) for f, n in k.items()]


CODEC = ("cpack", "cbytes", "cread", "chelp", "cmix", "xpack", "xlen", "xcut", "xhelp")
EXIT = ("exit", "xexit")

PLAN = {
    "C01": {"rnd": R(route=250, cpack=250, cmix=150, cbytes=200), "exh": ["xpack"]},
    "C02": {"rnd": R(stream=1000, pipe=300, cread=400), "exh": ["xcut", "xstream", "xlong"]},
    "C03": {"rnd": R(mal=1000, max=300, udp=200, cbytes=300, cread=200), "exh": ["xlen", "xmal"]},
    "C04": {"rnd": R(max=1000, mal=300, cread=200), "exh": ["xmax"]},
    "C05": {"rnd": R(route=1000, mal=200, iso=200, udp=200), "exh": ["xroute", "xlong"]},
    "C06": {"rnd": R(reg=1500, chain=300, raw=150, udp=150), "exh": ["xreg"]},
    "C07": {"rnd": R(chain=1500, raw=200, pipe=200), "exh": ["xchain"]},
    "C08": {"rnd": R(scope=1500, udp=300, raw=200), "exh": ["xscope"]},
    "C09": {"rnd": R(pipe=1500, long=60, max=200, mal=200), "exh": ["xpipe"]},
    "C10": {"rnd": R(life=1200, stop=200, hb=200, auth=150, dl=150, raw=150), "exh": ["xlife", "xmany"]},
    "C11": {"rnd": R(hb=1200, hb0=1000, pipe=150), "exh": ["xhb", "xbeats"]},
    "C12": {"rnd": R(auth=1500), "exh": ["xauth"]},
    "C13": {"rnd": R(pool=1200, sendto=200, stop=300), "exh": ["xpool", "xmany"]},
    "C14": {"rnd": R(reply=1000, bigrep=500, iso=150, udp=150, dl=100), "exh": ["xdl", "xlong"]},
    "C15": {"rnd": R(sendto=1500, bigrep=200), "exh": ["xsend", "xmany"]},
    "C16": {"rnd": R(stop=1500), "exh": ["xstop", "xmany"]},
    "C17": {"rnd": R(stop=1500), "exh": ["xstop", "xcycle"]},
    "C18": {"rnd": R(life=500, stop=400, hb=300, auth=300, udp=300, raw=300, crowd=40, route=200, mal=150, pipe=150), "exh": ["xlife", "xmany", "xcycle"]},
    "C19": {"rnd": R(dl=1800, dlt=200), "exh": ["xdl"]},
    "C20": {"rnd": R(udp=1500, mal=200, crowd=40), "exh": ["xudp", "xlong"]},
    "C21": {"rnd": R(raw=1500, stop=200), "exh": ["xraw"]},
    "C22": {"rnd": R(chain=600, pipe=500, udp=400, raw=200, life=200), "exh": ["xchain", "xcrowd"]},
    "C23": {"rnd": R(exit=200), "exh": ["xexit"]},
    "C24": {"rnd": R(chelp=800, cread=200, pipe=100, hb=100), "exh": ["xhelp", "xcut"]},
    "C25": {"rnd": R(iso=1000, pipe=300, crowd=80, many=80), "exh": ["xcrowd"]},
    "C26": {"rnd": R(busy=1200), "exh": ["xbusy"]},
}

# all interleavings of the step-level model of the server (spec/Server.tla) on small scenarios, judged by the guards
# that judge the recorded traces; quick: every n-th scenario of the set (0: thorough only)
MC = {   # set: (stride in the quick checks, what)
    "chain": (9, "two requests of a connection, every pair of chains of three links with Next, Abort, panic and request variables"),
    "pipe": (6, "every pair of chains inside a pipe; pipes cut off by the end of the stream or an oversized message; a blocked pipe"),
    "life": (2, "how a connection ends: client before, between and inside messages, handler, oversized message, heartbeat and auth watchers; replies racing with it"),
    "iso": (0, "a blocked handler beside other messages and connections"),
    "scope": (0, "connection variables set and read by concurrent requests"),
    "pool": (13, "online, offline, lookup and close of two connections at the same time"),
    "send": (4, "sending to a name while its connection closes, renames or leaves"),
    "hb": (1, "heartbeats before, at and after the limit"),
    "auth": (17, "pass and deny by concurrent requests, before and at the deadline"),
    "stop": (12, "Stop, Start and Restart beside traffic, with and without signals, pool and two listeners"),
    "anchors": (1, "the anchor bookkeeping of the global middlewares (tcpx.go) over all short registration programs, against the declarative Registration.tla", "Anchors"),
    "framer": (1, "client writes, network and read loop byte by byte: all cuts, all points at which the client goes away, all limits, against Wire!Frames", "Framer"),
    "exit": (1, "BeforeExit: signals at every moment, handler goroutine, exit", "ExitMC"),
}
for _p, _l in {"C02": "life framer", "C03": "life framer", "C04": "life pipe framer", "C06": "anchors", "C23": "exit", "C24": "framer", "C07": "chain", "C08": "scope chain", "C09": "pipe", "C10": "life hb auth stop", "C11": "hb", "C12": "auth",
               "C13": "pool", "C14": "life send", "C15": "send", "C16": "stop", "C17": "stop", "C18": "life stop", "C22": "chain pipe", "C25": "iso pipe"}.items():
    PLAN[_p]["mc"] = _l.split()

ASSUME = [
    "the operating system's network is replaced by an in-memory one with the same interface (per-connection FIFO byte streams, atomic Write calls, FIN/RST, deadlines); time is virtual (testing/synctest)",
    "scheduling points are statement boundaries of the code under test; memory is sequentially consistent (GOMAXPROCS=1)",
    "handlers do what the scenario says; OnConnect and the heartbeat-loss callback do not panic",
]

NOTE = {
    "": "Every explored execution of the real code (generated from the specification, replayed under a perturbed deterministic scheduler in virtual time) is decided step by step by TLC "
        "against spec/Tcpx.tla; bounded in scenario size and number, and in schedules by sampling. Trusts the in-memory network, testing/synctest and the harness's translation of events.",
}
NA = {
}
