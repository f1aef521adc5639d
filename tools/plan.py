"""Which machinery decides which property."""
import models as M

THOROUGH_S = 480
ASSUMPTIONS = [
    "sockets, the clock and the peers' scheduling are the simulated environment of harness/sim.c (single process, virtual time, no real network)",
    "descriptor writability is reported truthfully by the environment; now and then a descriptor without anything to read is read",
    "histories are those of the scenario generator and of the specification's behaviours, within their bounds; nothing is concluded about longer ones",
]

BASE = {"mixed": 60, "clean": 30}


def P(suites, base=BASE, **kw):
    d = dict(suites)
    for k, v in base.items():
        d[k] = d.get(k, 0) + v
    return dict(suites=d, **kw)


PLAN = {
    "C01": P({"subbulk": 4, "cleanlate": 20, "subjump": 60, "sublong": 4, "subready": 30, "subraw": 200, "subframe": 60, "submulti": 80, "subchurn": 60}, models=["sub"], thorough=["sub2big"]),
    "C02": P({"sizes": 120, "subframe": 60, "pubfull": 40, "cleanbig": 30, "pubframe": 60, "pubraw": 60}, models=["rmcsim"], thorough=["rmcsimbig"]),
    "C03": P({"pubbulk": 4, "slow": 40, "pubmany": 2, "pubowe": 30, "pubexact": 60, "publong": 4, "pubraw": 200, "pubfull": 60, "pubmulti": 80, "pubchurn": 60}, models=["pub"], thorough=["pub4"]),
    "C04": P({"pubbulk": 4, "pubmany": 4, "pubowe": 30, "leaks": 40, "publong": 4, "pubraw": 160, "pubchurn": 120, "pubann": 60, "publife": 80, "pubfault": 40}, models=["pub"], thorough=["pub4"]),
    "C05": P({"subbulk": 8, "slow": 40, "submany": 4, "subowe": 50, "ackroom": 60, "publong": 8, "subjump": 20, "subexact": 30, "subacks": 200, "submulti": 80, "pubraw": 80, "times": 60, "subchurn": 40}, models=["sub"], thorough=["mc5"]),
    "C06": P({"slow": 20, "pubmany": 2, "pubthr": 320}, models=["thr", "thr2", "rmcthr"], thorough=["thr3", "rmcsimthr"]),
    "C07": P({"submany": 2, "subconn": 120, "announce": 200, "capacity": 80, "submulti": 60, "datagrams": 40}, models=["lifes2", "rmc21"], thorough=["lifesbig", "rmcsimbig"]),
    "C08": P({"slow": 20, "submany": 4, "subwild": 30, "subowe": 100, "ackroom": 80, "subconn": 40, "submulti": 260, "announce": 60, "subbad": 40}, models=["sub2"], thorough=["sub2big"]),
    "C09": P({"slow": 20, "pubmany": 4, "pubwild": 30, "pubowe": 80, "pubmulti": 240, "pubfull": 60, "pubchurn": 80}, models=["pub2", "rmc12"], thorough=["pub2big"]),
    "C10": P({"pubmany": 2, "submany": 2, "pubowe": 20, "subowe": 20, "oddcalls": 30, "subconn": 60, "subready": 80, "subchurn": 160, "pubchurn": 160, "capacity": 40, "life": 40}, models=["lifep", "lifes", "sub2", "pub"], thorough=["lifesbig", "sub2big"]),
    "C11": P({"subframe": 60, "pubframe": 60, "ctl": 60}, base={}, models=["circ"], thorough=["circbig"]),
    "C12": P({"subbulk": 2, "pubbulk": 8, "pubwild": 40, "subwild": 40, "pubwrap": 80, "subexact": 30, "pubexact": 30, "subframe": 160, "pubframe": 160, "ctl": 60}, models=["subctl"], thorough=["subctlbig"]),
    "C13": P({"pubbulk": 6, "pubctl": 100, "subexact": 60, "ctl": 260, "pubframe": 80}, models=["subctl", "rmcctl"], thorough=["subctlbig"]),
    "C14": P({"pubmany": 1, "submany": 2, "sparse": 30, "subconn": 40, "life": 60, "pubchurn": 60, "subchurn": 60, "pubfull": 40, "ctl": 60, "publife": 60}, models=["lifep", "lifes", "pub"], thorough=["lifepbig", "pub2big"]),
    "C15": P({"slow": 50, "pubowe": 40, "subowe": 60, "ackroom": 40, "times": 160, "subacks": 100, "pubann": 60, "pubraw": 60}, models=["sub"], thorough=["mc5"]),
    "C16": P({"pubfault": 200, "pubraw": 80, "pubthr": 40, "publife": 40}, models=["pub"], thorough=["pub4"]),
    "C17": P({"slow": 50, "pubann": 240, "announce": 80, "datagrams": 40}, models=["ann"], thorough=["annbig"]),
    "C18": P({"pubmany": 3, "submany": 3, "actfault": 60, "subconn": 60, "capacity": 240, "life": 60, "pubchurn": 60}, models=["lifep", "lifes2"], thorough=["lifepbig", "lifesbig"]),
    "C19": P({"subbulk": 6, "slow": 20, "subowe": 40, "sublong": 14, "subjump": 40, "subacks": 240, "subraw": 100}, models=["mc4"], thorough=["mc5"]),
    "C20": P({"subjump": 60, "subraw": 60}, base={}, models=["list"], thorough=["listbig"]),
    "C21": P({"pubmany": 3, "pubowe": 30, "pubexact": 40, "pubraw": 140, "pubfull": 60, "pubchurn": 100, "publife": 40}, models=["pub"], thorough=["pub4"]),
    "C22": P({"subbad": 220, "datagrams": 120}, models=["lifes"], thorough=["lifesbig"]),
    "C23": P({"pubmany": 2, "sparse": 40, "pubchurn": 160, "capacity": 80, "life": 60, "announce": 40}, models=["lifep", "pub2"], thorough=["lifepbig", "pub2big"]),
    "C24": P({"subbulk": 4, "submany": 2, "leaks": 60, "subready": 40, "subraw": 140, "subchurn": 140, "life": 60}, models=["lifes", "sub"], thorough=["lifesbig", "sub2big"]),
    "C25": P({"cleanlate": 80, "clean": 240, "cleanbig": 60}, base={}, findings=True, models=["rmc", "rmcre", "rmcsim"], thorough=["rmcbig", "rmcrebig", "rmcsimbig"]),
    "C26": P({"life": 120, "publife": 120, "actfault": 160, "badinit": 60}, models=["lifep", "lifes"], thorough=["lifepbig", "lifesbig"]),
    "C27": P({"sparse": 120, "oddcalls": 120, "subconn": 60, "life": 40, "pubfault": 60, "announce": 40, "subbad": 40}, models=["lifep", "sub", "pub"], thorough=["lifepbig", "sub2big", "pub2big"]),
    "C28": P({"steady": 24, "leaks": 200, "badinit": 60, "actfault": 40, "subchurn": 40, "life": 40, "publong": 2, "sublong": 2}, models=["lifep", "lifes", "sub", "pub"], thorough=["lifepbig", "lifesbig", "sub2big", "pub2big"]),
    "C29": P({"pubbulk": 3, "pubwild": 240, "subwild": 200, "subbad": 60, "pubraw": 20}, models=["lifep", "lifes"], thorough=["lifepbig", "lifesbig"]),
    "C30": P({"nestpub": 260, "nestsub": 220}, models=["lifep", "lifes"], thorough=["lifepbig", "lifesbig"]),
    "C31": P({"logs": 160}, base={}, models=["logpair"], thorough=["logpairbig"]),
    "C32": P({}, base={}, models=["apart"], thorough=["apartbig"]),
}
MC = ("tc", "cl", "bb", "wf", "wp", "dk", "d")
ANY = dict(TIDY="FALSE", WAIVE="TRUE", LOSS=1, ANN=1, DUP=0)
MODELS = {
    "circ": M.circ,
    "circbig": lambda c: M.circ(c, "{1, 2, 3, 4, 5, 7, 8, 11, 13}", (400, 200)),
    "list": M.lst,
    "listbig": lambda c: M.lst(c, 4, 2, "{1, 2, 3}", (400, 200)),
    "sub": M.subgen(),
    "subctl": M.subgen(1, 2, 1, 3, True),
    "subctlbig": M.subgen(1, 3, 2, 3, True, limit=8000),
    "sub2": M.subgen(2, 2, 2, 1, limit=120),
    "sub2big": M.subgen(2, 2, 2, 1, limit=6000),
    "mc4": M.subgen(1, 4, 9, 3, False, None, 50000, MC),
    "mc5": M.subgen(1, 5, 9, 3, False, None, 50000, MC),
    "pub": M.pubgen(),
    "pub4": M.pubgen(1, 4, 2, 2, limit=8000),
    "pub2": M.pubgen(2, 2, 1, 1),
    "pub2big": M.pubgen(2, 3, 2, 1, limit=8000),
    "thr": M.pubgen(1, 3, 2, 1, 2, 1),
    "thr2": M.pubgen(2, 2, 2, 1, 1, 0),
    "thr3": M.pubgen(1, 4, 3, 2, 3, 1, limit=8000),
    "ann": M.pubgen(1, 1, 2, 1, ann=True),
    "annbig": M.pubgen(2, 2, 2, 1, ann=True, limit=6000),
    "lifep": M.lifepub(),
    "lifepbig": M.lifepub(4, 2, 2),
    "lifes": M.lifesub(),
    "lifes2": M.lifesub(3, 2, 1, 1, limit=150),
    "lifesbig": M.lifesub(3, 2, 2, 2, limit=6000),
    "logpair": M.log_pair(200),
    "logpairbig": M.log_pair(3000),
    "apart": M.apart_pair(1200),
    "apartbig": M.apart_pair(8000),
    # the closed system
    "rmc": M.rmc_graph(1, 1, 120, **dict(ANY, W=2, DUP=1)),
    "rmctidy": M.rmc_graph(1, 1, 40, W=2, DUP=1),
    "rmcre": M.rmc_graph(1, 1, 80, **dict(ANY, W=1, CLOSE=1, ANN=2)),
    "rmcctl": M.rmc_graph(1, 1, None, **dict(ANY, W=1, CTL=2)),
    "rmcthr": M.rmc_graph(1, 1, 80, **dict(ANY, W=2, S=1, R=0)),
    "rmc12": M.rmc_graph(1, 2, 80, **dict(ANY, W=1)),
    "rmc21": M.rmc_graph(2, 1, 80, **dict(ANY, W=1, ANN=2)),
    "rmcbig": M.rmc_graph(1, 1, 3000, **dict(ANY, W=3, DUP=1, LOSS=2)),
    "rmcrebig": M.rmc_graph(1, 1, 3000, **dict(ANY, W=2, CLOSE=1, ANN=2)),
    "rmcsim": M.rmc_sim(2, 2, 120, 150, W=6, LOSS=6, ANN=4, CLOSE=1, CTL=2, TIDY="FALSE", WAIVE="TRUE"),
    "rmcsimbig": M.rmc_sim(2, 3, 1600, 300, W=10, LOSS=15, ANN=6, CLOSE=2, CTL=3, DUP=3, TIDY="FALSE", WAIVE="TRUE"),
    "rmcsimthr": M.rmc_sim(2, 2, 120, 150, W=8, LOSS=6, ANN=4, S=2, R=1, TIDY="FALSE", WAIVE="TRUE"),
}
EXTRA = {}
TECH = "TLA+ specification; TLC checks traces recorded from the real library against it"
TECHM = "TLA+ specification: TLC enumerates its states, checks the invariants, every transition is replayed in the real code; TLC checks the recorded traces against the specification"
NOTE = ("Every call of every explored history of the real library is compared by TLC with the TLA+ reference state. Trusts TLC, the simulated sockets and clock of "
        "harness/sim.c and the specification itself; histories beyond those generated are not covered.")
for _p in PLAN.values():
    if "models" in _p:
        _p.setdefault("technique", TECHM)
