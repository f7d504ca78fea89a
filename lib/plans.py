"""What decides each property: models, generated behaviours and how they are put on the wire, special drivers."""
import campaign
import collide
import sut
import wire
from campaign import Check

PLANS = {}


def plan(pid, judged):
    def deco(f):
        def make():
            c = Check(pid, judged)
            f(c)
            for p, old, new, consts in SLIPS:
                if p == pid:
                    c.refuted("%s instead of %s" % (new, old), "Slips", "CONSTANT %s <- %s\n" % (old, new) + campaign.MC_CFG % ALL_PROPS, **dict(campaign.SMALL, **consts))
            return c
        PLANS[pid] = make
        return f
    return deco


def distinct(n):
    return list(range(1, n + 1))


def keys(n):
    return dict(NKey=n, Hash=distinct(n))


# designs that are wrong (spec/Slips.tla): definition, what takes its place, the property whose check includes it, constants
READ = dict(Ops={"putT", "getT", "delT"}, Glob=set(), Sizes={2})
SLIPS = [
    ("C03", "TidyBlock", "TidyBlockEarly", dict(READ, Sizes={3})),
    ("C09", "TidyBlock", "TidyBlockNever", READ),
    ("C04", "PutB", "PutBVisible", READ),
    ("C04", "Abort", "AbortKeeps", READ),
    ("C09", "Unlink", "UnlinkNoBytes", READ),
    ("C08", "Unlink", "UnlinkNoLru", READ),
    ("C02", "GetK", "GetKHash", dict(READ, NKey=2, Hash=[1, 1])),
    ("C07", "GetK", "GetKStale", dict(READ, Ttls={0, 1}, MaxNow=2, Glob={"tick"})),
    ("C05", "DelE", "DelEAll", dict(READ, NKey=2, Hash=[1, 2])),
    ("C05", "DelE", "DelENot", READ),
    ("C05", "DelTE", "DelTEOne", dict(READ, Ops={"putT", "deltT"})),
    ("C01", "PutE", "PutEOver", READ),
    ("C14", "Snapshot", "SnapshotAll", dict(Ops={"putT"}, Sizes={2}, Glob={"gc"})),
    ("C14", "Gc", "GcTwice", dict(Ops={"putT"}, Sizes={2}, Glob={"gc", "flush"}, Hold=True)),
    ("C20", "FlushFails", "FlushFailsLoses", dict(Ops={"putT"}, Sizes={2}, Glob={"gc", "flush", "flushF", "break", "heal", "crash"}, Hold=True)),
]
ALL_PROPS = "Stable Found Precise Frozen Once Cut CrashOk CrashAnywhere FailSafe"
SAVE_SLIPS = [("zero", 2, 2, 0), ("nobump", 3, 2, 0), ("nocheck", 2, 1, 1), ("nounlink", 2, 2, 0), ("swap", 2, 2, 0)]


STEPWISE = ["put", "put", "putT", "putT", "putT", "get", "getT", "getT", "headT", "head", "del", "delT", "delT", "delt", "deltT",
            "bulk", "bulkT", "list", "listT"]


BIG = 1 << 24       # blocks as large as that (in a file of holes): a few hundred reach beyond 2 and 4 GB


@plan("C01", ["status", "value", "ttl", "ack"])
def c01(c):
    c.model("one key, all sizes", Sizes={0, 2, 5}, Ops={"putT", "getT", "delT"}, Glob=set())
    c.model("two keys, collecting", NConn=1, NKey=2, Hash=[1, 2], Sizes={2, 5}, Ops={"putT", "getT", "delT"}, Glob={"gc"})
    whole = ["put"] * 5 + ["get"] * 5 + ["head", "del", "put", "get"]
    sizes = [1, 2, 9, 100, 4000, 4095, 4096, 4096, 4097, 4098, 8191, 8192, 12288, 16383, 16384, 16385, 40000, 70000, 0]
    c.replay("histories", 900, Starts=whole + ["delt", "bulk", "getT", "putT"], Sizes=sizes, Slow=300000,
             opts=dict(style="mix", sndbuf=0), **keys(4))
    c.replay("stepwise", 900, Starts=STEPWISE, Sizes=sizes, opts=dict(style=["plain", "mix"], noise=[False, True]), **keys(3))
    c.replay("one table, few keys", 600, NTab=1, Starts=whole, Sizes=[5, 4096, 4097, 9000], Depth=60, Slow=300000,
             opts=dict(style="plain", sndbuf=0, frag=["whole", "cut"], end=["kill", "term"]), **keys(2))
    c.replay("asan", 250, kind="asan", Starts=STEPWISE, Sizes=sizes, opts=dict(style="mix"), **keys(3))
    c.replay("restarts", 150, Starts=whole, Sizes=sizes, Slow=300000, Globals=["restart", "gc", "crash"], GlobalPct=10,
             opts=dict(style="mix", sndbuf=0), **keys(4))
    c.replay("large values", 16, n_thorough=150, NTab=1, Starts=["put"] * 2 + ["get"] * 3 + ["head", "del"], Sizes=[1 << 20, (1 << 22) + 1, 9000000, 17000000, 10], Slow=1 << 30, Depth=12,
             Globals=["gc"], GlobalPct=5, opts=dict(style="plain", sndbuf=0, frag="whole"), **keys(2))
    c.replay("many keys", 60, n_thorough=400, NConn=1, NTab=1, Starts=["fill", "fill", "scan", "unfill", "unfill", "scan", "put", "get"], Sizes=[1, 4097, 9000], ManySizes=[4096, 4096, 4096, 1],
             inv=False, extra=40000, Depth=24, opts=dict(style="plain", frag="whole"), **keys(420))
    if sut.scalable("BLOCK_LENGTH"):
        c.replay("a large block file", 10, n_thorough=100, NConn=2, NTab=1, Starts=["put"] * 3 + ["get"] * 9 + ["del"], Sizes=[1, 5000, 70000], Pre=330, PreSize=9,
                 Globals=["gc"], GlobalPct=5, inv=False, extra=40000, Depth=60, BlockMax=BIG, defs="-DBLOCK_LENGTH=%d" % BIG,
                 opts=dict(style="plain", frag="whole", stack=1 << 26), **keys(332))


def colliding():
    ps = [tuple(x.decode("latin1") for x in p) for p in collide.pairs()]
    return ([p for p in ps if "\0" in p[0]][:6] + [p for p in ps if "\0" not in p[0]][:10])


@plan("C02", ["status", "value", "ttl", "deleted", "bulk", "list", "keys", "tables", "bytes"])
def c02(c):
    c.model("two colliding keys", NKey=2, Hash=[1, 1], MaxUp=2, Glob=set(), Ops={"putT", "getT", "delT", "bulkT"})
    c.model("two tables", NTab=2, MaxUp=2, Ops={"putT", "getT", "delT", "deltT"}, Glob=set())
    ps = colliding()
    whole = ["put"] * 6 + ["get"] * 6 + ["head", "del", "del", "bulk", "list", "delt", "pages"]
    c.replay("odd and empty names", 300, NTab=3, Starts=["put"] * 6 + ["get"] * 6 + ["head", "del", "del", "putT", "getT", "delT"], Sizes=[1, 5, 4097],
             opts=dict(style="odd"), **keys(4))
    c.replay("names", 700, NTab=3, Starts=whole + ["putT", "getT", "delT"], Sizes=[1, 5, 4097], opts=dict(style=["mix", "prefix", "odd", "long"]),
             **keys(4))
    if ps:
        c.replay("colliding keys", 800, NKey=4, Hash=[1, 2, 3, 3], Starts=whole + STEPWISE, Sizes=[1, 5, 4096, 4097],
                 opts=dict(style=["plain", "mix"], colliding=ps))
        c.replay("colliding tables", 800, NTab=3, Starts=whole + STEPWISE, Sizes=[1, 5, 4096, 4097],
                 opts=dict(style=["plain", "mix"], table_coll=ps), **keys(2))
        c.replay("colliding keys and tables, restarts", 200, NTab=3, NKey=4, Hash=[1, 2, 3, 3], Starts=whole, Sizes=[1, 5, 4096, 4097],
                 Globals=["restart", "gc", "restart", "crash"], GlobalPct=10, opts=dict(style="plain", table_coll=ps, colliding=ps))
        c.replay("colliding, expiring", 300, NTab=2, NKey=4, Hash=[1, 2, 3, 3], Starts=whole + STEPWISE, Sizes=[1, 5, 4097], Ttls=[0, 1, 2, 3],
                 Globals=["tick", "tick", "gc"], GlobalPct=20, opts=dict(style="plain", table_coll=ps, colliding=ps))
        c.replay("colliding, asan", 200, kind="asan", NTab=3, NKey=4, Hash=[1, 2, 3, 3], Starts=whole + STEPWISE, Sizes=[1, 5, 4096, 4097],
                 opts=dict(style=["plain", "mix"], table_coll=ps, colliding=ps))


@plan("C03", ["status", "value", "ttl"])
def c03(c):
    c.model("one reader, one writer", Sizes={2}, MaxUp=3, Ops={"putT", "getT", "delT", "deltT"}, Glob={"gc"})
    c.model("block or file", Sizes={2, 5}, Ops={"putT", "getT", "delT"}, Glob=set())
    c.model("evicted while read", NKey=2, Hash=[1, 2], Sizes={2, 3}, MaxSize=4, MaxUp=3, Ops={"putT", "getT"}, Glob={"gc"})
    slow = ["getT"] * 8 + ["get"] * 6 + ["put"] * 10 + ["putT"] * 4 + ["del", "delT", "delt", "bulk", "deltT", "bulkT", "headT"]
    big = [9000, 12000, 16384, 30000, 70000]
    c.replay("slow readers", 900, Starts=slow, Sizes=big + [3000, 4096, 1], AbortPct=3, Globals=["gc", "tick"], GlobalPct=5,
             Slow=8000, opts=dict(style="plain", sndbuf=4608, wcap=[0, 0, 1000, 5000], eagain=[0, 0, 3]), **keys(2))
    c.replay("slow readers, large", 200, NConn=4, Starts=slow, Sizes=[200000, 300000, 5000], Slow=150000, AbortPct=3,
             opts=dict(style="plain", sndbuf=4608), **keys(2))
    c.replay("blocks reused", 900, NConn=4, NTab=1, Starts=["getT"] * 6 + ["put"] * 10 + ["del"] * 3 + ["delT", "headT", "delt", "putT"],
             Sizes=[4096, 4000, 10], AbortPct=3, Depth=50, opts=dict(style="plain", lazy=[0, 70], sndbuf=0), **keys(3))
    c.replay("replies left in the socket", 600, NConn=4, NTab=1, Starts=["get"] * 8 + ["put"] * 10 + ["del"] * 3 + ["delt", "putT", "delT"], Slow=1000000000,
             Sizes=[4096, 4000, 10, 4097, 20000], AbortPct=3, Depth=50, opts=dict(style="plain", lazy=70, sndbuf=0), **keys(3))
    c.replay("expiry and eviction", 500, NConn=4, Starts=slow, Sizes=[9000, 4096, 10, 30000], Ttls=[0, 1, 2], MaxSize=40000, ClearNum=1, ClearDen=2,
             Globals=["gc", "tick", "gc"], GlobalPct=15, AbortPct=3, opts=dict(style="plain", lazy=[0, 50]), **keys(3))
    c.replay("asan", 350, kind="asan", NConn=4, Starts=slow, Sizes=[9000, 4096, 10, 30000], Globals=["gc", "tick"], GlobalPct=5,
             opts=dict(style="plain"), **keys(2))


@plan("C04", ["status", "value", "ack", "deleted", "bulk", "list"])
def c04(c):
    c.model("two writers, deletes", MaxUp=3, Sizes={0, 2}, Glob=set())
    c.model("three connections", NConn=3, MaxUp=2, Ops={"putT", "getT", "delT"}, Glob=set())
    up = ["putT"] * 10 + ["put"] * 4 + ["get"] * 8 + ["del", "delt", "delT", "deltT", "getT", "bulk", "list", "bulkT"]
    sizes = [1, 2, 300, 4096, 4097, 16384, 40000, 0]
    c.replay("uploads meet", 900, NTab=1, Starts=up, Sizes=sizes, AbortPct=10, opts=dict(style="plain"), **keys(1))
    c.replay("uploads meet, two keys", 700, NConn=4, Starts=up, Sizes=sizes, AbortPct=10, opts=dict(style=["plain", "mix"], noise=[False, True]), **keys(2))
    c.replay("uploads and restarts", 250, Starts=up, Sizes=sizes, AbortPct=5, Globals=["restart", "gc", "sig", "restart", "crash"], GlobalPct=8,
             opts=dict(style="plain"), **keys(2))
    c.replay("uploads and collections", 300, Starts=up, Sizes=[5, 3000, 4097, 9000], AbortPct=5, Globals=["gc"], GlobalPct=15, MaxSize=8000,
             opts=dict(style="plain"), **keys(3))
    c.replay("asan", 350, kind="asan", NConn=4, Starts=up, Sizes=sizes, AbortPct=10, opts=dict(style="plain"), **keys(2))


@plan("C05", ["status", "deleted", "bulk", "list", "tables", "keys", "dels"])
def c05(c):
    c.model("deletes in flight", MaxUp=3, Sizes={2}, Glob=set())
    c.model("two tables", NTab=2, MaxUp=2, Ops={"putT", "getT", "delT", "deltT"}, Glob=set())
    d = ["put"] * 8 + ["putT"] * 3 + ["del"] * 3 + ["delT"] * 3 + ["delt", "delt", "deltT", "deltT", "bulk", "bulk", "bulkT", "bulkT", "get", "getT", "list"]
    sizes = [1, 4096, 4097, 9000]
    c.replay("deletes", 900, Starts=d, Sizes=sizes, opts=dict(style=["plain", "mix"], noise=[False, True]), **keys(4))
    c.replay("few keys, in flight", 900, NConn=4, NTab=1, Starts=[x for x in d if x.endswith("T")] * 2 + d, Sizes=sizes, AbortPct=10,
             opts=dict(style="plain"), **keys(2))
    c.replay("many keys", 40, n_thorough=300, NConn=2, NTab=2, Starts=["fill", "fill", "unfill", "scan", "delt", "delt", "get", "del", "bulk", "list", "put", "deltT", "putT"],
             Sizes=[1], ManySizes=[1, 4096, 4097], Depth=25, inv=False, extra=40000, opts=dict(style="plain", frag="whole"), **keys(160))
    c.replay("asan", 350, kind="asan", NConn=4, Starts=d, Sizes=sizes, AbortPct=10, opts=dict(style="plain"), **keys(2))
    ps = colliding()
    if ps:
        c.replay("colliding", 300, NTab=3, NKey=4, Hash=[1, 2, 3, 3], Starts=d, Sizes=sizes, opts=dict(style="plain", colliding=ps, table_coll=ps))


@plan("C06", ["list"])
def c06(c):
    c.model("listing in flight", MaxUp=3, Sizes={2}, Ops={"putT", "listT", "delT", "deltT"}, Glob=set())
    l = ["put"] * 8 + ["putT", "del", "del", "bulk", "delt", "list", "list", "list", "listT", "listT", "pages", "pages", "pages", "getT"]
    c.replay("listings", 900, Starts=l, Sizes=[1, 4097], PageSizes=[1, 2, 3, 5, 7], opts=dict(style=["mix", "odd", "plain", "long"], noise=[False, True]), **keys(8))
    c.replay("many keys", 60, n_thorough=400, NConn=2, NTab=1, Starts=["fill", "fill", "unfill", "delt", "del", "list", "list", "pages", "pages", "put", "listT"],
             Sizes=[1], ManySizes=[1], PageSizes=[1, 7, 50, 100, 500], Depth=30, inv=False, extra=40000, opts=dict(style=["plain", "long"], frag="whole", sndbuf=[0, 4608]),
             **keys(200))
    c.replay("hundreds of keys", 24, n_thorough=200, NConn=2, NTab=1, Starts=["fill", "fill", "fill", "unfill", "list", "list", "pages", "listT"],
             Sizes=[1], ManySizes=[1], PageSizes=[60, 256, 257, 1000], Pre=450, PreSize=1, Depth=12, inv=False, extra=40000, opts=dict(style=["plain", "long"], frag="whole"), **keys(700))
    c.replay("more keys than a listing has by default", 1, n_thorough=4, NConn=2, NTab=1, Starts=["list", "list", "pages"], Sizes=[1],
             ManySizes=[1], PageSizes=[9999, 10001], Pre=10020, PreSize=1, Depth=6, Globals=[], AbortPct=0, inv=False, extra=4000000, opts=dict(style="plain", frag="whole"), **keys(10021))
    if sut.scalable("DEFAULT_LISTING_LIMIT"):
        c.replay("default limit of 3", 200, defs="-DDEFAULT_LISTING_LIMIT=3", Starts=l, Sizes=[1, 4097], PageSizes=[1, 2, 3, 4, 5, 7], opts=dict(limit=3, style=["plain", "mix"]), **keys(8))
    ps = colliding()
    if ps:
        c.replay("colliding", 300, NTab=3, NKey=4, Hash=[1, 2, 3, 3], Starts=l, Sizes=[1], opts=dict(style="plain", colliding=ps, table_coll=ps))
    c.replay("expiring", 250, Starts=l, Sizes=[1], Ttls=[0, 1, 2], Globals=["tick", "gc"], GlobalPct=15, opts=dict(style="plain"), **keys(6))
    c.replay("asan", 250, kind="asan", Starts=l, Sizes=[1, 4097], PageSizes=[1, 2, 3, 5, 7], opts=dict(style=["mix", "long"]), **keys(8))
    c.replay("short writes", 250, Starts=l, Sizes=[1], opts=dict(style="long", wcap=[1, 7, 100, 1000], eagain=[0, 2, 3]), **keys(8))
    c.replay("restarts", 100, Starts=l, Sizes=[1, 4097], Globals=["restart"], GlobalPct=8, opts=dict(style="mix"), **keys(8))


@plan("C07", ["status", "ttl", "keys", "bytes"])
def c07(c):
    c.model("time", NConn=1, NKey=2, Hash=[1, 2], Sizes={2}, Ttls={0, 1, 2}, MaxNow=4, MaxUp=3, Ops={"putT", "getT"}, Glob={"tick", "gc"})
    c.model("time, restarts", NConn=1, NKey=1, Hash=[1], Sizes={2, 5}, Ttls={0, 1}, MaxNow=3, MaxUp=3, Ops={"putT", "getT", "delT"},
            Glob={"tick", "gc", "restart", "crash"})
    w = ["put"] * 8 + ["get"] * 8 + ["head"] * 3 + ["putT", "putT", "getT", "headT", "delT", "del", "delt", "list", "bulkT"]
    ttls = [0, 1, 1, 2, 3, 4, 10]
    c.replay("ttl", 1200, NTab=2, Starts=w, Sizes=[1, 4096, 4097], Ttls=ttls, Ticks=[1, 1, 1, 2, 3], Globals=["tick"] * 4 + ["gc", "sig"], GlobalPct=25,
             Depth=50, opts=dict(style=["plain", "mix"], noise=[False, True]), **keys(3))
    c.replay("large ttl", 300, NTab=1, Starts=w, Sizes=[1, 4097], Ttls=[0, 60, 86400, 2000000000, 2147483647 - 10000000, 100000000, 357483647, 357483648, 59, 61],
             Ticks=[1, 58, 60, 86399, 86400, 100000], Globals=["tick"] * 4 + ["gc"] * 2 + ["restart"], GlobalPct=25, opts=dict(style="plain"), **keys(2))
    c.replay("ttl, restarts", 250, Starts=w, Sizes=[1, 4096, 4097], Ttls=ttls, Globals=["tick", "tick", "restart", "gc", "crash"], GlobalPct=25,
             opts=dict(style="plain"), **keys(3))
    c.replay("ttl, many keys", 40, NConn=2, NTab=2, Starts=["fill", "scan", "put", "put", "get", "head", "del", "delt", "list"], Sizes=[1], Ttls=[1, 2, 3, 0], ManySizes=[1],
             Globals=["tick", "gc"], GlobalPct=25, inv=False, extra=40000, opts=dict(style="plain", frag="whole"), **keys(60))
    ps = colliding()
    if ps:
        c.replay("colliding", 250, NTab=2, NKey=4, Hash=[1, 2, 3, 3], Starts=w, Sizes=[1, 4097], Ttls=[0, 1, 2, 3], Globals=["tick", "tick", "gc"],
                 GlobalPct=25, opts=dict(style="plain", colliding=ps, table_coll=ps))
    c.replay("asan", 250, kind="asan", Starts=w, Sizes=[1, 4096, 4097], Ttls=ttls, Globals=["tick"] * 3 + ["gc"], GlobalPct=25, opts=dict(style="plain"), **keys(2))


@plan("C08", ["status", "keys", "bytes", "value"])
def c08(c):
    c.model("eviction", NKey=2, Hash=[1, 2], Sizes={2, 3}, MaxSize=4, MaxUp=3, Ops={"putT", "getT"}, Glob={"gc"})
    c.model("eviction, three keys", NConn=1, NKey=3, Hash=[1, 2, 3], Sizes={1, 2}, Slow=9, MaxSize=3, MaxUp=4, Ops={"putT", "getT"}, Glob={"gc"})
    w = ["put"] * 10 + ["get"] * 6 + ["head"] * 2 + ["putT", "putT", "getT", "headT", "del", "delt", "delT"]
    for i, (num, den) in enumerate(((1, 4), (0, 1), (1, 2), (1, 1), (1, 10))):
        c.replay("lru %d%%" % (100 * num // den), 300, NTab=2, Starts=w, Sizes=[1, 100, 1000, 3000, 4096, 4097, 9000], MaxSize=[10000, 5000, 20000, 9000, 12345][i], ClearNum=num, ClearDen=den,
                 Globals=["gc"] * 3 + ["tick"], GlobalPct=12, Depth=60, Ttls=[0, 0, 0, 0, 2], opts=dict(style="plain", sndbuf=[0, 4608], frag=["whole", "mix"]), **keys(6))
    for m, cn, cd in ((1000006, 0, 1), (500004, 1, 4)):
        c.replay("beyond %d GB" % (m >> 18), 120, NConn=5, NTab=2, Starts=["put"] * 6 + ["putT"] * 6 + ["get", "head", "list"], Sizes=[1, 1, 2, 3, 500000, 500000, 500001, 520000], Huge=1000,
                 MaxSize=m, ClearNum=cn, ClearDen=cd, BlockMax=1, Globals=["gc"] * 8 + ["restart"], GlobalPct=20, AbortPct=10, Ttls=[0], opts=dict(style="plain", unit=4096), **keys(5))
    c.replay("own collections", 400, defs="-DDB_LRU_EVERY=3", GcEvery=3, NTab=2, Starts=w, Sizes=[1, 100, 1000, 3000, 4096, 4097, 9000], MaxSize=12000,
             Globals=["tick"], GlobalPct=3, Ttls=[0, 0, 0, 2], opts=dict(style="plain"), **keys(6))
    c.replay("stock interval", 40, n_thorough=400, NConn=2, NTab=1, Starts=["fill", "fill", "scan", "get", "get", "put", "head", "del"], Sizes=[50, 200, 1000], ManySizes=[100, 300], MaxSize=3000,
             inv=False, extra=40000, Depth=30, opts=dict(style="plain", frag="whole"), **keys(80))
    # the order of use is not saved: a collection evicts what was not used since a start, or nothing of it
    c.replay("starts", 300, NConn=2, NTab=1, Starts=["get"] * 14 + w, Sizes=[100, 1000, 3000, 4096, 4097, 9000], MaxSize=16000, ClearNum=1, ClearDen=4,
             Globals=["gc", "gc", "restart", "crash"], GlobalPct=14, Depth=60, opts=dict(style="plain", frag="whole"), **keys(5))
    c.replay("starts, everything evicted", 150, NConn=2, NTab=2, Starts=w, Sizes=[100, 3000, 4096, 4097, 9000], MaxSize=12000, ClearNum=1, ClearDen=1,
             Globals=["gc", "gc", "restart", "crash"], GlobalPct=14, Depth=50, opts=dict(style="plain"), **keys(6))
    c.replay("no limit", 100, NTab=1, Starts=w, Sizes=[4097, 9000], MaxSize=0, Globals=["gc"], GlobalPct=12, opts=dict(style="plain"), **keys(6))
    c.replay("debug build", 150, kind="dbgasan", GcEvery=1, NTab=2, Starts=w, Sizes=[1, 1000, 4096, 4097, 9000], MaxSize=10000, opts=dict(style="plain"), **keys(5))
    c.replay("slow readers", 200, kind="asan", NTab=2, Starts=w + ["get"] * 5, Sizes=[100, 4096, 9000, 12000], MaxSize=30000, Globals=["gc"], GlobalPct=12,
             opts=dict(style="plain"), **keys(5))


@plan("C09", sorted(__import__("replay").COUNTERS | __import__("replay").DISK | {"stats", "memory"}))
def c09(c):
    c.model("accounting", MaxUp=3, Sizes={0, 2})
    c.model("blocks and files", Sizes={2, 5}, Ops={"putT", "getT", "delT", "deltT"}, Glob=set(), MaxUp=3)
    c.model("eviction", NKey=2, Hash=[1, 2], Sizes={2, 3}, MaxSize=4, MaxUp=3, Ops={"putT", "getT"}, Glob={"gc"})
    sizes = [1, 10, 4096, 4097, 16384, 70000, 0]
    c.replay("stepwise", 1200, Starts=STEPWISE, Sizes=sizes, AbortPct=12, Globals=["gc", "tick"], Ttls=[0, 0, 1, 2], opts=dict(style=["plain", "mix"]), **keys(3))
    c.replay("few keys", 700, NConn=4, NTab=1, Starts=STEPWISE, Sizes=[1, 4096, 4097, 9000], AbortPct=15, opts=dict(style="plain"), **keys(1))
    c.replay("eviction", 300, NTab=2, Starts=STEPWISE, Sizes=[1, 3000, 4096, 4097, 9000], MaxSize=12000, Globals=["gc", "tick"], GlobalPct=15, Ttls=[0, 0, 1, 2],
             opts=dict(style="plain"), **keys(4))
    c.replay("many keys", 40, n_thorough=300, NConn=2, NTab=1, Starts=["fill", "unfill", "fill", "unfill", "delt", "get", "putT", "getT", "list"], Sizes=[1, 4097], ManySizes=[1, 4096],
             inv=False, extra=40000, Depth=30, opts=dict(style="plain", frag="whole"), **keys(420))
    c.replay("restarts", 150, Starts=STEPWISE, Sizes=sizes, Globals=["restart", "gc", "restart", "tick"], GlobalPct=10, Ttls=[0, 0, 1, 2], opts=dict(style="plain"), **keys(3))
    c.replay("beyond 4 GB", 120, NConn=6, NTab=2, Starts=["put"] * 3 + ["putT"] * 8 + ["get", "del", "delt"], Sizes=[1, 2, 3, 500000, 500001, 520000], Huge=1000, BlockMax=1,
             Globals=["gc", "restart"], GlobalPct=4, AbortPct=10, opts=dict(style="plain", unit=4096), **keys(4))
    ps = colliding()
    if ps:
        c.replay("colliding", 300, NTab=3, NKey=4, Hash=[1, 2, 3, 3], Starts=STEPWISE, Sizes=sizes, opts=dict(style="plain", colliding=ps, table_coll=ps))
    if sut.scalable("BLOCK_MAX_LOAD"):
        c.replay("starts without an index", 200, defs="-DBLOCK_MAX_LOAD=2", Starts=STEPWISE, Sizes=[1, 4096, 4097, 10], Globals=["crash", "crash", "crash", "restart", "gc"], GlobalPct=6, Depth=60,
                 opts=dict(style="plain"), **keys(8))
    m = dict(leaks=True, end="term", frag=["mix", "whole", "cut"])
    c.replay("memory", 200, kind="asan", Starts=STEPWISE, Sizes=sizes, AbortPct=12, Globals=["gc", "tick", "restart"], GlobalPct=6, Ttls=[0, 0, 1, 2], Depth=60,
             opts=dict(m, style=["plain", "mix"]), **keys(3))
    c.replay("memory, stops and bad requests", 100, kind="asan", Starts=STEPWISE + ["bad"] * 5 + ["pages"] * 2, Sizes=sizes, AbortPct=12, Globals=["restart"], GlobalPct=5, Depth=50,
             opts=dict(m, style=["plain", "long"], hot=True, sig="mix", noise=[False, True]), **keys(3))
    c.replay("memory, pipelined", 60, kind="asan", NConn=2, Starts=["put"] * 6 + ["get"] * 5 + ["head", "del", "bulk", "delt", "list", "bad"], Sizes=sizes, Globals=["restart"], GlobalPct=3,
             AbortPct=0, opts=dict(m, batch=True, style="plain", wcap=[0, 10, 1000], eagain=[0, 2]), **keys(3))
    c.replay("memory, failing store", 100, kind="asan", Starts=STEPWISE, Sizes=[1, 4096, 4097, 9000, 40000, 0], FailPct=25, AbortPct=8, Globals=["break", "heal", "heal", "gc"], GlobalPct=8, Depth=50,
             opts=dict(m, style="plain", wpart=[0, 0, 1000]), **keys(2))
    c.replay("memory, eviction and expiry", 100, kind="asan", NTab=2, Starts=STEPWISE, Sizes=[1, 3000, 4096, 4097, 9000], MaxSize=12000, Globals=["gc", "tick", "tick", "restart"], GlobalPct=15,
             Ttls=[0, 0, 1, 2], Depth=60, opts=dict(m, style="plain"), **keys(4))
    if ps:
        c.replay("memory, colliding", 60, kind="asan", NTab=3, NKey=4, Hash=[1, 2, 3, 3], Starts=STEPWISE, Sizes=[1, 4096, 4097], Globals=["restart", "gc"], GlobalPct=5, Depth=50,
                 opts=dict(m, style="plain", colliding=ps, table_coll=ps))
    any_bytes(c, "memory, any bytes", 60, kind="asan", defs="-DBUFFER_SIZE=512", buffer=512, long=True)
    c.generated("memory, monitoring", "mon:case", "mon:generate", 30, dict(kind="asan", defs=""), builds=[("asan", "")], per=15)
    c.replay("debug build", 200, kind="dbgasan", GcEvery=1, Starts=STEPWISE, Sizes=[1, 4096, 4097, 0], AbortPct=12, Ttls=[0, 0, 1], Globals=["tick"], opts=dict(style="plain"), **keys(2))


WIRE = ["http", "list", "keys", "tables", "bytes", "bused", "ins", "dels", "gets", "fds"]


def any_bytes(c, name, n, kind="rel", defs="", per=40, **kw):
    """Behaviours of the specification of the protocol byte by byte."""
    c.generated(name, "wire:case", "wire:generate", n, dict(kind=kind, defs=defs, **kw), builds=[(kind, defs)], per=per)


def http_model(c, *shapes):
    for conns, tokens, odd in shapes:
        c.model("any bytes, %d connections" % conns, module="MCHttp", base=wire.model(conns, tokens, odd), cfg=wire.MODEL_CFG)


BYTES = ["status", "value", "ttl", "deleted", "bulk", "ack", "bad", "stats", "list", "keys", "bytes", "tables"]


@plan("C10", BYTES + WIRE)
def c10(c):
    c.model("requests in pieces", MaxUp=3, Sizes={0, 2}, Glob=set())
    http_model(c, (1, 8, 1))
    any_bytes(c, "any bytes", 250, odd=4, mut=2, frag="bytes")
    any_bytes(c, "any bytes, small buffer", 250, defs="-DBUFFER_SIZE=512", buffer=512, long=True)
    sizes = [1, 10, 100, 511, 512, 513, 4096, 5000, 0]
    w = STEPWISE + ["pages"]
    c.replay("cut anywhere", 700, Starts=w, Sizes=sizes, opts=dict(style=["mix", "odd", "long"], frag=["cut", "mix", "bytes"], lf=[False, True], noise=[False, True]), **keys(3))
    c.replay("byte by byte", 300, Starts=w, Sizes=[1, 10, 100, 0], opts=dict(style=["plain", "odd"], frag="bytes", lf=True, noise=True), **keys(3))
    for n in (512, 256):
        c.replay("buffer of %d" % n, 500, defs="-DBUFFER_SIZE=%d" % n, Starts=w, Sizes=sizes + [n - 1, n, n + 1, 2 * n],
                 opts=dict(style=["plain", "prefix"], frag=["whole", "cut", "mix", "bytes"], lf=[False, True], noise="short", rcap=[0, 0, 1, 100, n - 1]), **keys(3))
        c.replay("buffer of %d, pipelined" % n, 400, defs="-DBUFFER_SIZE=%d" % n, NConn=2, Starts=[x for x in w if not x.endswith("T")], Sizes=sizes + [n - 1, n, n + 1, 2 * n],
                 Globals=[], AbortPct=0, opts=dict(batch=True, style="plain", frag=["whole", "cut", "mix"], lf=[False, True], noise="short"), **keys(3))
    c.replay("pipelined, cut", 400, NConn=2, Starts=[x for x in w if not x.endswith("T")], Sizes=sizes + [16383, 16384, 16385, 40000], Globals=[], AbortPct=0,
             opts=dict(batch=True, style=["plain", "mix"], frag=["cut", "mix", "bytes"], lf=[False, True], noise=[False, True]), **keys(3))
    c.replay("several listeners, also TCP", 150, Starts=w, Sizes=sizes + [16384, 40000], opts=dict(style="plain", frag=["cut", "mix", "whole"], listeners=["t", "ut", "tt"]), **keys(3))
    c.replay("asan", 300, kind="asan", defs="-DBUFFER_SIZE=512", Starts=w, Sizes=sizes, opts=dict(style="plain", frag=["cut", "mix"], lf=[False, True], noise="short"), **keys(3))


@plan("C11", BYTES)
def c11(c):
    c.model("effects in order", MaxUp=3, Sizes={0, 2}, Glob=set())
    w = ["put"] * 8 + ["get"] * 6 + ["head", "head", "del", "del", "bulk", "delt", "list"]
    sizes = [1, 10, 4096, 4097, 16384, 0]
    for name, kind, n in (("pipelined", "rel", 900), ("pipelined, asan", "asan", 200)):
        c.replay(name, n, kind=kind, NConn=2, Starts=w, Sizes=sizes, Globals=["tick", "gc"], GlobalPct=2, AbortPct=0, Depth=60,
                 opts=dict(batch=True, half=[False, True], style=["plain", "mix"], frag=["whole", "whole", "cut", "mix"], noise=[False, True], lf=[False, True]), **keys(3))
    c.replay("long pipelines", 300, NConn=1, NTab=1, Starts=["get"] * 12 + ["put"] * 3 + ["head"] * 3 + ["del"], Sizes=[100, 4097, 30000], Globals=[], AbortPct=0, Depth=80,
             opts=dict(batch=True, half=[False, True], style="plain", frag=["whole", "cut"], sndbuf=[4608, 0], wcap=[0, 0, 1000]), **keys(3))
    c.replay("one by one", 300, NConn=4, Starts=w + STEPWISE, Sizes=sizes, opts=dict(style="plain"), **keys(3))
    c.replay("short writes", 300, NConn=2, Starts=w, Sizes=[1, 10, 4096, 4097, 9000], Globals=[], AbortPct=0,
             opts=dict(batch=True, half=[False, True], style="plain", wcap=[1, 10, 100, 1000], eagain=[0, 2, 5]), **keys(3))
    c.replay("several listeners, also TCP", 100, NConn=2, Starts=w[:-1], Sizes=sizes, Globals=[], AbortPct=0, opts=dict(batch=True, style="plain", listeners=["t", "ut", "tt"]), **keys(3))
    c.replay("bad among them", 300, NConn=2, Starts=w + ["bad"] * 3, Sizes=sizes, Globals=[], AbortPct=0,
             opts=dict(batch=True, half=[False, True], style="plain"), **keys(3))


@plan("C12", ["status", "value", "ttl", "list", "keys", "bytes", "tables", "bused", "files", "fbytes", "deleted", "ack", "bulk"])
def c12(c):
    c.model("restarts", NConn=1, NKey=2, Hash=[1, 2], Sizes={2, 5}, Ttls={0, 1}, MaxNow=2, MaxUp=3, Ops={"putT", "getT"}, Glob={"tick", "restart"})
    w = ["put"] * 8 + ["putT"] * 3 + ["get"] * 6 + ["head", "del", "del", "bulk", "delt", "list", "list", "delT", "getT", "pages"]
    sizes = [1, 10, 4095, 4096, 4097, 16384, 40000]
    c.replay("restarts", 500, Starts=w, Sizes=sizes, Globals=["restart"] * 3 + ["gc", "tick"], GlobalPct=12, Ttls=[0, 0, 0, 2, 9], Depth=60,
             opts=dict(style=["plain", "prefix", "odd", "mix"], end="term"), **keys(4))
    c.replay("long and odd names", 300, NTab=3, Starts=w, Sizes=[1, 4097], Globals=["restart"] * 3 + ["gc"], GlobalPct=12,
             opts=dict(style=["long", "odd", "odd"], end="term"), **keys(4))
    c.replay("odd and empty names", 200, NTab=3, Starts=["put"] * 8 + ["putT"] * 3 + ["get"] * 6 + ["head", "del", "delT", "getT"], Sizes=[1, 4096, 4097],
             Globals=["restart"] * 3 + ["gc"], GlobalPct=12, opts=dict(style="odd", end="term"), **keys(4))
    ps = colliding()
    if ps:
        c.replay("colliding", 300, NTab=3, NKey=4, Hash=[1, 2, 3, 3], Starts=w, Sizes=[1, 4096, 4097], Globals=["restart"] * 3 + ["gc"], GlobalPct=12,
                 opts=dict(style="plain", colliding=ps, table_coll=ps))
    c.replay("many keys", 30, NConn=2, NTab=1, Starts=["fill", "fill", "unfill", "scan", "scan", "put", "del", "list"], Sizes=[1, 4097], ManySizes=[1, 4096, 4097],
             Globals=["restart"], GlobalPct=15, inv=False, extra=40000, Depth=25, opts=dict(style="plain", frag="whole"), **keys(150))
    if sut.scalable("BLOCK_LENGTH"):
        c.replay("a large block file", 16, n_thorough=100, NConn=2, NTab=1, Starts=["put"] * 3 + ["get"] * 6 + ["del", "list"], Sizes=[1, 5000, 70000], Pre=330, PreSize=9,
                 Globals=["restart", "gc"], GlobalPct=15, inv=False, extra=40000, Depth=40, BlockMax=BIG, defs="-DBLOCK_LENGTH=%d" % BIG,
                 opts=dict(style="plain", frag="whole", stack=1 << 26), **keys(332))
    c.replay("names of the directory", 100, Starts=w, Sizes=[1, 4096, 4097, 9000], Globals=["restart"] * 3 + ["gc"], GlobalPct=15,
             opts=dict(style="plain", end="term", dbname=["./db", "my db", "it's", "$d", 'a "b"', "d&d", "-db", "*", "d" * 100, "d#", "dé", "./a b", "x\\y"]), **keys(3))
    c.replay("limited size", 150, Starts=w, Sizes=[1, 3000, 4096, 4097], MaxSize=9000, Globals=["restart", "restart"], GlobalPct=10,
             opts=dict(style="plain"), **keys(4))
    c.replay("asan", 200, kind="asan", Starts=w, Sizes=sizes, Globals=["restart"] * 3 + ["gc"], GlobalPct=12, opts=dict(style=["plain", "odd", "long"], end="term"), **keys(4))


@plan("C19", ["status", "value", "ttl", "deleted", "bulk", "ack", "bad", "list", "stats"])
def c19(c):
    c.model("replies", MaxUp=2, Sizes={0, 2})
    w = STEPWISE + ["pages", "bad", "get", "get"]
    sizes = [1, 10, 300, 4096, 4097, 9000]
    c.replay("tiny writes", 500, Starts=w, Sizes=[1, 10, 300, 4096, 4097], opts=dict(style=["plain", "mix"], wcap=[1, 2, 3, 7, 13, 50], eagain=[0, 2, 3, 7]), **keys(3))
    c.replay("short writes", 700, Starts=w, Sizes=sizes + [16384, 40000, 70000], opts=dict(style=["plain", "long"], wcap=[100, 200, 500, 1000, 4095, 4096, 5000], eagain=[0, 2, 3, 7],
             sndbuf=[0, 4608]), **keys(4))
    c.replay("small socket buffer", 500, Starts=w, Sizes=sizes + [16384, 40000, 300000], opts=dict(style=["plain", "long"], sndbuf=[2304, 4608, 9216]), Slow=1500, **keys(4))
    c.replay("several listeners, also TCP", 150, Starts=[x for x in w if x != "bad"], Sizes=sizes + [40000, 300000], opts=dict(style="plain", wcap=[0, 0, 100, 1000, 5000], sndbuf=[0, 4608], listeners=["t", "ut", "tt"]),
             Slow=1500, **keys(3))
    c.replay("pipelined", 300, NConn=2, Starts=["put", "put", "get", "get", "get", "head", "del", "list", "bulk", "bad"], Sizes=sizes, Globals=[], AbortPct=0,
             opts=dict(batch=True, style="plain", wcap=[1, 5, 100, 1000], eagain=[0, 2, 3]), **keys(3))
    c.replay("asan", 250, kind="asan", Starts=w, Sizes=sizes, opts=dict(style=["plain", "long"], wcap=[1, 10, 100, 1000], eagain=[0, 2, 3]), **keys(3))


SAVED = ["put"] * 8 + ["putT"] * 4 + ["get"] * 6 + ["head", "del", "del", "bulk", "delt", "list", "delT", "getT", "deltT"]
AFTER = ["status", "value", "ttl", "list", "keys", "bytes", "tables", "bused", "deleted", "ack", "bulk"]


def save_model(c, **kw):
    """Saving and loading, one file operation at a time."""
    c.model("files of a save %s" % kw, module="Save", base=dict(Keys={1, 2}, Blocks={1, 2}, Slip=""), cfg="SPECIFICATION Spec\nINVARIANT Inv\nCHECK_DEADLOCK FALSE\n", **kw)


@plan("C14", AFTER + ["children"])
def c14(c):
    c.model("saves take a while", "Stable Found Precise Frozen Once Cut CrashOk CrashAnywhere FailSafe", NConn=1, NKey=2, Hash=[1, 2], Sizes={2, 5}, MaxUp=3,
            Ops={"putT", "delT", "deltT"}, Glob={"gc", "flush", "restart", "crash"}, Hold=True)
    save_model(c, MaxUp=3, MaxSaves=2, MaxCrash=0, MaxFail=0)
    sizes = [1, 10, 4095, 4096, 4097, 9000]
    g = ["gc", "gc", "flush", "flush", "crash"]
    c.replay("held saves", 700, Starts=SAVED, Sizes=sizes, Globals=g, GlobalPct=18, Hold=True, Depth=60, opts=dict(style="plain"), **keys(4))
    c.replay("held saves, few keys", 700, NConn=4, NTab=1, Starts=SAVED, Sizes=[5, 4096, 4097], Globals=g, GlobalPct=20, Hold=True, Depth=60, AbortPct=10,
             opts=dict(style="plain"), **keys(2))
    c.replay("with stops", 400, Starts=SAVED, Sizes=sizes, Globals=g + ["restart"], GlobalPct=20, Hold=True, Depth=60,
             opts=dict(style=["plain", "mix"], hot=True, sig="mix"), **keys(4))
    c.replay("failing saves", 300, Starts=SAVED, Sizes=sizes, Globals=g + ["gcF", "flushF"], GlobalPct=20, Hold=True, Depth=60, opts=dict(style="plain"), **keys(4))
    c.replay("expiry and eviction", 300, Starts=SAVED, Sizes=sizes, Globals=g + ["tick", "tick"], GlobalPct=22, Ttls=[0, 0, 1, 2], MaxSize=20000, Hold=True, Depth=60,
             opts=dict(style="plain"), **keys(4))
    c.replay("asan", 250, kind="asan", Starts=SAVED, Sizes=sizes, Globals=g, GlobalPct=18, Hold=True, Depth=60, opts=dict(style="plain"), **keys(4))
    c.replay("signals", 300, Starts=SAVED, Sizes=sizes + [30000], Globals=["gc", "sig", "tick"], GlobalPct=15, Depth=60,
             opts=dict(style=["plain", "mix"], sigs=[1, 2, 3, 7], eagain=[0, 2, 3], wcap=[0, 100, 1000], sndbuf=[0, 4608]), **keys(4))
    c.replay("signals, held saves", 200, Starts=SAVED, Sizes=sizes, Globals=g + ["restart"], GlobalPct=20, Hold=True, Depth=60,
             opts=dict(style="plain", sigs=[1, 2, 3, 7], hot=[False, True]), **keys(4))
    c.replay("unheld saves", 200, Starts=SAVED, Sizes=sizes, Globals=["gc", "sig", "crash"], GlobalPct=20, Depth=60, opts=dict(style="plain"), **keys(4))


@plan("C20", AFTER + ["failed", "files", "fbytes"])
def c20(c):
    c.model("failing store", "Stable Found Precise Frozen Once Cut CrashOk CrashAnywhere FailSafe", NConn=2, NKey=1, Sizes={2, 5}, MaxUp=3, Ops={"putT", "getT", "delT"},
            Glob={"gc", "gcF", "restart", "restartF", "break", "heal"})
    save_model(c, MaxUp=2, MaxSaves=2, MaxCrash=1, MaxFail=2)
    sizes = [1, 10, 4095, 4096, 4097, 9000, 16384, 40000]
    w = ["put"] * 8 + ["putT"] * 8 + ["get"] * 8 + ["head", "del", "bulk", "delt", "list", "delT", "getT"]
    c.replay("writes fail", 700, Starts=w, Sizes=sizes, FailPct=25, AbortPct=3, opts=dict(style=["plain", "mix"], wpart=[0, 0, 100, 1000, 5000]), **keys(3))
    c.replay("writes fail, few keys", 500, NConn=4, NTab=1, Starts=w, Sizes=sizes, FailPct=30, AbortPct=3, opts=dict(style="plain", wpart=[0, 1, 7, 1000]), **keys(1))
    c.replay("short writes", 300, Starts=w, Sizes=sizes, opts=dict(style="plain", wpart=[1, 3, 100, 1000, 4095, 5000]), **keys(3))
    c.replay("full disk", 400, Starts=w, Sizes=sizes, Globals=["break", "heal", "heal", "gc"], GlobalPct=15, opts=dict(style="plain", wpart=[0, 0, 1000]), **keys(3))
    c.replay("failing saves", 400, Starts=w, Sizes=sizes, Globals=["gc", "gcF", "gcF", "restart", "restartF", "crash", "crash"], GlobalPct=20,
             opts=dict(style="plain", wpart=[0, 0, 1, 5]), **keys(3))
    c.replay("full disk, stops and crashes", 400, Starts=w, Sizes=sizes, Globals=["break", "heal", "gc", "restart", "crash"], GlobalPct=20, FailPct=5, Depth=60,
             opts=dict(style="plain"), **keys(3))
    c.replay("asan", 250, kind="asan", Starts=w, Sizes=sizes, FailPct=25, Globals=["break", "heal", "heal", "gc"], GlobalPct=10, opts=dict(style="plain", wpart=[0, 0, 1000]), **keys(2))


@plan("C13", ["crash"])
def c13(c):
    c.model("a crash after every step", "Stable Found Precise Frozen Once Cut CrashOk CrashAnywhere FailSafe", NConn=1, NKey=2, Hash=[1, 2], Sizes={2, 5}, MaxUp=3,
            Ops={"putT", "delT", "deltT"}, Glob={"gc", "restart", "crash"})
    save_model(c, MaxUp=3, MaxSaves=2, MaxCrash=1, MaxFail=1 if c.thorough else 0)
    save_model(c, MaxUp=2, MaxSaves=2, MaxCrash=2, MaxFail=1)
    for x, up, saves, fail in SAVE_SLIPS:
        c.refuted("save: " + x, "Save", "SPECIFICATION Spec\nINVARIANT Inv\nCHECK_DEADLOCK FALSE\n", Keys={1, 2}, Blocks={1, 2}, Slip=x, MaxUp=up, MaxSaves=saves, MaxCrash=1, MaxFail=fail)
    sizes = [9, 4096, 4097, 9000]
    w = ["put"] * 6 + ["putT"] * 4 + ["del", "del", "delt", "bulk", "delT"]
    base = dict(Outs=True, Starts=w, Sizes=sizes, AbortPct=3, **keys(3))
    c.replay("kill anywhere", 260, runner="crash:Crasher", Depth=16, Globals=["gc", "gc", "restart"], GlobalPct=22, opts=dict(style="plain", frag="whole"), **base)
    c.replay("kill while a save is held", 140, runner="crash:Crasher", Depth=18, Globals=["gc", "gc", "flush"], GlobalPct=25, Hold=True, opts=dict(style="plain", frag="whole"), **base)
    c.replay("files left over", 300, judged=AFTER, NTab=1, Globals=["gc", "crash", "crash"], GlobalPct=22, Depth=50, opts=dict(style="plain", frag="whole"),
             **dict(base, Starts=["put"] * 6 + ["putT"] * 6 + ["del", "get"], Sizes=[4097, 9000, 4097, 10], AbortPct=6))
    c.replay("files left over, numbers repeat", 100, judged=AFTER, NTab=1, Globals=["gc", "gc", "crash"], GlobalPct=35, Depth=40, opts=dict(style="plain", frag="whole", wrap=100),
             **dict(base, Starts=["put"] * 6 + ["del", "get"], Sizes=[4097, 9000, 7000, 4097, 10], AbortPct=0, **keys(2)))
    c.replay("several crashes", 120, runner="crash:Crasher", Depth=18, Globals=["gc", "gc", "crash"], GlobalPct=25, opts=dict(style="plain", frag="whole"), **base)
    c.replay("short writes, ttl", 100, runner="crash:Crasher", Depth=16, Globals=["gc", "tick", "restart"], GlobalPct=30, Ttls=[0, 0, 1, 2], opts=dict(style=["mix"], frag="whole", wpart=[0, 1000, 9, 4095]),
             **base)


@plan("C18", BYTES + ["buffer"])
def c18(c):
    for n, w, b in ((4, 8, {0, 1}), (4, 16, {0, 1}), (8, 16, {0})):
        c.model("buffer of %d, cursors modulo %d" % (n, w), module="RBuf", base={}, cfg="SPECIFICATION Spec\nINVARIANT Agree\nCHECK_DEADLOCK FALSE\n",
                B=n, W=w, Bytes=b, Digits=b, Starts=set(range(w)))
    for size, scale, n in ((8, 1, 200), (16, 1, 160), (64, 1, 80), (64, 256, 80)):
        for san, debug in ((True, False), (False, False), (True, True)):
            c.generated("buffer of %d%s%s" % (size * scale, ", asan" if san else "", ", debug" if debug else ""), "rbuf:case", "rbuf:generate", n,
                        dict(size=size, width=65536 // scale, scale=scale, depth=40, san=san, debug=debug))
    w = STEPWISE + ["pages"]
    sizes = [1, 10, 60, 64, 65, 200, 4096, 70000, 140000]
    for n in (64, 128, 256):
        c.replay("server, buffer of %d" % n, 300, defs="-DBUFFER_SIZE=%d" % n, Starts=w, Sizes=sizes,
                 opts=dict(style="short", frag=["whole", "cut", "mix"], lf=[False, True], rcap=[0, 0, 1, 7, n - 1]), **keys(3))
        c.replay("server, buffer of %d, pipelined" % n, 200, defs="-DBUFFER_SIZE=%d" % n, NConn=2, Starts=[x for x in w if not x.endswith("T")], Sizes=sizes,
                 Globals=[], AbortPct=0, opts=dict(batch=True, style="short", frag=["whole", "cut", "mix"], lf=[False, True], rcap=[0, 0, 1, 7, n - 1]), **keys(3))
    c.replay("server, stock buffer, wrapping", 200, NConn=2, Starts=["put"] * 6 + ["get", "del", "list", "bulk"], Sizes=[1, 10, 16383, 16384, 16385, 40000, 70000], Globals=[], AbortPct=0,
             Depth=60, opts=dict(batch=True, style="plain", frag=["whole", "cut", "mix"], noise=[False, True], rcap=[0, 1000, 16383]), **keys(3))


@plan("C16", WIRE + BYTES + ["bused", "files", "fbytes"])
def c16(c):
    http_model(c, (1, 9, 1), (2, 5, 1))
    c.model("aborted anywhere", MaxUp=3, Sizes={0, 2, 5}, Glob=set(), Ops={"putT", "getT", "delT", "deltT", "bulkT"})
    any_bytes(c, "bytes", 700, odd=6, mut=4)
    any_bytes(c, "mostly sensible bytes", 500, odd=1, mut=1, conns=3, depth=140)
    any_bytes(c, "garbage", 300, odd=35, mut=20, depth=80)
    any_bytes(c, "bytes, small buffer", 400, defs="-DBUFFER_SIZE=512", buffer=512, long=True, conns=3)
    any_bytes(c, "bytes, asan", 300, kind="asan", odd=6, mut=4, conns=3)
    any_bytes(c, "bytes, small buffer, asan", 200, kind="asan", defs="-DBUFFER_SIZE=512", buffer=512, long=True)
    any_bytes(c, "bytes, debug build", 250, kind="dbgasan", odd=6, mut=4, gc=1)
    w = STEPWISE + ["bad", "pages"]
    sizes = [1, 10, 4096, 4097, 16384, 70000, 0]
    c.replay("clients that go away", 500, NConn=4, Starts=w, Sizes=sizes, AbortPct=25, opts=dict(style=["plain", "mix"], tail=True, noise=[False, True], sndbuf=[0, 4608]), **keys(3))
    c.replay("clients that go away, slow", 250, NConn=4, Starts=["put"] * 4 + ["getT"] * 6 + ["listT"] * 2 + ["putT"] * 4 + ["bad"], Sizes=[9000, 20000, 70000, 4096], AbortPct=30,
             opts=dict(style="plain", tail=True, wcap=[0, 100, 1000], eagain=[0, 3]), **keys(2))
    for n in (1, 2):
        c.replay("%d event at a time" % n, 200, defs="-DNUM_EVENTS=%d -DNUM_EVENTS_ACCEPT=%d" % (n, n), NConn=5, Starts=w, Sizes=sizes, AbortPct=15,
                 opts=dict(style="plain", tail=True, few=True, lazy=[0, 50], noise=[False, True]), **keys(3))
    c.replay("clients that go away, several listeners", 150, NConn=4, Starts=STEPWISE + ["pages"], Sizes=sizes, AbortPct=20, opts=dict(style="plain", tail=True, listeners=["t", "ut", "tt"]), **keys(3))
    c.replay("more clients than descriptors", 150, NConn=3, Starts=w, Sizes=[1, 10, 4096], AbortPct=4, opts=dict(style="plain", crowd=6), **keys(3))
    c.replay("clients that go away, asan", 250, kind="asan", NConn=4, Starts=w, Sizes=sizes, AbortPct=25, opts=dict(style="plain", tail=True), **keys(2))


@plan("C17", AFTER + ["exit", "pid", "eof", "q", "children"])
def c17(c):
    c.model("stops at any moment", "Stable Found Precise Frozen Once Cut CrashOk CrashAnywhere FailSafe", MaxUp=3, Sizes={2, 5}, Ops={"putT", "getT", "delT", "deltT"},
            Glob={"gc", "flush", "restart"}, Hold=True)
    w = SAVED + ["getT", "get", "get", "list", "listT", "bulkT", "headT"]
    sizes = [1, 10, 4096, 4097, 9000, 30000]
    hot = dict(hot=True, sig="mix", end="term", group=True, pidfile=["", "pid", "leave"], streams=[0, 1, 3])
    c.replay("stops", 500, NConn=4, Starts=w, Sizes=sizes, Globals=["restart", "restart", "gc"], GlobalPct=15, Slow=1000000000, AbortPct=2, Depth=25,
             opts=dict(style=["plain", "mix"], lazy=[0, 50], sndbuf=0, **hot), **keys(3))
    c.replay("stops during saves", 400, NConn=4, Starts=w, Sizes=sizes, Globals=["gc", "gc", "restart", "flush"], GlobalPct=25, Hold=True, Depth=25,
             opts=dict(style="plain", **hot), **keys(3))
    c.replay("stops, slow readers", 200, NConn=4, Starts=["getT"] * 8 + ["put"] * 8 + ["listT"], Sizes=[9000, 30000, 200000], Slow=8000, Globals=["restart", "restart", "gc"],
             GlobalPct=12, AbortPct=2, Depth=30, opts=dict(style="plain", sndbuf=4608, wcap=[0, 1000], **hot), **keys(2))
    c.replay("stops, more clients than descriptors", 80, NConn=3, Starts=w, Sizes=[1, 10, 4096], Globals=["restart"], GlobalPct=8, Depth=30, opts=dict(style="plain", crowd=15, **hot), **keys(3))
    c.replay("stops, asan", 150, kind="asan", NConn=4, Starts=w, Sizes=sizes, Globals=["restart", "restart", "gc"], GlobalPct=15, Depth=25, opts=dict(style="plain", **hot), **keys(3))
    c.replay("stops, debug build", 120, kind="dbgasan", GcEvery=1, NConn=4, Starts=w, Sizes=sizes, Globals=["restart", "restart", "gc"], GlobalPct=15, Depth=25, opts=dict(style="plain", **hot), **keys(3))
    c.replay("stops, several listeners", 80, NConn=4, Starts=w, Sizes=sizes, Globals=["restart", "restart", "gc"], GlobalPct=12, Depth=25, opts=dict(style="plain", listeners=["t", "ut", "tt"], **hot), **keys(3))
    c.replay("stops of a daemon", 100, NConn=3, Starts=w, Sizes=sizes, Globals=["restart", "restart", "gc"], GlobalPct=12, Depth=20,
             opts=dict(style="plain", daemon=True, **dict(hot, pidfile=["pid", "pid", "leave"])), **keys(3))
    c.replay("stops, unhurried threads", 60, NConn=4, Starts=w, Sizes=sizes, Globals=["gc"], GlobalPct=10, Depth=15, opts=dict(style="plain", ewait=0, **hot), **keys(3))


@plan("C15", ["num", "mon", "q", "cache", "fds", "exit"])
def c15(c):
    cfg = "SPECIFICATION Spec\nINVARIANT Inv\nCHECK_DEADLOCK FALSE\n"
    c.model("the list", module="MonList", base={}, cfg=cfg, N=3, Period=3, MaxNow=9)
    c.model("two connections", module="MCMon", base={}, cfg=cfg, NStr=2, Period=2, Ticks={1}, MaxNow=5, MaxN=9)
    c.model("two connections, time jumps", module="MCMon", base={}, cfg=cfg, NStr=2, Period=2, Ticks={1, 2, 5}, MaxNow=8, MaxN=8)

    def streams(name, n, kind="rel", defs="", **kw):
        c.generated(name, "mon:case", "mon:generate", n, dict(kind=kind, defs=defs, **kw), builds=[(kind, defs)], per=15)
    streams("streams", 200)
    streams("streams, short writes", 150, wcap=[1, 2, 3], eagain=[0, 2, 3])
    streams("many streams", 100, conns=8, block=15, depth=70, leave=25)
    streams("thirty streams", 30, conns=30, block=5, depth=140, cache=2, tick=30)
    streams("long streams", 40, conns=3, block=5, depth=250, tick=80, leave=3, ticks=(20, 20, 20, 20, 20, 10, 30))
    streams("other requests", 150, conn=10, leave=30)
    streams("streams, asan", 100, kind="asan", conns=5, block=30, wcap=[0, 1], leave=25)
    streams("streams, several listeners", 80, listeners=["t", "ut"])
    streams("streams, debug build", 80, kind="dbgasan", conns=4, block=30, conn=30, leave=25)
    streams("streams, small buffer", 60, kind="asan", defs="-DBUFFER_SIZE=1024", conns=4)


@plan("C21", ["listen"])
def c21(c):
    c.model("all lists of six tokens", module="Binds", base={}, cfg="SPECIFICATION Spec\nINVARIANT Right Stays\nCHECK_DEADLOCK FALSE\n", MaxLen=6)
    c.generated("lists", "binds:case", "binds:generate", 300, {}, builds=[("rel", "")], per=50)
    c.generated("lists, asan", "binds:case", "binds:generate", 100, {}, builds=[("asan", "")], per=50)
    c.generated("long lists", "binds:case", "binds:generate", 40, dict(items=20, bad=20), builds=[("rel", "")], per=40)
