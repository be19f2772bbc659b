"""Which explorations decide which property (quick and thorough)."""


class Run:
    def __init__(self, name, driver, args, v="def", kind="sim", env=(), tlq=120, tlt=900):
        self.name, self.driver, self.v, self.kind = name, driver, v, kind
        self.args = args.split() if isinstance(args, str) else list(args)
        self.env = list(env)
        self.tlq, self.tlt = tlq, tlt

    def targets(self):
        if self.kind == "sim":
            return [f"simrun-{self.v}", f"server-{self.v}.so", f"client-{self.v}-{self.driver}.so"]
        return [f"direct-{self.v}-{self.driver}"]

    def tl(self, tier):
        return self.tlq if tier == "quick" else self.tlt

    def cmd(self, out, tier, left):
        lim = [f"out={out}", f"tlimit={int(min(left, self.tl(tier)))}"]
        if self.kind == "sim":
            return [f"./simrun-{self.v}", f"./server-{self.v}.so", f"./client-{self.v}-{self.driver}.so"] + lim + \
                   [f"env:{e}" for e in self.env] + self.args
        return [f"./direct-{self.v}-{self.driver}"] + lim + self.args

    def what(self):
        return ("real client and server under the simulator, driver " if self.kind == "sim" else "component harness ") + self.driver + \
               {"asan": " (AddressSanitizer)", "nocache": " (built without the server cache)"}.get(self.v, "")


class Check:
    def __init__(self, quick, thorough=None):
        self.quick, self.thorough = quick, (thorough or quick)


CHECKS = {}
FAST = ["PDC_SERVER_CACHE_FLUSH_FREQUENCY_S=1"]
ALWAYS = ["PDC_SERVER_CACHE_FLUSH_FREQUENCY_S=0"]  # the flush thread flushes whenever it runs


def sim(name, driver, args, **k):
    k.setdefault("env", FAST)
    return Run(name, driver, args, **k)


def direct(name, driver, args="", v="asan", **k):
    return Run(name, driver, args, v=v, kind="direct", **k)


# ---------------------------------------------------------------------------------------------------- regions
PART = {0: "objstatic", 1: "regstatic", 2: "dynamic", 3: "local"}


def both(name, args_q, args_t=None, **k):
    q.append(sim(name, "region", args_q, **k))
    t.append(sim(name, "region", args_t or args_q, **k))


def mix(name, args_q, args_t=None, **k):
    """Objects of different dimensions, types, partitions and consistency used together."""
    q.append(sim(name, "mix", args_q, **k))
    t.append(sim(name, "mix", args_t or args_q, **k))


# C01 sequences of 1-D transfers by one client
q, t = [], []
for p in PART:
    both(f"1d-{PART[p]}", f"mode=seq nd=1 d0=3 part={p} ns=2 depth=3", f"mode=seq nd=1 d0=4 part={p} ns=2 depth=4")
    for u in (1, 8):
        both(f"1d-{PART[p]}-unit{u}", f"mode=seq nd=1 d0=3 unit={u} part={p} ns=2 depth=2", f"mode=seq nd=1 d0=4 unit={u} part={p} ns=3 depth=3")
both("1d-flush-deep", "mode=seq nd=1 d0=2 part=0 ns=1 depth=6", "mode=seq nd=1 d0=2 part=0 ns=1 depth=8")
both("1d-two-objects", "mode=seq nd=1 d0=2 part=1 ns=2 depth=3 objs=2", "mode=seq nd=1 d0=2 part=1 ns=2 depth=4 objs=2")
for p in (0, 2):
    both(f"1d-small-cache-{PART[p]}", f"mode=seq nd=1 d0=3 part={p} ns=1 depth=3", f"mode=seq nd=1 d0=4 part={p} ns=1 depth=4",
         env=FAST + ["PDC_SERVER_CACHE_MAX_SIZE=0"])
for p in PART:
    both(f"1d-large-{PART[p]}", f"mode=seq nd=1 d0=3 s0=1000 part={p} ns=2 depth=2 unit=8", f"mode=seq nd=1 d0=3 s0=1000 part={p} ns=2 depth=3 unit=8")
    both(f"1d-many-{PART[p]}", f"mode=seq nd=1 d0=3 s0=60 prefill=80 part={p} ns=2 depth=2", f"mode=seq nd=1 d0=3 s0=60 prefill=80 part={p} ns=2 depth=3")
    both(f"1d-adjacent-{PART[p]}", f"mode=seq nd=1 d0=3 s0=20 prefill=40 pregap=0 preread={p & 1} part={p} ns=3 depth=2", f"mode=seq nd=1 d0=3 s0=20 prefill=40 pregap=0 preread={p & 1} part={p} ns=3 depth=3")
    both(f"1d-far-{PART[p]}", f"mode=seq nd=1 d0=3 x0=4294967296 b0={p * 7} t0={p * 5} part={p} ns=2 depth=2", f"mode=seq nd=1 d0=3 x0=4294967296 b0={p * 7} t0={p * 5} part={p} ns=3 depth=3")
    both(f"1d-far-b-{PART[p]}", f"mode=seq nd=1 d0=3 b0=8589934591 t0=8589934590 part={p} ns=3 depth=2 unit=8", f"mode=seq nd=1 d0=3 b0=8589934591 t0=8589934590 part={p} ns=3 depth=3 unit=8")
both("1d-huge", "mode=seq nd=1 d0=3 s0=100000 part=1 ns=2 depth=2", "mode=seq nd=1 d0=3 s0=700000 part=1 ns=2 depth=2")
for p in PART:
    both(f"1d-flush-call-{PART[p]}", f"mode=seq nd=1 d0=2 part={p} ns=2 depth=3 flush=1 objs=2 adv=0", f"mode=seq nd=1 d0=3 part={p} ns=2 depth=4 flush=1")
both("put-get", "mode=put depth=3 ns=2", "mode=put depth=4 ns=2 sizes=5")
both("put-get-mem", "mode=put depth=2 ns=1 sizes=5", "mode=put depth=3 ns=3 sizes=5", v="asan")
for p in PART:
    both(f"nocache-1d-{PART[p]}", f"mode=seq nd=1 d0=3 part={p} ns=2 depth=3", f"mode=seq nd=1 d0=4 part={p} ns=2 depth=4", v="nocache")
    both(f"nocache-1d-many-{PART[p]}", f"mode=seq nd=1 d0=3 s0=60 prefill=80 part={p} ns=2 depth=2 unit=8", f"mode=seq nd=1 d0=3 s0=60 prefill=80 part={p} ns=2 depth=3 unit=8", v="nocache")
    both(f"nocache-1d-far-{PART[p]}", f"mode=seq nd=1 d0=3 x0=4294967296 b0={p * 7} t0={p * 5} part={p} ns=2 depth=2", f"mode=seq nd=1 d0=3 x0=4294967296 b0={p * 7} t0={p * 5} part={p} ns=3 depth=3", v="nocache")
mix("mixed-objects", "depth=2 no=6 nc=2", "depth=3 no=5 nc=2 ns=2")
mix("mixed-objects-deep", "depth=3 no=4 nc=2 ns=2", "depth=4 no=4 nc=1 ns=2")
for p in PART: # maker: the client that makes the objects, and so chooses the server of their data, is another one
    both(f"other-maker-{PART[p]}", f"mode=seq nd=1 d0=3 part={p} ns=2 nc=2 maker=1 depth=2", f"mode=seq nd=1 d0=3 part={p} ns=3 nc=3 maker=2 depth=3 flush=1")
for n, k in (("5-on-3", "d0=5 ns=3"), ("5-on-4", "d0=5 ns=4"), ("6-on-5", "d0=6 ns=5"), ("2-on-5", "d0=2 ns=5")): # shares of the servers of unequal size
    for p in (0, 1):
        both(f"1d-uneven-{n}-{PART[p]}", f"mode=seq nd=1 {k} part={p} depth={1 if k[3] == '6' else 2}", f"mode=seq nd=1 {k} part={p} depth=2 objs=2 flush=1")
both("nocache-1d-uneven", "mode=seq nd=1 d0=5 ns=3 part=1 depth=2", "mode=seq nd=1 d0=6 ns=4 part=1 depth=2", v="nocache")
mix("clients-per-server", "pre=1 depth=1 no=6 ns=3 nc=3 restart=1 after=1", "pre=1 depth=2 no=4 ns=3 nc=4 restart=1 after=1", env=FAST + ["PDC_NCLIENT_PER_SERVER=2"])
mix("lookup-on-demand", "pre=1 depth=1 no=6 ns=3 nc=2 restart=1 after=1", "pre=1 depth=2 no=4 ns=3 nc=2 restart=1 after=1", env=FAST + ["PDC_LOOKUP_ON_DEMAND=1"])
CHECKS["C01"] = Check(q, t)

# C02 shapes: several dimensions, local layouts, buffers
q, t = [], []
for p in PART:
    both(f"2d-{PART[p]}", f"mode=seq nd=2 d0=3 d1=2 part={p} ns=2 depth=2", f"mode=seq nd=2 d0=3 d1=3 part={p} ns=2 depth=3 nreg=20")
    both(f"2d-{PART[p]}-mem", f"mode=seq nd=2 d0=2 d1=2 part={p} ns=2 depth=3 adv=0", v="asan")
    both(f"2d-{PART[p]}-flat", f"mode=seq nd=2 d0=2 d1=3 part={p} ns=2 depth=2 flat=1 unit=8", f"mode=seq nd=2 d0=2 d1=3 part={p} ns=3 depth=3 flat=1 unit=8")
    both(f"3d-{PART[p]}", f"mode=seq nd=3 d0=2 d1=2 d2=2 part={p} ns=2 depth=2", f"mode=seq nd=3 d0=3 d1=2 d2=2 part={p} ns=2 depth=2")
    both(f"1d-shift-{PART[p]}", f"mode=seq nd=1 d0=3 part={p} ns=2 depth=2 shift=2", f"mode=seq nd=1 d0=4 part={p} ns=2 depth=3 shift=3", v="asan")
    both(f"3d-{PART[p]}-mem", f"mode=seq nd=3 d0=2 d1=2 d2=2 part={p} ns=2 depth=1 unit=1", f"mode=seq nd=3 d0=2 d1=2 d2=2 part={p} ns=2 depth=2 unit=1", v="asan")
for p in PART:
    both(f"2d-large-{PART[p]}", f"mode=seq nd=2 d0=3 d1=2 s0=17 s1=130 part={p} ns=2 depth=1", f"mode=seq nd=2 d0=3 d1=2 s0=17 s1=130 part={p} ns=2 depth=2")
    both(f"2d-many-{PART[p]}", f"mode=seq nd=2 d0=3 d1=2 s0=30 prefill=40 part={p} ns=2 depth=1", f"mode=seq nd=2 d0=3 d1=2 s0=30 prefill=40 part={p} ns=2 depth=2")
    both(f"3d-large-{PART[p]}", f"mode=seq nd=3 d0=2 d1=2 d2=2 s0=7 s1=10 s2=20 part={p} ns=3 depth=1 unit=1", f"mode=seq nd=3 d0=2 d1=2 d2=2 s0=7 s1=10 s2=20 part={p} ns=3 depth=2 unit=1", v="asan")
for p in PART:
    for x in ("x0=4294967296", "x1=4294967296 b0=1 t1=3", "x0=65536 x1=65536 t1=1", "b0=3 b1=5 t0=2 t1=4"):
        n = x.split("=")[0] + x.split("=")[1][:2]
        both(f"2d-far-{n}-{PART[p]}", f"mode=seq nd=2 d0=2 d1=2 {x} part={p} ns=2 depth=2 adv=0", f"mode=seq nd=2 d0=2 d1=2 {x} part={p} ns=3 depth=3")
    for x in ("x0=4294967296", "x0=4096 x1=4096 x2=4096 t2=1", "x1=4294967296 b0=1", "x2=4294967296 b1=1", "b0=3 b1=5 b2=7 t0=2 t1=4 t2=1"):
        n = x.split("=")[0] + x.split("=")[1][:2]
        both(f"3d-far-{n}-{PART[p]}", f"mode=seq nd=3 d0=2 d1=2 d2=2 {x} part={p} ns=2 depth=1", f"mode=seq nd=3 d0=2 d1=2 d2=2 {x} part={p} ns=3 depth=2")
for p in PART:
    both(f"nocache-2d-{PART[p]}", f"mode=seq nd=2 d0=3 d1=2 part={p} ns=2 depth=2", f"mode=seq nd=2 d0=3 d1=3 part={p} ns=2 depth=3 nreg=20", v="nocache")
    both(f"nocache-3d-{PART[p]}", f"mode=seq nd=3 d0=2 d1=2 d2=2 part={p} ns=2 depth=2 unit={8 if p & 1 else 1}", f"mode=seq nd=3 d0=3 d1=2 d2=2 part={p} ns=2 depth=2", v="nocache")
    both(f"nocache-3d-large-{PART[p]}", f"mode=seq nd=3 d0=2 d1=2 d2=2 s0=7 s1=10 s2=20 part={p} ns=3 depth=1", f"mode=seq nd=3 d0=2 d1=2 d2=2 s0=7 s1=10 s2=20 part={p} ns=3 depth=2", v="nocache")
    both(f"nocache-2d-far-{PART[p]}", f"mode=seq nd=2 d0=2 d1=2 x1=4294967296 b0=1 t1=3 part={p} ns=2 depth=2", f"mode=seq nd=2 d0=2 d1=2 x1=4294967296 b0=1 t1=3 part={p} ns=3 depth=3", v="nocache")
for p in PART:
    both(f"sieving-2d-{PART[p]}", f"mode=seq nd=2 d0=3 d1=2 part={p} ns=2 depth=2", f"mode=seq nd=2 d0=3 d1=3 part={p} ns=2 depth=3 nreg=20", env=FAST + ["PDC_DATA_SIEVING=1"])
    both(f"sieving-3d-{PART[p]}", f"mode=seq nd=3 d0=2 d1=2 d2=2 part={p} ns=2 depth=2", f"mode=seq nd=3 d0=3 d1=2 d2=2 part={p} ns=2 depth=2", env=FAST + ["PDC_DATA_SIEVING=1"])
both("sieving-mem", "mode=seq nd=3 d0=2 d1=2 d2=2 part=0 ns=1 depth=1", "mode=seq nd=3 d0=2 d1=2 d2=2 part=1 ns=2 depth=2", env=FAST + ["PDC_DATA_SIEVING=1"], v="asan")
mix("mixed-objects", "depth=2 no=5 o0=1 ns=2", "depth=3 no=5 o0=1 ns=2")
mix("mixed-objects-mem", "depth=2 no=5 nc=2", "depth=2 no=6 nc=2 ns=2", v="asan")
mix("nocache-mixed-objects", "depth=2 no=6 ns=2", "depth=3 no=5 ns=2", v="nocache")
for n, a, b in (("arithmetic-1d", "nd=1 off=7 size=7", "nd=1 off=12 size=12"), ("arithmetic-2d", "nd=2 off=4 size=3", "nd=2 off=5 size=4"), ("arithmetic-3d", "nd=3 off=2 size=2", "nd=3 off=3 size=3 units=2")):
    q.append(direct(n, "regions", a)); t.append(direct(n, "regions", b))
for p in PART:
    both(f"other-maker-2d-{PART[p]}", f"mode=seq nd=2 d0=2 d1=2 part={p} ns=2 nc=2 maker=1 depth=2 adv=0", f"mode=seq nd=2 d0=2 d1=3 part={p} ns=3 nc=3 maker=2 depth=2")
both("2d-uneven", "mode=seq nd=2 d0=5 d1=2 part=1 ns=3 depth=1", "mode=seq nd=2 d0=5 d1=2 part=1 ns=4 depth=2")
both("2d-uneven-b", "mode=seq nd=2 d0=2 d1=5 part=1 ns=3 depth=1", "mode=seq nd=2 d0=2 d1=6 part=1 ns=4 depth=2")
both("3d-uneven", "mode=seq nd=3 d0=2 d1=5 d2=2 part=1 ns=3 depth=1", "mode=seq nd=3 d0=2 d1=2 d2=5 part=1 ns=3 depth=1")
both("3d-uneven-mem", "mode=seq nd=3 d0=1 d1=2 d2=5 part=1 ns=3 depth=1", "mode=seq nd=3 d0=5 d1=2 d2=1 part=1 ns=3 depth=2", v="asan")
CHECKS["C02"] = Check(q, t)

# C03 concurrent clients, the flush thread, message schedules
q, t = [], []
for p in PART:
    s = " safe=1" if p >= 2 else ""
    b = f"mode=multi nc=2 nd=1 d0=2 part={p}{s} "
    both(f"race-{PART[p]}", b + "sched=1 deliver=1 budget=2 depth=1", b + "sched=1 deliver=1 budget=3 depth=1 preempt=1")
    both(f"race-flush-{PART[p]}", b + "sched=1 deliver=1 preempt=2 budget=1 depth=1 ns=1", b + "sched=1 deliver=1 preempt=2 budget=2 depth=1 ns=2", env=ALWAYS)
    both(f"race-thread-{PART[p]}", b + f"preempt=2 prefree=1 budget={2 if p < 2 else 1} depth=1 nreg={2 if p else 3}", b + "preempt=2 prefree=1 budget=2 depth=1", env=ALWAYS)
    both(f"race-two-ops-{PART[p]}", b + "nreg=2 deliver=1 budget=1 depth=2", b + "ns=2 preempt=2 deliver=1 budget=1 depth=2")
    both(f"race-mem-{PART[p]}", b.replace(" safe=1", "") + "safe=1 nreg=2 sched=1 deliver=1 preempt=2 adv=1 budget=1 depth=1", b.replace(" safe=1", "") + "safe=1 sched=1 deliver=1 preempt=2 adv=1 budget=1 depth=1", v="asan")
for p in PART:
    s = " safe=1" if p >= 2 else ""
    b = f"mode=multi nc=2 nd=1 d0=2 part={p}{s} flush=1 "
    both(f"race-flush-call-{PART[p]}", b + "nreg=2 sched=1 deliver=1 budget=2 depth=1", b + "sched=1 deliver=1 preempt=1 budget=2 depth=2 nreg=1")
    both(f"race-flush-call-thread-{PART[p]}", b + "nreg=1 preempt=2 prefree=1 budget=1 depth=1", b + "nreg=2 preempt=2 prefree=1 budget=2 depth=1", env=ALWAYS)
for p in PART:
    s = " safe=1" if p >= 2 else ""
    b = f"mode=multi nc=2 nd=1 d0=2 part={p}{s} "
    both(f"nocache-race-{PART[p]}", b + "sched=1 deliver=1 budget=2 depth=1", b + "sched=1 deliver=1 budget=3 depth=1 preempt=1", v="nocache")
for p in PART:
    b = f"mode=multi nc=2 nd=1 d0=2 part={p}{' safe=1' if p >= 2 else ''} "
    both(f"race-other-maker-{PART[p]}", b + "nreg=2 deliver=1 budget=1 depth=1 ns=2 maker=1", b + "sched=1 deliver=1 budget=2 depth=1 ns=3 maker=1")
for p in PART: # RDMA operations that overtake each other, or arrive long after everything else
    s = " safe=1" if p >= 2 else ""
    b = f"mode=multi nc=2 nd=1 d0=2 part={p}{s} bulkpark=1 "
    both(f"race-late-data-{PART[p]}", b + "sched=1 deliver=1 budget=2 depth=1 ns=1", b + "sched=1 deliver=1 budget=2 depth=1 ns=2")
    both(f"race-late-data-flush-{PART[p]}", b + "deliver=1 preempt=1 budget=1 depth=1 nreg=2 ns=1", b + "sched=1 deliver=1 preempt=1 budget=2 depth=1 nreg=2", env=ALWAYS)
CHECKS["C03"] = Check(q, t)

# C04 outstanding transfers
q, t = [], []
for p in PART:
    both(f"async-{PART[p]}", f"mode=async nd=1 d0=2 part={p} ns=2 depth=3 status=1 adv=1 nreg=2", f"mode=async nd=1 d0=2 part={p} ns=2 depth=4 status=1 adv=1 nreg=2")
    both(f"async-batch-{PART[p]}", f"mode=async nd=1 d0=3 part={p} ns=2 depth=3 all=1 nreg=3", f"mode=async nd=1 d0=3 part={p} ns=2 depth=3 all=1")
    both(f"async-objs-{PART[p]}", f"mode=async nd=1 d0=2 part={p} ns=2 depth=3 objs=2 nreg=1 closeobj=1", f"mode=async nd=1 d0=2 part={p} ns=2 depth=4 objs=2 nreg=1 closeobj=1")
    both(f"async-late-bulk-{PART[p]}", f"mode=async nd=1 d0=2 part={p} ns=2 depth=3 nreg=2 bulklate=1 deliver=1 budget=1", f"mode=async nd=1 d0=2 part={p} ns=2 depth=3 bulklate=1 deliver=1 budget=2")
    both(f"async-mem-{PART[p]}", f"mode=async nd=1 d0=2 part={p} ns=2 depth=2 nreg=2 status=1 all=1 closeobj=1", f"mode=async nd=1 d0=2 part={p} ns=2 depth=3 nreg=2 status=1 all=1 closeobj=1", v="asan")
    both(f"async-far-{PART[p]}", f"mode=async nd=1 d0=2 x0=4294967296 part={p} ns=2 depth=2 all=1 objs=2 nreg=3", f"mode=async nd=1 d0=2 x0=4294967296 part={p} ns=2 depth=4 all=1 nreg=3")
both("async-list", "mode=async nd=1 d0=2 part=0 ns=1 depth=8 all=0 nreg=1 wo=1 closeobj=1", "mode=async nd=1 d0=2 part=0 ns=1 depth=9 maxo=4 all=0 nreg=1 wo=1 closeobj=1 status=1", v="asan")
both("async-list-batch", "mode=async nd=1 d0=2 part=1 ns=2 depth=5 nreg=1 wo=1 closeobj=1 all=1", "mode=async nd=1 d0=2 part=1 ns=2 depth=6 nreg=1 wo=1 closeobj=1 all=1", v="asan")
both("async-list-late", "mode=async nd=1 d0=2 part=0 ns=1 depth=5 nreg=1 wo=1 deliver=1 budget=1", "mode=async nd=1 d0=2 part=0 ns=1 depth=7 nreg=1 wo=1 deliver=1 budget=2", v="asan")
both("async-list-late-batch", "mode=async nd=1 d0=2 part=1 ns=2 depth=5 nreg=1 wo=1 deliver=1 budget=1 all=1", "mode=async nd=1 d0=2 part=1 ns=2 depth=6 nreg=1 wo=1 deliver=1 budget=2 all=1", v="asan")
both("async-posix", "mode=async nd=1 d0=2 part=1 ns=2 depth=3 status=1 posix=1", "mode=async nd=1 d0=2 part=1 ns=2 depth=4 status=1 posix=1 nreg=2")
both("async-2d", "mode=async nd=2 d0=2 d1=2 part=1 ns=2 depth=2 all=1", "mode=async nd=2 d0=2 d1=2 part=1 ns=2 depth=3 all=1 nreg=5")
for p in PART:
    both(f"batch-{PART[p]}", f"mode=batch nd=1 d0=3 s0=100 part={p} ns=2 objs=3", f"mode=batch nd=1 d0=3 s0=100 part={p} ns=2 objs=3 turns=3")
    both(f"batch-2d-{PART[p]}", f"mode=batch nd=2 d0=3 d1=4 s0=40 part={p} ns=3 objs=2", f"mode=batch nd=2 d0=3 d1=4 s0=40 part={p} ns=3 objs=2 turns=3")
both("batch-mem", "mode=batch nd=1 d0=3 s0=100 part=1 ns=2 objs=3", v="asan")
both("async-flush-call", "mode=async nd=1 d0=2 part=1 ns=2 depth=3 nreg=2 flush=1 bulklate=1 deliver=1 budget=1", "mode=async nd=1 d0=2 part=1 ns=2 depth=4 nreg=2 flush=1 bulklate=1 deliver=1 budget=1", v="asan")
for p in PART:
    both(f"nocache-async-{PART[p]}", f"mode=async nd=1 d0=2 part={p} ns=2 depth=3 status=1 all=1 nreg=2", f"mode=async nd=1 d0=2 part={p} ns=2 depth=4 status=1 all=1 nreg=2", v="nocache")
both("nocache-late-bulk", "mode=async nd=1 d0=2 part=1 ns=2 depth=3 nreg=2 bulklate=1 deliver=1 budget=1", "mode=async nd=1 d0=2 part=1 ns=2 depth=3 bulklate=1 deliver=1 budget=2", v="nocache")
mix("mixed-batch", "mode=batch no=6 n=2 ns=2", "mode=batch no=6 n=2 ns=3 rounds=2")
mix("mixed-batch-3", "mode=batch no=3 n=3 ns=1", "mode=batch no=4 n=3 ns=2")
mix("mixed-batch-mem", "mode=batch no=5 n=2", "mode=batch no=6 n=2 ns=2", v="asan")
mix("nocache-mixed-batch", "mode=batch no=6 n=2 ns=2", "mode=batch no=4 n=3 ns=2", v="nocache")
for p in PART:
    both(f"async-other-maker-{PART[p]}", f"mode=async nd=1 d0=2 part={p} ns=2 nc=2 maker=1 depth=3 all=1 nreg=2", f"mode=async nd=1 d0=2 part={p} ns=3 nc=3 maker=2 depth=4 all=1 nreg=2 objs=2")
for p in PART: # RDMA operations that overtake each other, or arrive long after everything else
    both(f"async-late-data-{PART[p]}", f"mode=async nd=1 d0=2 part={p} ns=1 depth=3 nreg=2 deliver=1 budget=1 status=1 bulkpark=1", f"mode=async nd=1 d0=2 part={p} ns=2 depth=4 nreg=2 deliver=1 budget=1 status=1 bulkpark=1")
    both(f"async-late-data-list-{PART[p]}", f"mode=async nd=1 d0=2 part={p} ns=1 depth=4 nreg=1 wo=1 deliver=1 budget=1 status=1 bulkpark=1", f"mode=async nd=1 d0=2 part={p} ns=2 depth=5 nreg=1 wo=1 deliver=1 budget=2 status=1 bulkpark=1")
both("async-late-data-mem", "mode=async nd=1 d0=2 part=1 ns=1 depth=3 nreg=1 deliver=1 budget=1 status=1 bulkpark=1", "mode=async nd=1 d0=2 part=1 ns=1 depth=4 nreg=1 deliver=1 budget=1 status=1 bulkpark=1", v="asan")
both("async-late-data-objs", "mode=async nd=1 d0=2 part=1 ns=2 depth=3 objs=2 nreg=1 closeobj=1 deliver=1 budget=1 bulkpark=1", "mode=async nd=1 d0=2 part=1 ns=2 depth=4 objs=2 nreg=1 closeobj=1 deliver=1 budget=1 bulkpark=1 status=1")
both("nocache-late-data", "mode=async nd=1 d0=2 part=1 ns=2 depth=3 nreg=2 deliver=1 budget=1 bulkpark=1 status=1", "mode=async nd=1 d0=2 part=1 ns=2 depth=4 nreg=1 deliver=1 budget=2 bulkpark=1 status=1", v="nocache")
for p in (0, 2, 3):
    both(f"async-posix-{PART[p]}", f"mode=async nd=1 d0=2 part={p} ns=2 depth=3 status=1 posix=1 nreg=2", f"mode=async nd=1 d0=2 part={p} ns=2 depth=3 status=1 posix=1 objs=2 closeobj=1")
both("async-uneven", "mode=async nd=1 d0=5 part=1 ns=3 depth=2 all=1", "mode=async nd=1 d0=5 part=1 ns=4 depth=3 all=1")
for p in PART: # refused starts; finished transfers that are started again
    both(f"async-again-{PART[p]}", f"mode=async nd=1 d0=2 part={p} ns=2 depth=3 all=1 again=1 nreg=2", f"mode=async nd=1 d0=2 part={p} ns=2 depth=4 all=1 again=1 nreg=2")
    both(f"async-reuse-{PART[p]}", f"mode=async nd=1 d0=2 part={p} ns=2 depth=3 all=1 reuse=3 nreg=2", f"mode=async nd=1 d0=2 part={p} ns=3 depth=4 all=1 reuse=3 nreg=2 status=1")
    both(f"async-reuse-2d-{PART[p]}", f"mode=async nd=2 d0=2 d1=2 part={p} ns=2 depth=2 all=1 reuse=3 nreg=4", f"mode=async nd=3 d0=2 d1=2 d2=2 part={p} ns=3 depth=2 all=1 reuse=3 nreg=8")
both("async-reuse-mem", "mode=async nd=1 d0=2 part=1 ns=2 depth=2 all=1 reuse=3", "mode=async nd=2 d0=2 d1=2 part=1 ns=2 depth=3 all=1 reuse=3 nreg=4", v="asan")
both("async-reuse-posix", "mode=async nd=1 d0=2 part=1 ns=2 depth=2 all=1 reuse=3 posix=1", "mode=async nd=1 d0=2 part=2 ns=2 depth=3 all=1 reuse=3 posix=1")
both("async-reuse-late", "mode=async nd=1 d0=2 part=1 ns=2 depth=2 all=1 reuse=2 nreg=1 deliver=1 budget=1 bulkpark=1", "mode=async nd=1 d0=2 part=1 ns=2 depth=2 all=1 reuse=2 nreg=2 deliver=1 budget=2 bulkpark=1")
both("nocache-reuse", "mode=async nd=1 d0=2 part=1 ns=2 depth=2 all=1 reuse=3", "mode=async nd=1 d0=2 part=2 ns=2 depth=3 all=1 reuse=3", v="nocache")
CHECKS["C04"] = Check(q, t)

# C05 region data across close and restart
q, t = [], []
for p in PART:
    both(f"restart-{PART[p]}", f"mode=seq nd=1 d0=3 part={p} ns=2 depth=2 reads=0 restart=1", f"mode=seq nd=1 d0=3 part={p} ns=2 depth=3 reads=0 restart=1")
    both(f"restart-2d-{PART[p]}", f"mode=seq nd=2 d0=2 d1=2 part={p} ns=2 depth=2 reads=0 restart=1 unit=8", f"mode=seq nd=2 d0=2 d1=2 part={p} ns=3 depth=3 reads=0 restart=1 unit=8 nreg=6")
    both(f"restart-objs-{PART[p]}", f"mode=seq nd=1 d0=2 part={p} ns=2 depth=2 reads=0 restart=1 objs=3", f"mode=seq nd=1 d0=2 part={p} ns=2 depth=3 reads=0 restart=1 objs=3")
    both(f"restart-mem-{PART[p]}", f"mode=seq nd=1 d0=2 part={p} ns=2 depth=2 reads=0 restart=1", v="asan")
for p in PART:
    both(f"restart-twice-{PART[p]}", f"mode=seq nd=1 d0=2 part={p} ns=2 depth=2 reads=0 restart=2 after=1", f"mode=seq nd=1 d0=3 part={p} ns=2 depth=2 reads=0 restart=2 after=1")
    both(f"restart-write-{PART[p]}", f"mode=seq nd=1 d0=2 part={p} ns=2 depth=1 restart=1 after=3", f"mode=seq nd=1 d0=3 part={p} ns=2 depth=2 restart=1 after=3")
    both(f"restart-many-{PART[p]}", f"mode=seq nd=1 d0=3 s0=60 prefill=80 part={p} ns=3 depth=1 restart=1 after=1", f"mode=seq nd=1 d0=3 s0=60 prefill=80 part={p} ns=3 depth=2 restart=1 after=1")
    both(f"restart-3d-{PART[p]}", f"mode=seq nd=3 d0=2 d1=2 d2=2 s1=3 part={p} ns=2 depth=2 reads=0 restart=1 nreg=9", f"mode=seq nd=3 d0=2 d1=2 d2=2 s1=3 part={p} ns=2 depth=2 reads=0 restart=1")
    both(f"restart-far-{PART[p]}", f"mode=seq nd=1 d0=2 x0=4294967296 part={p} ns=2 depth=2 reads=0 restart=1 after=1", f"mode=seq nd=1 d0=3 x0=4294967296 part={p} ns=3 depth=2 reads=0 restart=1 after=2")
    both(f"restart-far-2d-{PART[p]}", f"mode=seq nd=2 d0=2 d1=2 x0=4294967296 b1=1 part={p} ns=2 depth=1 reads=0 restart=1 after=1", f"mode=seq nd=2 d0=2 d1=2 x0=4294967296 b1=1 part={p} ns=3 depth=2 reads=0 restart=1 after=1")
for p in PART:
    both(f"nocache-restart-{PART[p]}", f"mode=seq nd=2 d0=2 d1=2 part={p} ns=2 depth=2 reads=0 restart=1 after=1 nreg=5", f"mode=seq nd=2 d0=2 d1=2 part={p} ns=3 depth=2 reads=0 restart=2 after=1", v="nocache")
for ns in (1, 2):
    mix(f"mixed-prefilled-{ns}", f"pre=2 depth=1 no=6 ns={ns} restart=2 after=1", f"pre=2 depth=2 no=6 ns={ns} restart=2 after=1")
    mix(f"mixed-objects-{ns}", f"depth=2 no=6 ns={ns} restart=1 after=1", f"depth=2 no=6 ns={ns} restart=2 after=1")
mix("mixed-objects-mem", "pre=2 depth=1 no=6 restart=1", "depth=2 no=6 restart=2 ns=2", v="asan")
for p in PART:
    both(f"other-maker-{PART[p]}", f"mode=seq nd=1 d0=3 part={p} ns=2 nc=2 maker=1 depth=1 restart=1 after=1 reads=0", f"mode=seq nd=1 d0=3 part={p} ns=3 nc=3 maker=2 depth=2 restart=1 after=1 apps=31")
both("restart-uneven", "mode=seq nd=1 d0=5 ns=3 part=1 depth=1 reads=0 restart=2 after=1 nreg=7", "mode=seq nd=1 d0=5 ns=3 part=1 depth=2 reads=0 restart=1 after=1")
both("restart-uneven-dynamic", "mode=seq nd=1 d0=5 ns=3 part=2 depth=1 reads=0 restart=2 after=1 nreg=6", "mode=seq nd=1 d0=6 ns=4 part=2 depth=2 reads=0 restart=1 after=1 nreg=8")
both("restart-uneven-3d", "mode=seq nd=3 d0=2 d1=5 d2=2 part=1 ns=3 depth=1 reads=0 restart=1 after=1 nreg=16", "mode=seq nd=3 d0=2 d1=2 d2=5 part=1 ns=3 depth=2 reads=0 restart=1 after=1 nreg=10")
both("restart-uneven-mem", "mode=seq nd=2 d0=5 d1=2 part=1 ns=3 depth=1 reads=0 restart=1 after=1 nreg=7", "mode=seq nd=2 d0=2 d1=5 part=1 ns=4 depth=1 reads=0 restart=2 after=1", v="asan")
CHECKS["C05"] = Check(q, t)

# ---------------------------------------------------------------------------------------------------- metadata


def meta(name, args_q, args_t=None, **k):
    q.append(sim(name, "meta", args_q, **k))
    t.append(sim(name, "meta", args_t or args_q, **k))


def conc(name, args_q, args_t=None, **k):
    """Operations of several clients at the same time, decided by linearizability per name."""
    q.append(sim(name, "conc", "sched=1 deliver=1 budget=1 " + args_q, **k))
    t.append(sim(name, "conc", "sched=1 deliver=1 " + (args_t or args_q), **k))


# C06 objects, containers and tags across a restart
q, t = [], []
for ns in (1, 2):
    meta(f"obj-restart-{ns}", f"mode=obj depth=2 nn=2 nvar=3 ns={ns} restart=1 after=1 list=0", f"mode=obj depth=2 nn=3 nvar=3 ns={ns} restart=1 after=1")
    meta(f"obj-restart-ids-{ns}", f"mode=obj depth=3 nn=3 nvar=2 ns={ns} restart=1 newobj=1", f"mode=obj depth=3 nn=3 nvar=2 ns={ns} restart=1 newobj=1")
    meta(f"tag-restart-{ns}", f"mode=tag depth=3 nn=1 nnc=1 nv=3 ns={ns} restart=1 query=1 list=0", f"mode=tag depth=3 nn=2 nnc=2 nv=3 ns={ns} restart=1 query=1")
    meta(f"tag-restart-after-{ns}", f"mode=tag depth=1 nn=2 nnc=1 nv=5 ns={ns} restart=1 after=1", f"mode=tag depth=2 nn=1 nnc=1 nv=5 ns={ns} restart=1 after=1")
    meta(f"cont-restart-{ns}", f"mode=cont depth=3 nnc=3 ns={ns} restart=1 after=0 newobj=1", f"mode=cont depth=2 nnc=2 ns={ns} restart=1 after=1 newobj=1")
meta("many-restart", "mode=tag depth=1 nn=2 nnc=1 fill=60 fillt=1 fillk=40 fillc=30 ns=2 query=1 restart=2", "mode=tag depth=1 nn=2 nnc=1 fill=60 fillt=1 fillk=40 fillc=30 ns=2 query=1 restart=2 after=1")
meta("steps-restart", "mode=obj fillts=70 ns=1 depth=1 nn=2 nvar=1 restart=1 after=1", "mode=obj fillts=140 ns=2 depth=1 nn=2 nvar=1 restart=2 after=1 newobj=1")
meta("steps-restart-mem", "mode=obj fillts=64 ns=1 depth=1 nn=1 nvar=1 restart=1 after=1 newobj=1", "mode=obj fillts=70 ns=1 depth=1 nn=2 nvar=1 restart=2 after=1 newobj=1", v="asan")
meta("text-restart", "mode=obj text=1 depth=2 nn=2 nvar=2 ns=2 setdims=0 restart=1", "mode=obj text=1 depth=3 nn=2 nvar=2 ns=2 setdims=0 restart=1")
meta("extremes-restart", "mode=obj depth=2 nn=2 nvar=2 p0=3 ns=2 restart=2", "mode=obj depth=2 nn=2 nvar=2 p0=3 ns=2 restart=1 after=1")
meta("names-restart", "mode=obj depth=2 nn=4 nvar=1 names=1 ns=2 restart=1", "mode=obj depth=2 nn=4 nvar=2 names=1 ns=2 restart=1")
meta("values-restart", "mode=tag depth=2 nn=1 nnc=1 nv=6 v0=5 ns=2 restart=1 list=0", "mode=tag depth=2 nn=1 nnc=1 nv=6 v0=5 ns=2 restart=2 list=0")
meta("obj-restart-mem", "mode=obj depth=2 nn=2 nvar=2 ns=1 restart=1 newobj=1 list=0", "mode=obj depth=3 nn=2 nvar=2 ns=1 restart=1 newobj=1", v="asan")
meta("tag-restart-mem", "mode=tag depth=1 nn=2 nnc=2 nv=5 ns=1 restart=1 after=1", "mode=tag depth=2 nn=2 nnc=2 nv=5 ns=1 restart=1", v="asan")
meta("cont-restart-mem", "mode=cont depth=2 nnc=2 ns=1 restart=1 newobj=1", "mode=cont depth=3 nnc=2 ns=1 restart=1 newobj=1", v="asan")
for v in ("def", "asan"):
    for l in (q, t):
        l.append(sim("limits-restart" + ("-mem" if v == "asan" else ""), "limits", "ns=2 restart=1", v=v))
CHECKS["C06"] = Check(q, t)

# C08 the name space of objects
q, t = [], []
meta("obj-2names", "mode=obj depth=3 nn=2 nvar=3 ns=2 nc=2 list=1", "mode=obj depth=4 nn=2 nvar=2 ns=2 nc=2 list=1")
meta("obj-3names", "mode=obj depth=4 nn=3 nvar=2 ns=2", "mode=obj depth=4 nn=3 nvar=2 ns=2")
meta("obj-steps", "mode=obj depth=4 nn=2 nvar=3 ns=3", "mode=obj depth=4 nn=2 nvar=3 ns=3")
meta("obj-3clients", "mode=obj depth=2 nn=3 nvar=2 ns=2 nc=3", "mode=obj depth=3 nn=2 nvar=2 ns=2 nc=3")
meta("obj-kept-handles", "mode=obj depth=3 nn=2 nvar=2 ns=1 nc=2 keep=1", "mode=obj depth=4 nn=2 nvar=2 ns=1 nc=2 keep=1")
meta("obj-mem", "mode=obj depth=3 nn=2 nvar=2 ns=2 keep=1", "mode=obj depth=3 nn=2 nvar=3 ns=2", v="asan")
meta("obj-names", "mode=obj depth=2 nn=4 nvar=2 names=1 ns=2 nc=2", "mode=obj depth=3 nn=4 nvar=2 names=1 ns=2 nc=2")
meta("obj-text", "mode=obj text=1 depth=3 nn=2 nvar=2 setdims=0", "mode=obj text=1 depth=4 nn=2 nvar=2 setdims=0 delname=0")
meta("obj-text-2clients", "mode=obj text=1 depth=3 nn=1 nvar=2 ns=2 nc=2 keep=1 setdims=0", "mode=obj text=1 depth=3 nn=2 nvar=2 ns=2 nc=2 keep=1 setdims=0")
meta("obj-text-mem", "mode=obj text=1 depth=2 nn=2 nvar=2 ns=2 setdims=0", "mode=obj text=1 depth=3 nn=2 nvar=2 ns=2 setdims=0", v="asan")
meta("obj-extremes", "mode=obj depth=3 nn=2 nvar=2 p0=3 ns=2", "mode=obj depth=4 nn=2 nvar=2 p0=3 ns=2")
meta("obj-many", "mode=obj depth=2 nn=3 nvar=2 ns=3 nc=2 fill=100 fillc=20", "mode=obj depth=3 nn=2 nvar=2 ns=3 nc=2 fill=150 fillc=20")
meta("obj-many-steps", "mode=obj fillts=70 ns=1 depth=3 nn=1 nvar=1 setdims=0 list=0", "mode=obj fillts=70 ns=1 depth=3 nn=2 nvar=2")
meta("obj-at-64-steps", "mode=obj fillts=63 ns=1 nc=2 depth=2 nn=2 nvar=1", "mode=obj fillts=63 ns=1 nc=2 depth=3 nn=1 nvar=1")
meta("obj-many-steps-mem", "mode=obj fillts=63 ns=1 depth=2 nn=1 nvar=1 setdims=0", "mode=obj fillts=140 ns=2 nc=2 depth=2 nn=2 nvar=2", v="asan")
for nm, a, b in (("table", "depth=5", "depth=6"), ("table-64", "depth=3 fill=62", "depth=4 fill=62"), ("table-129", "depth=2 fill=127", "depth=4 fill=127"), ("table-257", "depth=2 fill=254", "depth=3 fill=254")):
    q.append(direct(nm, "hashtab", a)); t.append(direct(nm, "hashtab", b))
conc("conc-objects", "what=obj kinds=9 names=2 ns=2", "what=obj kinds=9 names=2 ns=2 restart=1 budget=2")
conc("conc-objects-3-clients", "what=obj kinds=3 names=1 nc=3", "what=obj kinds=9 names=1 nc=3 budget=1")
conc("conc-objects-two-ops", "what=obj kinds=2 names=1 ops=2", "what=obj kinds=9 names=1 ops=2 budget=1")
for v in ("def", "asan", "nocache"):
    for l in (q, t):
        l.append(sim("limits" + {"def": "", "asan": "-mem", "nocache": "-nocache"}[v], "limits", f"ns={1 if v == 'nocache' else 2}", v=v))
CHECKS["C08"] = Check(q, t)

# C09 tags as a map
q, t = [], []
meta("tag-2x2", "mode=tag depth=3 nn=2 nnc=2 list=0", "mode=tag depth=4 nn=2 nnc=1 list=0")
meta("tag-values", "mode=tag depth=3 nn=1 nnc=1 nv=5 nc=2 ns=2 list=0", "mode=tag depth=3 nn=2 nnc=1 nv=5 nc=1 ns=2 list=0")
meta("tag-keys", "mode=tag depth=3 nn=1 nnc=1 nk=3 nv=3 list=0", "mode=tag depth=4 nn=1 nnc=1 nk=3 nv=3 list=0")
meta("tag-deep", "mode=tag depth=4 nn=1 nnc=1 nk=2 nv=2 del=0 list=0", "mode=tag depth=6 nn=1 nnc=1 nk=2 nv=2 del=0 list=0")
meta("tag-recreate", "mode=tag depth=4 nn=1 nnc=1 nk=1 nv=2 recreate=1 list=0", "mode=tag depth=6 nn=1 nnc=1 nk=1 nv=2 recreate=1 list=0")
meta("tag-mem", "mode=tag depth=2 nn=2 nnc=2 nv=3 list=0", "mode=tag depth=2 nn=2 nnc=2 nv=5 nc=2", v="asan")
meta("tag-types", "mode=tag depth=2 nn=2 nnc=2 nv=3 v0=5 list=0", "mode=tag depth=3 nn=2 nnc=1 nv=3 v0=5 list=0")
meta("tag-sizes", "mode=tag depth=2 nn=1 nnc=1 nv=3 v0=8 ns=2", "mode=tag depth=4 nn=1 nnc=1 nv=3 v0=8 nk=1 ns=2")
meta("tag-names", "mode=tag depth=2 nn=2 nnc=2 names=1 nv=2 ns=2 nk=3", "mode=tag depth=3 nn=2 nnc=1 names=1 nv=2 ns=2 nk=2")
meta("tag-many", "mode=tag depth=2 nn=2 nnc=2 fill=40 fillt=1 fillk=60 fillc=10 ns=2", "mode=tag depth=3 nn=2 nnc=1 fill=40 fillt=1 fillk=60 fillc=10 ns=2")
conc("conc-tags", "what=obj kinds=7 names=2 stale=1 opened=1", "what=obj kinds=7 names=2 stale=1 opened=1 restart=1 budget=2")
conc("conc-container-tags", "what=cont kinds=7 names=1 stale=1 opened=1", "what=cont kinds=7 names=1 ops=2 opened=1 restart=1 budget=1")
CHECKS["C09"] = Check(q, t)

# C10 queries by tag
q, t = [], []
meta("query-2x2", "mode=tag depth=3 nn=2 nnc=1 nv=3 query=1 list=0", "mode=tag depth=3 nn=2 nnc=1 nv=5 query=1 list=0")
meta("query-keys", "mode=tag depth=2 nn=2 nnc=1 nk=3 nv=3 ns=2 query=1 list=0", "mode=tag depth=3 nn=2 nnc=1 nk=3 nv=3 ns=2 query=1 list=0")
meta("query-4objects", "mode=tag depth=2 nn=4 nnc=1 nv=3 ns=3 nc=2 query=1 list=0", "mode=tag depth=3 nn=3 nnc=1 nv=3 ns=3 query=1 list=0")
meta("query-every-client", "mode=tag depth=2 nn=2 nnc=1 nv=2 ns=2 nc=2 query=1 qall=1 list=0", "mode=tag depth=3 nn=2 nnc=1 nv=2 ns=2 nc=2 query=1 qall=1 list=0")
meta("query-mem", "mode=tag depth=2 nn=2 nnc=1 nv=5 ns=2 query=1 list=1", "mode=tag depth=2 nn=2 nnc=1 nv=5 ns=2 query=1 list=1", v="asan")
meta("query-many", "mode=tag depth=2 nn=2 nnc=1 fill=60 fillt=1 fillk=40 fillc=30 ns=3 query=1 nc=2 qall=1", "mode=tag depth=3 nn=2 nnc=1 fill=90 fillt=1 fillk=40 ns=3 query=1")
meta("query-all-match", "mode=tag depth=2 nn=1 nnc=1 fill=270 fillt=1 tagmod=1 ns=1 query=1", "mode=tag depth=3 nn=2 nnc=1 fill=270 fillt=1 tagmod=2 ns=1 query=1", v="asan")
q.append(direct("patterns", "patmatch", "len=5 plen=4"))
q.append(direct("patterns-3", "patmatch", "len=4 plen=3 alpha=abc"))
t.append(direct("patterns", "patmatch", "len=7 plen=6"))
t.append(direct("patterns-3", "patmatch", "len=5 plen=4 alpha=abc"))
conc("conc-query-mem", "what=obj k0=4 kinds=5 names=2 bulklate=1", "what=obj k0=1 kinds=8 names=2 bulklate=1 budget=2", v="asan")
CHECKS["C10"] = Check(q, t)

# C12 containers
q, t = [], []
meta("cont-3names", "mode=cont depth=4 nnc=3 ns=2 list=0", "mode=cont depth=4 nnc=3 ns=2")
meta("cont-4names", "mode=cont depth=4 nnc=4 ns=1 members=0", "mode=cont depth=5 nnc=4 ns=2 members=0")
meta("cont-2clients", "mode=cont depth=3 nnc=2 ns=2 nc=2", "mode=cont depth=3 nnc=3 ns=2 nc=2")
meta("cont-empty-start", "mode=cont depth=4 nnc=2 ns=1 first=0 members=0", "mode=cont depth=5 nnc=2 ns=2 first=0")
meta("cont-tags", "mode=tag depth=2 nn=1 nnc=3 nv=3 ns=2 list=0", "mode=tag depth=3 nn=1 nnc=3 nv=2 ns=2 list=0")
meta("cont-mem", "mode=cont depth=3 nnc=2 ns=1", "mode=cont depth=4 nnc=2 ns=1", v="asan")
meta("cont-members", "mode=cont nnc=1 fill=65 sizes=1 depth=3", "mode=cont nnc=1 fill=65 sizes=1 depth=5", v="asan")
meta("cont-collide", "mode=cont nnc=2 contcollide=1 depth=2 members=0", "mode=cont nnc=2 contcollide=1 depth=2 members=0")
meta("cont-names", "mode=cont depth=3 nnc=3 names=1 ns=2 fillc=60 fill=10", "mode=cont depth=4 nnc=3 names=1 ns=2 fillc=60 fill=10")
meta("cont-many-tags", "mode=tag depth=2 nn=1 nnc=3 nv=2 ns=2 fillk=50 fillc=50 list=0", "mode=tag depth=3 nn=1 nnc=2 nv=2 ns=2 fillk=50 fillc=50 list=0")
conc("conc-containers", "what=cont kinds=5 names=2", "what=cont kinds=7 names=2 restart=1 budget=2")
conc("conc-containers-3-clients", "what=cont kinds=3 names=1 nc=3", "what=cont kinds=4 names=1 nc=3 budget=2")
CHECKS["C12"] = Check(q, t)

# C07 crash while a checkpoint is written
q, t = [], []


def crash(name, args_q, args_t=None, **k):
    q.append(sim(name, "crash", args_q, **k))
    t.append(sim(name, "crash", args_t or args_q, **k))


for p in PART:
    crash(f"ckpt-{PART[p]}", f"pre=2 post=1 ns=2 part={p} again=1 flush2={p & 1}", f"pre=2 post=2 ns=2 part={p} again=1 flush2={p & 1}")
    crash(f"close-{PART[p]}", f"pre=1 post=1 ns=2 part={p} how=close again=1", f"pre=2 post=2 ns=2 part={p} how=close again=1")
crash("ckpt-2ops", "pre=2 post=1 ns=1 part=1 again=1", "pre=3 post=2 ns=1 part=1 again=1 wr=0")
crash("ckpt-post2", "pre=1 post=2 ns=2 part=2 again=1", "pre=2 post=3 ns=2 part=2 wr=0")
crash("write-error", "pre=2 post=1 ns=2 part=0 fail=6 again=1", "pre=2 post=2 ns=3 part=0 fail=10 again=1")
crash("ckpt-3servers", "pre=1 post=1 ns=3 part=2 again=1 flush2=1", "pre=2 post=1 ns=3 part=2 again=1 flush2=1")
crash("ckpt-flush-call", "pre=1 post=1 ns=2 part=1 store=1", "pre=2 post=1 ns=2 part=3 store=1")
crash("close-flush-call", "pre=0 post=1 ns=3 part=2 store=1 how=close", "pre=1 post=1 ns=3 part=0 store=1 how=close")
for p in (0, 2):
    crash(f"ckpt-tmpfs-{PART[p]}", f"pre=1 post=1 ns=2 part={p} again=1", f"pre=2 post=2 ns=2 part={p} again=1", env=FAST + ["PDC_CHECKPOINT_TMPFS=1"])
crash("write-error-tmpfs", "pre=1 post=1 ns=2 part=0 fail=12 again=1", "pre=2 post=2 ns=3 part=0 fail=16 again=1", env=FAST + ["PDC_CHECKPOINT_TMPFS=1"])
crash("ckpt-mem", "pre=1 post=1 ns=1 part=1 again=1", "pre=2 post=1 ns=2 part=1 again=1", v="asan")
CHECKS["C07"] = Check(q, t)

# ---------------------------------------------------------------------------------------------------- client handles


def handle(name, args_q, args_t=None, **k):
    q.append(sim(name, "handle", args_q, **k))
    t.append(sim(name, "handle", args_t or args_q, **k))


# C14 handles
q, t = [], []
handle("life-empty", "mode=life depth=5", "mode=life depth=7")
handle("life-warm", "mode=life depth=4 warm=1 slots=3", "mode=life depth=5 warm=1 slots=3")
handle("life-mem", "mode=life depth=2 warm=1 slots=3 each=1", "mode=life depth=3 warm=1 slots=3 each=1", v="asan")
handle("invalid", "mode=bad")
handle("invalid-mem", "mode=bad", v="asan")
handle("life-many", "mode=life warm=1 slots=3 depth=2 fill=70", "mode=life warm=1 slots=3 depth=3 fill=70")
handle("life-very-many", "mode=life warm=1 slots=3 depth=1 fill=290", "mode=life warm=1 slots=3 depth=2 fill=290")
handle("life-many-mem", "mode=life warm=1 slots=3 depth=1 fill=40", "mode=life warm=1 slots=3 depth=2 fill=40", v="asan")
CHECKS["C14"] = Check(q, t)

# C15 property lists
q, t = [], []
handle("prop", "mode=prop depth=3", "mode=prop depth=4")
handle("prop-one", "mode=prop depth=4 props=1", "mode=prop depth=5 props=1")
handle("prop-each", "mode=prop depth=2 each=1", "mode=prop depth=3 each=1")
handle("prop-mem", "mode=prop depth=2 each=1", "mode=prop depth=3", v="asan")
CHECKS["C15"] = Check(q, t)

# ---------------------------------------------------------------------------------------------------- the distributed index
q, t = [], []


def dart(name, args_q, args_t=None, **k):
    q.append(sim(name, "dart", args_q, **k))
    t.append(sim(name, "dart", args_t or args_q, **k))


dart("index-deep", "kv=0 vv=0 ns=3 depth=3 nid=1 nkey=3 nval=2", "kv=0 vv=0 ns=3 depth=4 nid=1 nkey=2 nval=2")
dart("index-affixes", "kv=3 vv=0 ns=4 depth=2", "kv=3 vv=3 ns=4 depth=3 nid=1")
dart("index-suffixes", "kv=1 vv=1 ns=3 depth=2", "kv=1 vv=1 ns=2 depth=3 nid=1")
dart("index-letters", "kv=2 vv=2 ns=5 depth=2", "kv=2 vv=2 ns=5 depth=2")
dart("index-insert-only", "kv=1 vv=1 ns=2 depth=3 del=0 nid=1", "kv=1 vv=1 ns=2 depth=3 del=0 nid=2")
dart("index-2clients", "kv=4 vv=4 ns=2 nc=2 depth=2 nid=1 qall=1", "kv=4 vv=4 ns=3 nc=2 depth=3 nid=1 qall=1")
dart("index-words", "kv=5 vv=5 ns=6 depth=1", "kv=5 vv=5 ns=6 depth=2")
dart("index-dht-full", "kv=1 vv=1 ns=3 depth=2 algo=1", "kv=3 vv=1 ns=4 depth=3 algo=1 nid=1")
dart("index-dht-initial", "kv=1 vv=1 ns=3 depth=2 algo=2", "kv=3 vv=1 ns=4 depth=3 algo=2 nid=1")
dart("index-mem", "kv=1 vv=1 ns=2 depth=2 nid=1 nkey=2 nval=2", "kv=1 vv=1 ns=2 depth=3 nid=1 nkey=2 nval=2", v="asan")
dart("index-many-objects", "kv=1 vv=1 ns=3 depth=1 fillid=100", "kv=1 vv=1 ns=3 depth=2 fillid=100")
dart("index-many-entries", "kv=3 vv=3 ns=3 depth=1 fillent=80 nid=1", "kv=3 vv=3 ns=3 depth=2 fillent=80 nid=1")
dart("index-dht-many", "kv=3 vv=3 ns=3 depth=1 fillent=80 nid=1 algo=1", "kv=3 vv=3 ns=3 depth=2 fillent=80 nid=1 algo=1")
dart("index-many-objects-delete", "kv=1 vv=1 nkey=1 nval=1 nid=2 ns=3 depth=3 fillid=100", "kv=1 vv=1 nkey=1 nval=1 nid=3 ns=3 depth=4 fillid=200")
dart("index-long-values", "kv=2 vv=6 nkey=1 nid=1 ns=3 depth=2", "kv=2 vv=6 nkey=1 nid=2 ns=3 depth=3")
dart("index-long-keys", "kv=6 vv=2 nval=1 nid=1 ns=3 depth=2", "kv=6 vv=2 nval=1 nid=2 ns=3 depth=3")
b = "race=1 sched=1 deliver=1 budget=1 " # all clients at the same time
dart("index-race", b + "kv=1 vv=1 nkey=2 nval=2 ns=2 nc=2", b + "kv=1 vv=1 nkey=2 nval=1 ns=3 nc=2 depth=2")
dart("index-race-3clients", b + "kv=1 vv=1 nkey=2 nval=1 ns=2 nc=3 depth=1", b + "kv=1 vv=1 nkey=2 nval=1 ns=3 nc=3 depth=1 search=1")
dart("index-race-search", b + "kv=0 vv=0 nkey=2 nval=1 ns=3 nc=2 depth=1 search=1", b + "kv=0 vv=0 nkey=2 nval=1 ns=3 nc=2 depth=2 search=1")
dart("index-race-mem", b + "kv=1 vv=1 nkey=2 nval=1 ns=2 nc=2 search=1 bulkpark=1", b + "kv=1 vv=1 nkey=2 nval=2 ns=2 nc=2 search=1 bulkpark=1", v="asan")
dart("index-exact", "kv=1 vv=1 ns=1 depth=1 strict=1")
dart("index-delete-shared", "kv=1 vv=1 ns=1 depth=2 nid=1 sharedel=1")
q.append(direct("route", "dartroute", "", v="o"))
t.append(direct("route", "dartroute", "maxns=40 len=4 nch=8", v="o"))
for n, a, b in (("tree-short-keys", "fam=0 nk=7 depth=4", "fam=0 nk=7 depth=5"), ("tree-many-keys", "fam=0 nk=11 depth=3", "fam=0 nk=11 depth=4"), ("tree-long-prefix", "fam=1 nk=6 depth=4", "fam=1 nk=7 depth=5"),
                ("tree-long-prefixes", "fam=1 nk=11 depth=3", "fam=1 nk=11 depth=4"), ("tree-4", "fam=2 fill=4 depth=3 win=6", "fam=2 fill=4 depth=5 win=6"),
                ("tree-16", "fam=2 fill=16 depth=3", "fam=2 fill=16 depth=5"), ("tree-48", "fam=2 fill=48 depth=3", "fam=2 fill=48 depth=4"),
                ("tree-48-prefix", "fam=2 fill=48 pre=abcdefghijklmn suf=xyz depth=2", "fam=2 fill=48 pre=abcdefghijklmn suf=xyz depth=3"), ("tree-256", "fam=2 fill=253 win=3 depth=2", "fam=2 fill=253 win=4 depth=3")):
    q.append(direct(n, "art", a))
    t.append(direct(n, "art", b))
for nm, a, b in (("set", "depth=4 set=1", "depth=6 set=1"), ("set-64", "depth=3 set=1 fill=62", "depth=4 set=1 fill=62")):
    q.append(direct(nm, "hashtab", a)); t.append(direct(nm, "hashtab", b))
CHECKS["C11"] = Check(q, t)

# ---------------------------------------------------------------------------------------------------- locks and mapped regions
q, t = [], []


def lock(name, args_q, args_t=None, **k):
    q.append(sim(name, "lock", args_q, **k))
    t.append(sim(name, "lock", args_t or args_q, **k))


lock("lock-2clients", "mode=lock depth=4 nc=2 nr=2", "mode=lock depth=6 nc=2 nr=2")
lock("lock-3clients", "mode=lock depth=5 nc=3 nr=1", "mode=lock depth=6 nc=3 nr=1")
lock("lock-servers", "mode=lock depth=3 nc=2 nr=2 ns=3", "mode=lock depth=5 nc=2 nr=2 ns=3")
lock("lock-2d", "mode=lock depth=3 nc=2 nr=2 nd=2 len=4", "mode=lock depth=4 nc=2 nr=2 nd=2 len=4")
lock("lock-grid-2d", "mode=lock depth=3 nc=2 nr=3 nd=2 len=4 grid=1", "mode=lock depth=4 nc=2 nr=3 nd=2 len=4 grid=1")
lock("lock-grid-3d", "mode=lock depth=3 nc=2 nr=3 nd=3 len=4 grid=1", "mode=lock depth=4 nc=2 nr=3 nd=3 len=4 grid=1 ns=2")
lock("lock-mem", "mode=lock depth=3 nc=2 nr=2", "mode=lock depth=4 nc=3 nr=1", v="asan")
lock("map-1client", "mode=map depth=5 nc=1 nr=2", "mode=map depth=6 nc=1 nr=3")
lock("map-2clients", "mode=map depth=4 nc=2 nr=2 ns=2", "mode=map depth=5 nc=2 nr=2 ns=2")
lock("map-read", "mode=map depth=5 nc=2 nr=1 xfer=2", "mode=map depth=6 nc=2 nr=1 xfer=2")
lock("map-2d", "mode=map depth=4 nc=1 nr=2 nd=2 len=4", "mode=map depth=5 nc=2 nr=2 nd=2 len=4")
lock("map-3d", "mode=map depth=4 nc=1 nr=2 nd=3 len=4 xfer=2", "mode=map depth=5 nc=1 nr=2 nd=3 len=4 xfer=2")
lock("map-grid-2d", "mode=map depth=4 nc=1 nr=2 nd=2 len=4 grid=1 xfer=2", "mode=map depth=4 nc=2 nr=3 nd=2 len=4 grid=1 xfer=2 ns=2")
lock("map-grid-3d", "mode=map depth=4 nc=1 nr=2 nd=3 len=4 grid=1 xfer=2", "mode=map depth=4 nc=2 nr=3 nd=3 len=4 grid=1 xfer=2 ns=2")
lock("map-grid-mem", "mode=map depth=3 nc=1 nr=3 nd=2 len=4 grid=1 xfer=2", "mode=map depth=3 nc=2 nr=3 nd=3 len=4 grid=1 xfer=2", v="asan")
lock("map-mem", "mode=map depth=3 nc=2 nr=2 xfer=2", "mode=map depth=4 nc=2 nr=2 xfer=2", v="asan")
b = "sched=1 deliver=1 "
lock("race-2clients", b + "mode=race nc=2 nr=2 depth=2 budget=1", b + "mode=race nc=2 nr=2 depth=2 budget=2")
lock("race-3clients", b + "mode=race nc=3 nr=1 depth=2 budget=1", b + "mode=race nc=3 nr=1 depth=2 budget=2")
lock("race-servers", b + "mode=race nc=2 nr=2 depth=1 ns=2 budget=3", b + "mode=race nc=3 nr=2 depth=1 ns=2 budget=2")
lock("race-map", b + "mode=maprace nc=2 nr=2 depth=1 budget=3", b + "mode=maprace nc=2 nr=2 depth=2 budget=2")
lock("race-map-3clients", b + "mode=maprace nc=3 nr=3 depth=1 ns=2 budget=1", b + "mode=maprace nc=3 nr=3 depth=1 ns=2 budget=2")
lock("race-map-grid", b + "mode=maprace nc=2 nr=2 depth=1 nd=2 len=4 grid=1 budget=2", b + "mode=maprace nc=2 nr=2 depth=2 nd=3 len=4 grid=1 budget=2")
lock("race-map-mem", b + "mode=maprace nc=2 nr=2 depth=1 budget=2", b + "mode=maprace nc=2 nr=2 depth=2 budget=1", v="asan")
lock("lock-many", "mode=lock depth=3 nc=2 nr=2 fill=90 ns=2", "mode=lock depth=4 nc=3 nr=2 fill=150 ns=2")
lock("lock-many-mem", "mode=lock depth=1 nc=2 nr=2 fill=40", "mode=lock depth=2 nc=2 nr=2 fill=40", v="asan")
lock("map-many", "mode=map depth=3 nc=1 nr=2 fill=60 ns=2 xfer=2", "mode=map depth=3 nc=2 nr=2 fill=150 ns=2 xfer=2")
lock("map-many-mem", "mode=map depth=1 nc=2 nr=2 fill=40 ns=1", "mode=map depth=2 nc=1 nr=2 fill=40 ns=1", v="asan")
lock("race-map-late-data", b + "mode=maprace nc=2 nr=2 depth=1 budget=2 bulkpark=1", b + "mode=maprace nc=2 nr=2 depth=2 budget=2 bulkpark=1")
CHECKS["C13"] = Check(q, t)

# ---------------------------------------------------------------------------------------------------- collective calls
q, t = [], []


def col(name, args_q, args_t=None, driver="col", **k):
    q.append(sim(name, driver, args_q, **k))
    t.append(sim(name, driver, args_t or args_q, **k))


col("two-clients", "depth=3 nc=2 ns=2", "depth=4 nc=2 ns=2")
col("three-clients", "depth=2 nc=3 ns=2 nn=3", "depth=3 nc=3 ns=2 nn=3")
col("more-servers", "depth=2 nc=2 ns=3 nvar=3", "depth=3 nc=2 ns=3 nvar=3")
col("uneven-servers", "depth=2 nc=3 ns=5", "depth=3 nc=3 ns=5")
col("one-server", "depth=2 nc=3 ns=1", "depth=3 nc=3 ns=1")
col("one-client", "depth=2 nc=1 ns=2", "depth=3 nc=1 ns=2")
col("memory", "depth=2 nc=2 ns=2", "depth=3 nc=2 ns=2", v="asan")
for p in PART:
    s = " safe=1" if p >= 2 else ""
    col(f"transfer-{PART[p]}", f"mode=multi nc=2 nd=1 d0=2 part={p}{s} col=1 root={p & 1} deliver=1 budget=1 depth=1 ns={2 + (p > 1)}", f"mode=multi nc=3 nd=1 d0=2 part={p}{s} col=1 root={p & 1} deliver=1 budget=1 depth=1 ns=2", driver="region")
col("index", "qmpi=1 depth=1 nc=2 ns=2", "qmpi=1 depth=2 nc=2 ns=2 nid=1", driver="dart")
col("index-suffixes", "qmpi=1 depth=1 nc=3 ns=2 kv=1 vv=1", "qmpi=1 depth=2 nc=3 ns=2 kv=1 vv=1 nkey=2 nval=2", driver="dart")
col("index-more-servers", "qmpi=1 depth=2 nc=2 ns=3 nid=1 nkey=2 nval=2", "qmpi=1 depth=2 nc=2 ns=3 nid=1", driver="dart")
col("index-memory", "qmpi=1 depth=1 nc=2 ns=2 nid=1", "qmpi=1 depth=2 nc=3 ns=2 nid=1 nkey=2 nval=2", driver="dart", v="asan")
col("many", "depth=1 nc=2 ns=3 fill=100", "depth=2 nc=3 ns=3 fill=140")
col("many-three-clients", "depth=1 nc=3 ns=2 nn=3 fill=60", "depth=2 nc=3 ns=2 nn=3 fill=60")
CHECKS["C16"] = Check(q, t)

# ---------------------------------------------------------------------------------------------------- pdc_ls
q, t = [], []


def ls(name, args_q, args_t=None, **k):
    q.append(sim(name, "ls", args_q, **k))
    t.append(sim(name, "ls", args_t or args_q, **k))


ls("one-server", "ns=1 depth=3", "ns=1 depth=4")
ls("two-servers", "ns=2 depth=3", "ns=2 depth=4")
ls("two-objects", "ns=2 depth=3 pre=2", "ns=2 depth=4 pre=2")
ls("three-objects", "ns=3 depth=2 pre=3 no=3", "ns=3 depth=4 pre=3 no=3 kv=0")
for p in (1, 2, 3):
    ls(f"regions-{PART[p]}", f"ns=3 depth=3 pre=2 kv=0 part={p}", f"ns=3 depth=4 pre=3 no=3 kv=0 part={p}")
ls("no-containers-on-a-server", "ns=5 depth=2 pre=2", "ns=5 depth=3 pre=2")
ls("memory", "ns=2 depth=2 pre=2", "ns=2 depth=3 pre=2", v="asan")
for p in PART:
    ls(f"many-{PART[p]}", f"ns={2 + p % 2} depth=1 pre=2 fill=100 fillc=20 part={p}", f"ns={2 + p % 2} depth=2 pre=2 fill=100 fillc=20 part={p}")
ls("many-one-server", "ns=1 depth=1 pre=2 fill=110 fillc=40", "ns=1 depth=2 pre=3 no=3 fill=110 fillc=100")
CHECKS["C17"] = Check(q, t)

# ---------------------------------------------------------------------------------------------------- the libraries below


def dboth(name, driver, args_q, args_t=None, **k):
    q.append(direct(name, driver, args_q, **k))
    t.append(direct(name, driver, args_t or args_q, **k))


# C18 collections
q, t = [], []
dboth("deque", "coll", "what=deque depth=5", "what=deque depth=9")
dboth("deque-grown", "coll", "what=deque depth=3 long=1", "what=deque depth=6 long=1")
dboth("deque-grown-front", "coll", "what=deque depth=3 long=2", "what=deque depth=6 long=2")
dboth("deque-large", "coll", "what=deque depth=3 fill=255", "what=deque depth=4 fill=511")
dboth("deque-huge", "coll", "what=deque depth=2 fill=1023", "what=deque depth=4 fill=1023")
dboth("vector-large", "coll", "what=vector depth=2 fill=1000", "what=vector depth=3 fill=3000")
dboth("vector", "coll", "what=vector depth=6", "what=vector depth=9")
dboth("sets", "coll", "what=sets win=6", "what=sets win=8")
dboth("sets-large", "coll", "what=sets win=5 fa=60 fb=70", "what=sets win=6 fa=120 fb=150")
dboth("words", "coll", "what=words len=3", "what=words len=4")
for nm, a, b in (("table", "depth=5", "depth=6"), ("table-64", "depth=3 fill=62", "depth=4 fill=62"), ("table-129", "depth=2 fill=127", "depth=4 fill=127"), ("table-257", "depth=2 fill=254", "depth=3 fill=254")):
    dboth(nm, "hashtab2", a, b)
dboth("set-changes", "hashtab2", "depth=5 set=1", "depth=6 set=1")
dboth("set-changes-64", "hashtab2", "depth=3 set=1 fill=62", "depth=4 set=1 fill=62")
dboth("set-changes-129", "hashtab2", "depth=2 set=1 fill=128", "depth=4 set=1 fill=128")
CHECKS["C18"] = Check(q, t)

# C19 tags as text and generated queries
q, t = [], []
dboth("tag-lists", "tagtext", "what=list tags=3", "what=list tags=4")
dboth("tag-lists-long", "tagtext", "what=list tags=2 pad=3", "what=list tags=3 pad=5")
dboth("tag-lists-many", "tagtext", "what=list tags=1 pad=250", "what=list tags=2 pad=100")
dboth("queries-long", "tagtext", "what=gen len=3 long=60", "what=gen len=4 long=150")
dboth("strings-long", "tagtext", "what=str len=4 long=40", "what=str len=6 long=200")
dboth("queries", "tagtext", "what=gen len=4", "what=gen len=5")
dboth("strings", "tagtext", "what=str len=6", "what=str len=9")
CHECKS["C19"] = Check(q, t)

# C20 thread pool
q, t = [], []
for sc, jq, bq, jt, bt in (("rounds", 2, 2, 2, 3), ("slow", 2, 2, 3, 3), ("nested", 2, 2, 3, 2), ("waiters", 2, 2, 3, 2), ("adders", 2, 2, 3, 2), ("destroy", 2, 2, 2, 3), ("pools", 2, 1, 2, 2)):
    dboth(sc, "pool", f"scen={sc} jobs={jq} budget={bq} rounds={1 if sc == 'rounds' else 2}", f"scen={sc} jobs={jt} budget={bt} threads=3")
for sc in ("rounds", "destroy", "waiters", "pools"):
    dboth(sc + "-unlocked", "pool", f"scen={sc} jobs=2 budget=1 early=1", f"scen={sc} jobs=2 budget=2 early=1")
dboth("many-jobs", "pool", "scen=rounds many=400 rounds=2 budget=0 steps=2000000 threads=3", "scen=rounds many=100 rounds=1 budget=1 steps=2000000 threads=3")
dboth("three-threads", "pool", "scen=rounds jobs=3 budget=1 threads=3", "scen=rounds jobs=4 budget=2 threads=3")
CHECKS["C20"] = Check(q, t)

# C21 histograms
q, t = [], []
dboth("elements", "hist", "what=one n=2", "what=one n=3")
dboth("elements-50", "hist", "what=one n=1 fifty=1", "what=one n=3 fifty=1")
dboth("elements-bins", "hist", "what=one n=1 nbins=30", "what=one n=2 nbins=80")
dboth("sampled", "hist", "what=gen seeds=10", "what=gen seeds=100")
dboth("merged", "hist", "what=merge", "what=merge n=2")
dboth("merged-three", "hist", "what=merge parts=3 values=4", "what=merge parts=3 values=5")
CHECKS["C21"] = Check(q, t)

# C23 bloom filter
q, t = [], []
dboth("filter", "bloom", "what=count depth=4", "what=count depth=6 win=5")
dboth("growing-filter", "bloom", "what=scale depth=4", "what=scale depth=6 win=5")
meta("many-versions", "mode=obj fillts=70 ns=1 depth=1 nn=2 nvar=1 list=0 restart=1 after=1", "mode=obj fillts=140 ns=2 depth=2 nn=2 nvar=1 restart=1 after=1")
CHECKS["C23"] = Check(q, t)

# ---------------------------------------------------------------------------------------------------- applications one after another
# same=MASK: bit p: phase p is the next application on the servers of phase p-1, else the servers are restarted before it;
# apps=213: the applications have 2, 1 and 3 clients; die=1: an application ends without closing anything
q, t = [], []
for p in PART:
    both(f"apps-data-{PART[p]}", f"mode=seq nd=1 d0=2 part={p} ns=2 depth=1 reads=0 restart=2 after=1 same={(6, 2, 4, 6)[p]} objs=2", f"mode=seq nd=1 d0=2 part={p} ns=2 depth=1 reads=0 restart=2 after=1 same={(2, 6, 6, 4)[p]} objs=2 apps=122")
    both(f"apps-data-2d-{PART[p]}", f"mode=seq nd=2 d0=2 d1=2 part={p} ns=2 depth=1 reads=0 restart=3 after=1 same=10 unit=8 nreg=4", f"mode=seq nd=2 d0=2 d1=2 part={p} ns=2 depth=2 reads=0 restart=2 after=1 same=6 unit=8 nreg=4")
    both(f"apps-die-{PART[p]}", f"mode=seq nd=1 d0=2 part={p} ns=2 depth=1 reads=0 restart=2 after=1 same={(2, 6, 2, 6)[p]} objs=2 nreg=2 die=1", f"mode=seq nd=1 d0=2 part={p} ns=3 depth=2 reads=0 restart=2 after=1 same={(6, 2, 6, 2)[p]} die=1")
both("apps-data-3d", "mode=seq nd=3 d0=2 d1=2 d2=2 part=1 ns=2 depth=1 reads=0 restart=2 after=1 same=2 nreg=4", "mode=seq nd=3 d0=2 d1=2 d2=2 part=1 ns=2 depth=2 reads=0 restart=2 after=1 same=6 nreg=4")
both("apps-data-clients", "mode=seq nd=1 d0=2 part=1 ns=2 depth=1 reads=0 restart=3 after=1 same=6 nreg=2 apps=2131", "mode=seq nd=1 d0=2 part=1 ns=3 depth=1 reads=0 restart=3 after=1 same=10 nreg=3 apps=1321")
both("apps-data-mem", "mode=seq nd=1 d0=2 part=1 ns=2 depth=1 reads=0 restart=2 after=1 same=2", "mode=seq nd=1 d0=2 part=1 ns=2 depth=1 reads=0 restart=2 after=1 same=6 objs=2 die=1", v="asan")
both("apps-data-grow", "mode=seq nd=1 d0=2 part=1 ns=3 depth=1 reads=0 restart=1 after=1 same=2 objs=3 nreg=2 apps=12", "mode=seq nd=1 d0=2 part=1 ns=3 depth=1 reads=0 restart=2 after=1 same=6 objs=3 nreg=2 apps=132", v="asan")
both("apps-data-far", "mode=seq nd=1 d0=2 x0=4294967296 part=2 ns=2 depth=1 reads=0 restart=2 after=1 same=2", "mode=seq nd=1 d0=2 x0=4294967296 part=1 ns=2 depth=2 reads=0 restart=2 after=1 same=6")
both("nocache-apps", "mode=seq nd=1 d0=2 part=1 ns=2 depth=1 reads=0 restart=2 after=1 same=2 objs=2", "mode=seq nd=2 d0=2 d1=2 part=1 ns=2 depth=2 reads=0 restart=2 after=1 same=6 nreg=4", v="nocache")
mix("apps-mixed", "pre=2 depth=1 no=6 ns=2 restart=2 after=1 same=2", "pre=2 depth=2 no=6 ns=2 restart=2 after=1 same=6")
mix("apps-mixed-lookup-all", "env:PDC_CLIENT_LOOKUP=ALL pre=1 depth=1 no=6 ns=3 restart=1 after=1 same=2 apps=23", "env:PDC_CLIENT_LOOKUP=ALL pre=2 depth=1 no=6 ns=3 restart=2 after=1 same=6 apps=131", v="asan")
mix("apps-mixed-lookup-none", "env:PDC_CLIENT_LOOKUP=NONE pre=1 depth=1 no=6 ns=3 restart=1 after=1 same=2 apps=13", "env:PDC_CLIENT_LOOKUP=NONE pre=2 depth=1 no=6 ns=3 restart=2 after=1 same=6 apps=231", v="asan")
mix("apps-mixed-die", "pre=2 depth=1 no=4 ns=3 restart=2 after=1 same=6 die=1", "pre=2 depth=2 no=4 ns=3 restart=2 after=1 same=2 die=1")
mix("apps-mixed-mem", "pre=2 depth=1 no=2 restart=2 after=1 same=2", "pre=2 depth=1 no=4 ns=2 restart=2 after=1 same=6", v="asan")
meta("apps-objects", "mode=obj depth=1 nn=2 nvar=2 ns=2 restart=2 after=1 list=0 same=2 apps=211", "mode=obj depth=1 nn=2 nvar=2 ns=3 restart=2 after=1 same=6 apps=213")
meta("apps-objects-ids", "mode=obj depth=2 nn=2 nvar=2 ns=2 restart=2 newobj=1 list=0 same=2 after=0", "mode=obj depth=2 nn=2 nvar=2 ns=2 restart=2 newobj=1 same=6 after=1")
meta("apps-tags", "mode=tag depth=1 nn=1 nnc=1 nv=3 ns=2 restart=2 after=1 query=1 list=0 same=2", "mode=tag depth=1 nn=2 nnc=1 nv=3 ns=2 restart=2 after=1 query=1 same=6 die=1")
meta("apps-containers", "mode=cont depth=1 nnc=2 ns=2 restart=2 after=1 newobj=1 same=6 die=1", "mode=cont depth=2 nnc=2 ns=2 restart=2 after=1 newobj=1 same=2")
meta("apps-many", "mode=tag depth=1 nn=2 nnc=1 fill=60 fillt=1 fillk=40 fillc=30 ns=2 query=1 restart=2 same=2", "mode=tag depth=1 nn=2 nnc=1 fill=60 fillt=1 fillk=40 fillc=30 ns=2 query=1 restart=3 after=1 same=10")
meta("apps-mem", "mode=tag depth=1 nn=1 nnc=1 nv=3 ns=2 restart=1 after=1 query=1 list=0 same=2", "mode=tag depth=1 nn=1 nnc=1 nv=3 ns=2 restart=2 after=1 query=1 list=0 same=6 die=1", v="asan")
conc("apps-races", "what=obj kinds=9 names=2 ns=2 restart=2 same=6 budget=1", "what=obj kinds=9 names=2 ns=2 restart=2 same=2 budget=2 die=1")
conc("apps-container-races", "what=cont kinds=7 names=2 restart=1 budget=1 same=2", "what=cont kinds=7 names=2 restart=2 budget=2 same=6")
dart("apps-index", "kv=0 vv=0 ns=2 depth=1 restart=2 same=6 after=1 apps=213 nkey=2 nval=1 nid=1", "kv=0 vv=0 ns=2 depth=1 restart=2 same=6 after=1 apps=213 nkey=2 nval=2 nid=1 die=1")
dart("apps-index-suffixes", "kv=1 vv=1 ns=2 depth=1 restart=1 same=2 after=1 die=1", "kv=1 vv=1 ns=3 depth=2 restart=1 same=2 after=1 nid=1")
for p in PART:
    both(f"apps-other-maker-{PART[p]}", f"mode=seq nd=1 d0=2 part={p} ns=2 maker=1 depth=1 reads=0 nreg=2 restart=2 after=1 same={(2, 6, 2, 6)[p]} apps=213", f"mode=seq nd=1 d0=2 part={p} ns=3 maker=2 depth=2 nreg=2 restart=2 after=1 same={(6, 2, 6, 2)[p]} apps=312")
both("apps-data-uneven", "mode=seq nd=1 d0=5 part=1 ns=3 depth=1 reads=0 restart=2 after=1 same=2 nreg=5", "mode=seq nd=1 d0=5 part=1 ns=3 depth=1 reads=0 restart=3 after=1 same=6")
CHECKS["C22"] = Check(q, t)
