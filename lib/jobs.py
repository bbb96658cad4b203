"""What each property's check explores."""
import os
import vbuild
from vbuild import ALL, CONFIGS, VERIF

COMMON_ASSUMPTIONS = [
    "threads interleave at synchronisation operations and at racing memory accesses found by happens-before analysis of earlier rounds; "
    "sequential consistency except where --tso is given",
    "the embedder used is harness/mc-embedder.h",
]


class Job:
    def __init__(self, name, build, args=(), time=120, cpus=2, weight=1.0):
        self.name, self.build, self.args, self.time, self.cpus, self.weight = name, build, [str(a) for a in args], time, cpus, weight
        self.binary = None
        self.build_error = ""


def optargs(opts):
    r = []
    for k, v in opts.items():
        r += ["--opt", "%s=%s" % (k, v)]
    return r


def heap(scenario, config, debug=0, args=(), time=120, cpus=2, weight=1.0, tag="", defs=(), **opts):
    if config == "generational-pcc":       # with less, every collection is a major one
        opts["heap"] = max(8 << 20, int(opts.get("heap", 0)))
    name = "%s/%s%s%s" % (scenario, config, "/debug" if debug else "", "/" + tag if tag else "")
    return Job(name, lambda: vbuild.build_heap(config, scenario, debug, defs=defs), list(args) + optargs(opts), time, cpus, weight)


COMP_FLAGS = ["-DGC_PRECISE_ROOTS=1", '-DGC_EMBEDDER="%s/harness/mc-embedder.h"' % VERIF, '-DGC_ATTRS="%s/api/mmc-attrs.h"' % vbuild.REPO]
SMALL = "-DGC_MC_SMALL_WORKLISTS"


def comp(scenario, tag="", flags=(), srcs=(), san=True, opt="-O2", args=(), debug=0, time=200, cpus=2, weight=1.5, **opts):
    """A component harness: harness/<scenario>.c includes the headers it exercises."""
    o = ",".join("%s=%s" % (k, v) for k, v in opts.items())
    a = ",".join(x.lstrip("-") for x in map(str, args)).replace("bound,", "b")
    name = "/".join(x for x in (scenario, tag, o, a, "debug" if debug else "") if x)
    return Job(name, lambda: vbuild.build_component(scenario, COMP_FLAGS + list(flags), san=san, opt=opt, srcs=srcs, debug=debug),
               list(args) + optargs(opts), time, cpus, weight)


SEQ = ["--no-hb"]
MMC = [c for c in ALL if CONFIGS[c]["collector"] == "mmc"]
PRECISE_MMC = [c for c in MMC if CONFIGS[c]["roots"] == "precise"]
CONS_MMC = [c for c in MMC if CONFIGS[c]["roots"] == "conservative"]
HEAPCONS = [c for c in MMC if CONFIGS[c]["heapcons"]]
GEN = [c for c in ALL if CONFIGS[c]["generational"]]
NONSEMI = [c for c in ALL if c != "semi"]


def ops(config, alpha, depth, pre="", post="", debug=0, tag=None, **kw):
    o = dict(alpha=alpha, depth=depth, pre=pre, post=post)
    o = {k: v for k, v in o.items() if v != ""}
    o.update(kw.pop("opts", {}))
    return heap("sc_ops", config, debug, SEQ, tag=(tag or "%s^%d%s" % (alpha, depth, "@" + pre if pre else "")), **kw, **o)


def conc(config, bound, t0, t1, t2="", pre="", post="", par=1, alpha="", debug=0, args=(), weight=1.5, time=200, **kw):
    o = dict(pre=pre, t0=t0, t1=t1, t2=t2, post=post, alpha=alpha)
    o = {k: v for k, v in o.items() if v != ""}
    # nofl: a 512 KB heap keeps the number of blocks, and so of scheduling points, small
    o["heap"] = kw.pop("heap", 1 << 19 if CONFIGS[config]["collector"] == "mmc" else 1 << 21)
    o["par"] = par
    o.update(kw.pop("opts", {}))
    tag = ",".join("%s=%s" % (k, v) for k, v in o.items() if k != "heap") + ",b%d" % bound
    if kw.pop("small", 0):
        kw["defs"] = (SMALL,)
        tag += ",small"
    return heap("sc_conc", config, debug, ["--bound", bound] + list(args), tag=tag, time=time, weight=weight, **o)


def progs(js, configs, tier, alpha, t0="**", t1="**", extra="", **kw):
    """All pairs of short programs over an alphabet, under every schedule with one preemption."""
    for c in configs:
        # stack scanning multiplies scheduling points, and generational pcc needs a larger heap
        cons = (CONFIGS[c]["roots"] == "conservative" or c == "generational-pcc") and tier == "quick"
        js.append(conc(c, 1, (t0.replace("*", "", 1) if cons else t0) + ("*" if tier == "thorough" else ""), t1, alpha=alpha + (extra if tier == "thorough" else ""),
                       weight=3, cpus=4, time=300 if tier == "quick" else 1800, **kw))


PAR = [c for c in ALL if CONFIGS[c]["parallel"]]
# one configuration per distinct mix of features, for the costlier explorations
CORE = ["pcc", "generational-pcc", "mmc", "parallel-generational-mmc", "stack-conservative-parallel-mmc",
        "heap-conservative-parallel-generational-mmc"]

PROPS = {}
NOT_APPLICABLE = {}


def prop(id, level="model_checking", bounds="", rule="", assumptions=()):
    def deco(f):
        PROPS[id] = dict(level=level, jobs=f, bounds=bounds, rule=rule, assumptions=list(assumptions))
        return f
    return deco


@prop("C01")
def c01(tier):
    d = 1 if tier == "thorough" else 0
    js = []
    for c in ALL:
        js.append(ops(c, "abslx123g", 4 + d))
        js.append(ops(c, "anstdwhBx23", 3 + d, pre="as2"))
        js.append(ops(c, "lkstex12G", 3 + d, pre="lks2"))
        js.append(ops(c, "absx123", 3 + d, pre="abs2bt", debug=1))
        if c != "semi":
            js.append(ops(c, "absfEx123gO", 3 + d, pre="as1"))
        if c in HEAPCONS:       # untagged conservatively traced objects
            js.append(ops(c, "cCbstdex23g", 3 + d))
    return js


@prop("C06")
def c06(tier):
    d = 1 if tier == "thorough" else 0
    js = []
    for c in MMC:
        js.append(ops(c, "abqstx23g", 4 + d))
        js.append(ops(c, "nqrwsxy3gj", 3 + d, pre="mqn3"))
    return js


@prop("C05")
def c05(tier):
    d = 1 if tier == "thorough" else 0
    js = []
    for c in GEN:
        js.append(ops(c, "abstSx1e2", 4 + d, pre="as22"))
        js.append(ops(c, "abkstSx1e", 4 + d, pre="l22"))
        js.append(ops(c, "bkEfdt1x", 3 + d, pre="as1"))
        js.append(ops(c, "bstwx1g", 4 + d, pre="m1"))
        js.append(ops(c, "bst13g", 4 + d, pre="m2", debug=1))
        js.append(ops(c, "b=1y2gs", 4 + d, pre="a22b=1", opts=dict(nf=600, small=16, heap=2 << 20)))
    return js


@prop("C08")
def c08(tier):
    d = 1 if tier == "thorough" else 0
    js = []
    for c in NONSEMI + ["semi"]:
        js.append(ops(c, "ENRTUxywY12", 3 + d, pre="ab"))
        js.append(ops(c, "ENRxy123t", 3 + d, pre="abE1"))
        js.append(ops(c, "ENRxyl12k", 3 + d, pre="lkE2", debug=1))
        js.append(ops(c, "NRUxy12b", 3 + d, pre="abENRNRbNR"))
    return js


@prop("C10")
def c10(tier):
    d = 1 if tier == "thorough" else 0
    js = []
    for c in ALL:
        js.append(ops(c, "fvJxystoK2", 3 + d, pre="ab", post="O"))
        js.append(ops(c, "fvJxyo123OE", 3 + d, pre="abf1"))
        js.append(ops(c, "fvJxyO12a", 3 + d, pre="lk2", debug=1))
    return js


@prop("C28")
def c28(tier):
    d = 1 if tier == "thorough" else 0
    js = []
    for c in ALL:
        if c in HEAPCONS:      # a conservatively traced field cannot denote an external object
            js.append(ops(c, "Xbs12ydSI", 4 + d, pre="Xb"))
        elif c in GEN:         # the embedder has no write barrier for external objects: they stay rooted
            js.append(ops(c, "bst12Syek", 4 + d, pre="Xb"))
            js.append(ops(c, "bst12Syeg", 3 + d, pre="Xb2st1", debug=1))
        else:
            js.append(ops(c, "Xbstw12xyd", 4 + d, pre="Xb"))
            js.append(ops(c, "Xbstw12xyf", 3 + d, pre="Xbs2", debug=1))
    for c in ("semi", "pcc", "generational-pcc", "mmc", "generational-mmc"):
        js.append(ops(c, "2", 1, pre="XbE2", tag="extern-ephemeron-key"))
    return js


@prop("C22")
def c22(tier):
    d = 1 if tier == "thorough" else 0
    js = []
    for c in ALL:
        js.append(ops(c, "lkPstxy12G", 3 + d))
        js.append(ops(c, "abkPstx1G3e", 3 + d, pre="lks2", debug=1))
    return js


@prop("C12")
def c12(tier):
    b = 2 if tier == "quick" else 3
    js = []
    for c in NONSEMI:
        js.append(conc(c, b, "a6;", "b5a", pre="abh"))
        js.append(conc(c, 1, "a;5a", "_a_;", "5;a", pre="abh"))
    progs(js, CORE, tier, "a6_;", extra="L5k", pre="abh")
    return js


@prop("C13")
def c13(tier):
    b = 2 if tier == "quick" else 3
    js = []
    for c in NONSEMI:
        js.append(conc(c, b, "6a", "5a", pre="ab6"))
        js.append(conc(c, 1, "7", "6", "5", pre="ab6"))
        js.append(conc(c, 1, "6a", "~>a<>5<", pre="ab6", args=["--spurious", 1]))
        js.append(conc(c, 1, "k6", "l5k", pre="ab6"))
    progs(js, CORE, tier, "567_", extra="aLk", pre="ab6")
    return js


@prop("C14")
def c14(tier):
    b = 2 if tier == "quick" else 3
    js = []
    for c in NONSEMI:
        js.append(conc(c, b, "b6", "a<>DF", pre="abash", post="d"))
        js.append(conc(c, b, "65", "ab_F", pre="ablh", post="d"))
        js.append(conc(c, 1, "5a", "~>Db<", "~>Dam<", pre="abash2"))
        # stores into old objects, then outside / gone when another thread collects
        js.append(conc(c, b, "5", "bVy_FbVy_", pre="ah22x", post="D5Ddg"))
        js.append(conc(c, b, "5a", "bVy<>DFbVy<", pre="lh22x", post="D5Ddg"))
    progs(js, CORE, tier, "b5_L", extra="6aV", pre="abash2", post="Dd")
    return js


@prop("C17")
def c17(tier):
    b = 2 if tier == "quick" else 3
    js = []
    for c in GEN:
        js.append(conc(c, b, "DbV", "bVbV", pre="ah22x", post="D5Dded5"))
        js.append(conc(c, b, "DbV", "bVbV", pre="lh22x", post="D5Dded5"))
        js.append(conc(c, 1, "DbV5bV", "bV<>DbV", "bV", pre="ah22x", post="D5Dde5", opts=dict(nf=4)))
    progs(js, GEN, tier, "bV5y", "bV**", extra="LkF", pre="ah22", post="D5Ddg")
    b = 4 if tier == "quick" else 6
    js.append(comp("sc_fieldset", args=["--bound", b], w0=1, w1=1, w2=1))
    js.append(comp("sc_fieldset", args=["--bound", b - 1], w0=2, w1=510, w2=1, pre=509))
    js.append(comp("sc_fieldset", args=["--bound", b - 1], w0=2, w1=2, w2=1, clear=520))
    js.append(comp("sc_fieldset", args=["--bound", b - 1], w0=1, w1=1, pre=600, visit=2, clear=30))
    js.append(comp("sc_fieldset", args=["--bound", b], w0=1, w1=511, pre=520, visit=1, clear=530))
    return js


@prop("C18")
def c18(tier):
    b = 2 if tier == "quick" else 3
    js = []
    for c in NONSEMI:
        js.append(conc(c, b, "abm", "bam", pre="abh"))
        js.append(conc(c, b, "lka", "lbk", pre="abh2"))
        js.append(conc(c, 1, "am5b", "nbM" if c in CORE else "nb", pre="abh", debug=1))
    progs(js, CORE, tier, "bmk5", extra="lpL", pre="abh")
    return js


@prop("C15")
def c15(tier):
    b = 2 if tier == "quick" else 3
    js = []
    for c in PAR:
        m = CONFIGS[c]["collector"] == "mmc"
        # shared graph: heap roots and mutator roots reach the same objects
        js.append(conc(c, 1, "6", "", pre="abstuhash", par=2))
        js.append(conc(c, b if not m else 1, "7", "", pre="ahbstEk!sfx", par=2, post="o"))
        js.append(conc(c, 1, "56", "", pre="abhs2bVb!sN", par=3))
        js.append(conc(c, 1, "57", "", pre="lh22bsbtawsE", par=2, args=["--spurious", 1]))
        # worklists of four: a wide graph is shared out and stolen
        js.append(conc(c, b, "6", "", pre="ahbVbVbVbVbVbV!bVbVsN", par=2, small=1, cpus=4, opts=dict(nf=8)))
        js.append(conc(c, 1, "7", "", pre="ahbVbVbVbVbVbVE", par=3, small=1, opts=dict(nf=8)))
    return js


@prop("C16")
def c16(tier):
    t = tier == "thorough"
    js = []
    D = dict(srcs=["gc-platform-gnu-linux.c"])
    S = dict(D, flags=[SMALL], tag="small")
    b = lambda n: ["--bound", n + (1 if t else 0)]
    bt = lambda n: ["--tso"] + b(n)
    js.append(comp("sc_deque", args=b(2), owner="***", fill=2, thieves=2, steals=1, cpus=4, **S))
    js.append(comp("sc_deque", args=bt(2), owner="***", fill=2, thieves=2, steals=1, tso=1, cpus=4, **S))
    js.append(comp("sc_deque", args=b(2), owner="M*", fill=2, skip=3, batch=9, thieves=2, **S))
    js.append(comp("sc_deque", args=bt(4), owner="poppo", thieves=1, steals=2, tso=1, cpus=4, **S))
    js.append(comp("sc_deque", args=bt(3), owner="*o", fill=2, thieves=2, tso=1, cpus=4, **S))
    js.append(comp("sc_deque", args=b(3), owner="p*", fill=4, skip=6, thieves=2, cpus=4, **S))
    js.append(comp("sc_deque", args=bt(3), owner="po", fill=4, skip=6, thieves=1, steals=3, tso=1, cpus=4, **S))
    js.append(comp("sc_deque", args=b(2), owner="**", fill=1, thieves=3, **S))
    js.append(comp("sc_deque", args=b(2), owner="***", thieves=2, **D))
    js.append(comp("sc_deque", args=b(3), owner="**", fill=1, thieves=2, steals=2, cpus=4, **D))
    x = 1 if t else 0
    for dbg in (0, 1):
        js.append(comp("sc_worklist", debug=dbg, part="local", depth=8 + x, **S))
        js.append(comp("sc_worklist", debug=dbg, part="local", depth=6 + x, **D))
        js.append(comp("sc_worklist", debug=dbg, part="simple", depth=4 + x, **D))
        js.append(comp("sc_worklist", debug=dbg, part="root", depth=6 + x, **D))
    js.append(comp("sc_worklist", part="rootconc", roots=3, args=b(4), **D))
    js.append(comp("sc_worklist", part="rootconc", roots=17, consumers=3, args=b(2), **D))
    # the queues in use: a small graph is shared out among tracer threads
    for c in PAR:
        js.append(conc(c, 1, "7", "", pre="abhs2bVb!sN", par=2, small=1))
    return js


@prop("C24",
      rule="every reachable table (up to the stated number of entries) with every insertion, lookup, removal and traversal applied to it")
def c24(tier):
    t = tier == "thorough"
    js = []
    M = lambda **k: js.append(comp("sc_map", "map", san=False, **k))
    S = lambda **k: js.append(comp("sc_map", "set", san=False, flags=["-DSET"], **k))
    for dbg in (0, 1):
        M(debug=dbg, n=8)
        S(debug=dbg, n=12, max=3000000)
    M(n=10, vals=1)
    M(n=10, vals=1, uni=2, max=3000000)
    M(n=9, uni=3, vals=1)
    S(n=11, uni=1, max=3000000)
    S(n=12, uni=2)
    S(n=8, unions=1)
    S(n=16, uni=2, unions=1, max=3000)
    S(n=12, uni=1, unions=1, max=10000)
    P = lambda **k: js.append(comp("sc_splay", san=False, **k))
    P(n=6, vals=2)
    P(n=9, vals=1)
    P(n=8, vals=1, gap=0, debug=1)
    if t:
        M(n=9, time=2000)
        M(n=12, vals=1, max=30000000, time=2000)
        S(n=13, uni=1, max=30000000, time=2000)
        S(n=10, unions=1, time=2000)
        P(n=7, vals=2, time=2000)
        P(n=10, vals=1, time=2000)
    return js


@prop("C25", "exploration", rule="every input of the stated bounded domains, compared with a byte-at-a-time or arithmetic reference")
def c25(tier):
    js = []
    for part in ("scan", "word", "class", "extents", "hash"):
        for dbg in (0, 1):
            js.append(comp("sc_swar", san=False, debug=dbg, part=part))
    return js


CHAIN = ("-DHH_CHAIN=1",)


@prop("C19")
def c19(tier):
    t = tier == "thorough"
    d = 1 if t else 0
    js = []
    for c in ALL:
        js.append(ops(c, "abslx123g", 3 + d, defs=CHAIN, tag="chain abslx123g^%d" % (3 + d)))
        js.append(ops(c, "lGM12fE3", 3 + d, pre="ab", defs=CHAIN, tag="chain lGM12fE3^%d" % (3 + d)))
        js.append(ops(c, "lkMg12s", 3 + d, pre="ls", defs=CHAIN, tag="grow lkMg12s^%d" % (3 + d), opts=dict(policy=1, mult=2)))
    for c in NONSEMI:
        js.append(conc(c, 1 + d, "56", "5<>a", "~>6_", pre="abash2", defs=CHAIN))
        js.append(conc(c, 2 + d, "6;", "5_", pre="abh", defs=CHAIN))
    progs(js, CORE, tier, "56_L", extra="ak", t0="*" if not t else "**", pre="abash2", defs=CHAIN)
    return js


@prop("C21")
def c21(tier):
    t = tier == "thorough"
    js = []
    for par in (0, 1):
        js.append(comp("sc_sizer", flags=("-DGC_PARALLEL=%d" % par,), tag="par%d" % par, args=SEQ, depth=3 if t else 2, cpus=2))
    d = 4 if t else 3
    L = dict(large=3000000)
    for c in ALL:
        par = 2 if "parallel" in c else 1
        for name, heap, o in (("fixed", 16 << 20, dict(policy=0)), ("grow2", 8 << 20, dict(policy=1, mult=2)), ("grow3", 8 << 20, dict(policy=1, mult=3)),
                              ("adapt32", 32 << 20, dict(policy=2)), ("adapt8", 8 << 20, dict(policy=2))):
            a = "lkgGM16xyw" if t else "lkG6xy" if c in CORE + ["semi"] else "lG6x"
            js.append(heapjob(c, name, a, d, heap, dict(L, par=par, **o), t))
        # one allocation bigger than the whole heap; a heap much bigger than what is live
        js.append(heapjob(c, "grow-big", "lkab7xy" if t else "lka7x", d, 8 << 20, dict(policy=1, mult=3, large=12000000), t))
        js.append(heapjob(c, "adapt-big", "lkab7xy" if t else "lka7x", d, 8 << 20, dict(policy=2, large=12000000), t))
        js.append(heapjob(c, "adapt-shrink", "lg7xG", d if t else 2, 256 << 20, dict(policy=2, large=3000000), t, pre="7"))
    for c in ("semi", "pcc", "mmc"):
        js.append(heapjob(c, "maxsize", "l7", 2, 8 << 20, dict(policy=1, mult=4, large=3000000, max=8 << 20), t))
    return js


def heapjob(c, name, alpha, depth, heap, opts, thorough, pre=""):
    j = ops(c, alpha, depth, pre=pre, post="777", tag="%s %s^%d" % (name, alpha, depth), opts=dict(opts, heap=heap))
    return j


@prop("C23", "exploration", rule="every setter call with every boundary value; every string of a grammar of option lists up to a length; each against an independent reading of the manual")
def c23(tier):
    js = []
    n = 6 if tier == "thorough" else 5
    for c in ("semi", "pcc", "generational-pcc", "mmc", "stack-conservative-parallel-generational-mmc"):
        for dbg in (0, 1):
            for cpus in (1, 4, 8, 9, 64):
                js.append(heap("sc_options", c, dbg, SEQ + ["--opt", "cpus=%d" % cpus], tag="setters%d" % cpus, part="setters"))
            js.append(heap("sc_options", c, dbg, SEQ, tag="strings", part="strings", len=n))
            js.append(heap("sc_options", c, dbg, SEQ, tag="numbers", part="numbers", len=n))
            js.append(heap("sc_options", c, dbg, SEQ, tag="many", part="many", len=n))
    return js


@prop("C20", rule="every bucket boundary of six histogram shapes; every multiset of values; every sequence of collections with every combination of kind, times and sizes")
def c20(tier):
    t = tier == "thorough"
    js = []
    for dbg in (0, 1):
        js.append(comp("sc_stats", san=False, debug=dbg, part="bucket"))
        js.append(comp("sc_stats", san=False, debug=dbg, part="multiset", n=6 if t else 5))
        js.append(comp("sc_stats", san=False, debug=dbg, part="stats", depth=3, cpus=4))
    # what the listener counts is what a collector did
    for c in ALL:
        js.append(ops(c, "al1230gG", 3, defs=CHAIN, tag="stats al1230gG^3"))
        js.append(ops(c, "lkMg12s", 3 + t, pre="ls", defs=CHAIN, tag="grow lkMg12s^%d" % (3 + t), opts=dict(policy=1, mult=2)))
    return js


@prop("C02")
def c02(tier):
    t = tier == "thorough"
    js = []
    F = lambda c, tag, dbg=0, **k: js.append(heap("sc_fresh", c, dbg, SEQ, tag=tag, time=1800 if t else 200, **k))
    for c in ALL:
        par = 2 if "parallel" in c else 1
        lo = 1 if c in MMC else 8
        few = {} if t or c in CORE + ["semi"] else dict(set=1)
        F(c, "few^2" if few else "all^2", depth=2, par=par, **few)
        few = {} if t or c in ("mmc", "generational-pcc") else dict(set=1)
        F(c, "few^2" if few else "all^2", 1, depth=2, **few)
        F(c, "growing", set=1, depth=3 if t else 2, policy=1, mult=3, heap=2 << 20)
        F(c, "adaptive", set=1, depth=3 if t else 2, policy=2, pre="lkgM2x", heap=8 << 20)
        if t:
            F(c, "few^3", set=1, depth=3)
            F(c, "few^4", set=1, depth=4, keep=3)
            F(c, "sizes", set=2, lo=lo, n=8500)
        else:
            F(c, "sizes", set=2, lo=lo, n=300 if c in CORE + ["semi"] else 40)
            F(c, "sizes-high", set=2, lo=8120, n=120 if c in CORE + ["semi"] else 80)
            if c in ("generational-pcc", "semi"):
                F(c, "few^3", set=1, depth=3)
    for c in NONSEMI:      # storage handed to two threads at once
        js.append(conc(c, 2 + t, "abpm", "lbap", pre="abgx2", debug=0))
    return js


LEAK = "ablkmnstu=ENRfvJqhH2o"


@prop("C03")
def c03(tier):
    t = tier == "thorough"
    js = []
    L = lambda c, tag, **k: js.append(heap("sc_leak", c, 0, SEQ, tag=tag, time=1800 if t else 200, **k))
    for c in ALL:
        par = 2 if "parallel" in c else 1
        L(c, "rounds^2", depth=2, pre="ab", par=par, alpha=LEAK if c in CORE + ["semi"] or t else "abklstENRfJ2o")
        if t:
            L(c, "rounds^3", depth=3, pre="ab", rounds=4)
            L(c, "rounds-large^3", depth=3, pre="lk2", rounds=4)
        # live objects scattered over the heap, then space wanted in another size
        o = dict(frag=1, depth=2 if t else 1)
        if c in HEAPCONS:                    # objects cannot be moved
            L(c, "scattered", n=150, frac=16, nb=3, par=par, **o)
        elif c in MMC:
            L(c, "scattered", n=150, frac=16, par=par, **o)
            L(c, "scattered16M", n=200, frac=32, heap=16 << 20, frag=1, depth=1)
        else:
            L(c, "scattered", n=150, frac=8 if c == "semi" else 4, **o)
    L("mmc", "scattered-quarter", frag=1, depth=1, heap=16 << 20, n=500, frac=4)
    return js


@prop("C26")
def c26(tier):
    t = tier == "thorough"
    d = 1 if t else 0
    js = []
    for c in ALL:
        par = 2 if "parallel" in c else 1
        O = lambda a, n, tag, ctr=1, **k: js.append(ops(c, a, n, tag="%s %s^%d" % (tag, a, n), opts=dict(ctr=ctr, par=par, **k)))
        if c in MMC:
            O("abmnpgM", 4 + d, "natural")
            O("ablkMg0123GE", 3 + d, "any", ctr=2)
        else:
            O("ablkMg0123", 3 + d, "any")
            O("amnlgGEfp", 3 + d, "natural")
    js.append(ops("mmc", "a2", 2, tag="early-collect", opts=dict(ctr=1)))
    for c in NONSEMI:
        js.append(conc(c, 1, "ab6", "ka6", pre="ab", opts=dict(ctr=2)))
    return js


@prop("C29")
def c29(tier):
    t = tier == "thorough"
    d = 1 if t else 0
    js = []
    P = dict(paths=1)
    for c in ALL:
        js.append(ops(c, "abst12;g", 3, opts=P, tag="paths abst12;g^3"))
        js.append(ops(c, "bkst1x", 3, pre="lb2st", opts=P, tag="paths bkst1x^3"))
        if t or c in CORE:
            js.append(ops(c, "bks12x" if not t else "abkps12x", 3, pre="as", opts=P, debug=1, tag="paths bks12x^3"))
        if t:
            js.append(ops(c, "abks12g", 4, opts=P, tag="paths abks12g^4"))
    for c in NONSEMI:
        for p in (1, 2):
            js.append(conc(c, 1 + d, "aVb6;", "bV5a;", pre="abash2", opts=dict(paths=p)))
    return js


@prop("C30", "fault_enumeration", rule="every choice of up to the stated number of refused requests, among all that are made during every sequence of operations")
def c30(tier):
    t = tier == "thorough"
    js = []
    def J(c, tag, faults, dbg=0, **k):
        js.append(heap("sc_refuse", c, dbg, SEQ + ["--faults", faults], tag=tag, time=1800 if t else 200, **k))
    f = 1 if t else 0
    for c in ALL:
        dbg = 1 if c in ("semi", "pcc", "generational-pcc", "parallel-mmc", "generational-mmc") else 0
        for pol in (0, 2):
            J(c, "start policy%d" % pol, 2 + f, refuse=15, par=2, policy=pol, alpha="fElab", depth=1 + f)
        J(c, "fixed", 1 + f, refuse=3, par=2, alpha="al2G^", depth=2, init=0)
        J(c, "grow", 1 + f, refuse=3, policy=1, mult=3, heap=2 << 20, large=1500000, alpha="lka7G", depth=2 + f, init=0)
        J(c, "adapt", 1 + f, refuse=3, policy=2, heap=4 << 20, large=1500000, alpha="lk7G^", depth=2 + f, init=0)
        J(c, "shrunk", 1 + f, refuse=3, policy=2, heap=16 << 20, pre="lkx7", large=3000000, alpha="l7^G", depth=2, init=0)
        for d in (0, 1) if dbg or t else (0,):
            J(c, "page-out", 1 + f, d, refuse=4, alpha="gGM", depth=2, large=1500000, pre="ggMgM2l^^^^x2", post="MMM", init=0)
            J(c, "page-out2", 1, d, refuse=4, alpha="gGMl", depth=1 + f, large=1500000, pre="ggM2l^^^^xG2", init=0)
        if t or c in CORE + ["semi"]:
            J(c, "page-out-adapt", 1, refuse=4, policy=2, heap=16 << 20, pre="ggM7^^^^" if c != "semi" else "gl7", large=1500000, alpha="l7gM", depth=1 + f, init=0)
    return js


@prop("C04", "exploration", rule="every sequence of fillings of the heap with live data, drops and collections up to the depth, on every collector and sizing policy; termination is only accepted when live data exceeds the stated part of a fixed heap")
def c04(tier):
    t = tier == "thorough"
    js = []
    def J(c, tag, depth, dbg=0, cpu=100, **k):
        js.append(heap("sc_oom", c, dbg, SEQ + ["--cpu", cpu], tag=tag, time=1800 if t else 200, depth=depth, **k))
    for c in ALL:
        dbg = 1 if c in ("semi", "pcc", "generational-pcc", "mmc", "generational-mmc") else 0
        mmc = CONFIGS[c]["collector"] == "mmc"
        size = {"semi": 1 << 20, "pcc": 2 << 20, "generational-pcc": 8 << 20}.get(c, 6 << 20)
        d, k = (5, dict(steps=5)) if t else (3, dict(steps=3))
        J(c, "fixed", d, dbg, heap=size, full=55 if mmc else 38, **k)
        J(c, "growable", d, heap=size, policy=1, mult=2 if mmc else 3, **k)
        J(c, "adaptive", d, heap=size, policy=2, mult=3, **k)
        if mmc:
            J(c, "small", 5 if t else 4, dbg, heap=1 << 20, full=45)
        if c in PAR:
            J(c, "fixed-par", d, heap=size, full=55 if mmc else 38, par=2, **k)
    J("pcc", "growable-tight", 4, cpu=5, heap=2 << 20, policy=1, mult=2)
    return js


@prop("C07", "exploration", rule="every kind of object x age x offset x place of the only word that refers to it x sequence of collections up to the depth; every word around every kind of object and its block, slab and space")
def c07(tier):
    t = tier == "thorough"
    js = []
    def J(c, tag, dbg=0, args=SEQ, **k):
        k.setdefault("heap", 1 << 20)
        js.append(heap("sc_cons", c, dbg, args, tag=tag, time=1800 if t else 200, weight=3, **k))
    d = 1 if t else 0
    for c in CONS_MMC + [c for c in HEAPCONS if c not in CONS_MMC]:
        for dbg in (0, 1) if t or c in ("stack-conservative-mmc", "heap-conservative-generational-mmc") else (0,):
            J(c, "words", dbg, depth=1 + d, place=3 if dbg and not t else -1)
            if not dbg or t or c == "stack-conservative-mmc":
                J(c, "junk", dbg, set=2, depth=1 + d)
        if t or c not in PAR:
            J(c, "words-frag", depth=1 + d, frag=1)
        J(c, "threads", args=SEQ + ["--bound", 0], set=1, depth=1)
        if t or c in ("stack-conservative-mmc", "heap-conservative-generational-mmc"):
            J(c, "threads-b1", args=["--bound", 2 if t else 1], set=1, depth=1, few=1, seq="3M")
        if c in PAR:
            J(c, "words-par", depth=1 + d, par=2)
        # the same heap operations, where words of the stack refer to some of the objects
        js.append(ops(c, "abslx123", 3 + d, pre="abs2bt"))
    return js


@prop("C09", "exploration", rule="every schedule up to the preemption bound of every pair of programs of pushes, traversals and kills; the histories are checked against real-time order")
def c09(tier):
    t = tier == "thorough"
    js = []
    b = 1 if t else 0
    def J(c, bound, dbg=0, extra=(), **k):
        js.append(heap("sc_chain", c, dbg, ["--bound", bound] + list(extra), tag=",".join("%s=%s" % x for x in k.items()), time=1800 if t else 200, cpus=2, **k))
    for c in ("pcc", "generational-mmc") if not t else [c for c in ALL]:
        J(c, 2 + b, t0="**", t1="**", anydead=1)
        if t or c == "pcc":
            J(c, 3 + b, t0="**", t1="**")
        J(c, 4 + b, t0="kt", t1="kt", npre=3)
        J(c, 4 + b, t0="tt", t1="kk", npre=3, anydead=1)
        J(c, 3, extra=["--spurious", 1], t0="pt", t1="kt", npre=2)
        J(c, 3, extra=["--spurious", 2], t0="pp", t1="pt", npre=1)
        J(c, 2 + b, t0="pt", t1="kt", t2="pk")
        J(c, 2 + b, t0="t", t1="kk", t2="kp", npre=3)
        J(c, 1 + b, t0="**t", t1="*t*")
    for c in ("semi", "mmc", "parallel-generational-mmc", "generational-pcc", "heap-conservative-mmc"):
        J(c, 2, 1, t0="k*" if not t else "**", t1="*t" if not t else "**")
    # chains across collections, one mutator after the other
    for c in CORE if t else ["pcc", "generational-mmc"]:
        js.append(ops(c, "aERUx23", 3 + b, pre="aE", tag="seq"))
    return js


@prop("C11", rule="every schedule up to the preemption bound of every pair of programs of attachments and pops")
def c11(tier):
    t = tier == "thorough"
    js = []
    b = 1 if t else 0
    def J(c, bound, dbg=0, extra=(), **k):
        js.append(heap("sc_fin", c, dbg, ["--bound", bound] + list(extra), tag=",".join("%s=%s" % x for x in k.items()) + ",b%d" % bound, time=1800 if t else 200, **k))
    for c in ["semi"] + CORE if not t else ALL:
        cons = CONFIGS[c]["roots"] == "conservative"
        if cons: continue                   # what is on the stack may keep objects alive
        J(c, (2 if t or c == "semi" else 1) + b, t0="**", t1="**", npre=2, att=1)
        J(c, 2 + b, t0="oo", t1="oo", t2="of", npre=3)
        J(c, 2 + b, t0="ff", t1="fv", t2="J", npre=1, att=31)
    for c in ("pcc", "generational-mmc"):
        J(c, (3 if c == "pcc" else 1) + b, 1, t0="**", t1="**", npre=3, att=1)
        J(c, 3 + b, extra=["--spurious", 2], t0="*o", t1="o*", npre=2, att=32)
        if t:
            J(c, 1 + b, t0="***", t1="***", npre=2, att=3)
    for c in NONSEMI:
        js.append(conc(c, 1 + b, "axfx6o", "bJyo5o", pre="abf6"))
        js.append(conc(c, 1 + b, "axfxo", "bJyoo", "6", pre="abfvJxy6ab"))
    progs(js, CORE, tier, "fJo6", t0="*o", extra="vax5", pre="abfvxa6b")
    return js


@prop("C27", rule="every sequence of additions, removals and passing seconds; every schedule and moment for seconds to pass up to the bounds")
def c27(tier):
    t = tier == "thorough"
    js = []
    b = 1 if t else 0
    D = dict(srcs=[])
    for dbg in (0, 1):
        js.append(comp("sc_bg", args=SEQ, debug=dbg, seq=1, pre="", t0="*****" + "*" * b))
        js.append(comp("sc_bg", args=SEQ, debug=dbg, seq=1, pre="zaAz", t0="****" + "*" * b))
    C = lambda bound, ticks, extra=(), **k: js.append(comp("sc_bg", args=["--bound", bound + b, "--ticks", ticks] + list(extra), **k))
    C(3, 2, pre="aza", t0="rr", t1="^A")
    C(1 + b, 1, pre="az", t0="q^*", t1="*^r")
    C(1 + b, 1, pre="a", t0="*^", t1="*r")
    C(3, 2, pre="a", t0="a*r", hurry=1)
    C(1, 1, pre="a", t0="*", t1="*^", hurry=1)
    C(2, 0, ["--spurious", 1], pre="az", early=1, t0="r^", t1="A", spur=1)
    # the tasks of each collector, between operations
    L = dict(large=1500000, heap=8 << 20)
    for c in NONSEMI:
        for name, o in (("fixed", dict(policy=0)), ("growable", dict(policy=1, mult=3)), ("adaptive", dict(policy=2))):
            O = lambda a, n, pre="", **k: js.append(ops(c, a, n, pre=pre, tag="%s %s^%d@%s" % (name, a, n, pre), opts=dict(L, idle=16, **o, **k)))
            if t or c in CORE:
                O("abl^xy7G", 3 + b)
                O("lk^x7M", 3 + b, pre="gGM2^")
            else:
                O("l^x7G", 3, pre="gM2")
        # seconds pass at any moment
        S = dict(args=["--ticks", 2 if c == "pcc" or t else 1])
        js.append(conc(c, 0 + b, "al^6", "", pre="gGM2", heap=2 << 20, opts=dict(large=300000), **S))
        js.append(conc(c, 0 + b, "l^6a", "", pre="ab", heap=4 << 20, opts=dict(policy=2, large=1000000), **S))
        js.append(conc(c, 0 + b, "a^l6", "kb", pre="abgG2", heap=2 << 20, opts=dict(large=200000), args=["--ticks", 1]))
        js.append(conc(c, (1 if t or c in ("pcc", "mmc", "generational-pcc") else 0) + b, "l6^", "_a;", pre="ablgx", heap=2 << 20, opts=dict(large=200000), args=["--ticks", 1]))
    return js
