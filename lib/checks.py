"""What each property's check runs. Each function takes a vrun.Check; returning means the property held
on everything explored."""
from vrun import *

TABLE = {}


def prop(pid):
    def deco(f):
        TABLE[pid] = f
        return f
    return deco


SHAPE_MUT = {
    "default": ["dims", "mins", "maxs", "size"], "new": ["dims", "exts", "strs", "rdims", "iter"],
    "set": ["dims", "size", "fmin", "fmax"], "at": ["offs"], "inr": ["in"], "inri": ["in"], "data": ["data"],
    "facade": ["names", "tdims", "size", "bdims"], "own": ["offs", "size", "data"], "rcase": ["out", "ref", "arr"], "compact": ["out", "vals", "cdims"],
}


WIDE_MUT = {"new": ["maxs", "size"], "set": ["dims"], "resolve": ["strs"], "at": ["offs"], "data": ["data"], "inr": ["in"],
            "inri": ["in"], "slice": ["got"], "permute": ["got"], "setshape": ["got"], "split": ["pieces", "size"], "splitfar": ["size", "dist"],
            "interval": ["max", "clamped"], "walk": ["calls"], "values": ["touched"], "stored": ["read"],
            "copied": ["dval", "pages"], "compared": ["equal", "differ"], "own": ["n", "base"], "compact": ["out", "ost"]}
WIDE_CFG = "CONSTANTS Base = 1024 Limbs = 7\n"


def wide(c, modes, n):
    """The property with numbers as large as the index type allows (WideTrace). Returns jobs and a function which
    validates what they recorded."""
    T = []

    def run(m, n, seed, defs=(), flags=("-O0",), cxx="clang++"):
        b = c.build("wide.cpp", defs=["MODE=%d" % m] + list(defs), flags=flags, cxx=cxx, name="wide%d" % m)
        T.append(c.drive(b, n=n, seed=seed))
    jobs = [lambda m=m: run(m, n, c.seed + m) for m in modes]
    if not c.quick:
        jobs += [lambda: c.model("MC_BigInt", workers=2), lambda: c.model("MC_WideShape", "MC_WideShape_deep.cfg", workers=4)]
        for m in modes:
            jobs += [lambda m=m: run(m, n, c.seed + 100 + m, ("NDARRAY_INT_INDICES",)),
                     lambda m=m: run(m, n, c.seed + 200 + m, ("NDEBUG",), ("-O2",)),
                     lambda m=m: run(m, n, c.seed + 300 + m, (), ("-O2",), "g++")]
            if m in (0, 1, 2, 3):
                jobs += [lambda m=m: run(m, n, c.seed + 400 + m, (), ("-O1", "-fsanitize=address,undefined"))]
    return jobs, lambda: c.trace("WideTrace", T, cfg_extra=WIDE_CFG, mutate=WIDE_MUT)


@prop("C01")
def c01(c):
    # Variants: plain, and with 32-bit indices (a configuration the library documents).
    def run(defs, seeds, n, flags=("-O0",), cxx="clang++"):
        b = c.build("layout.cpp", defs=defs, flags=flags, cxx=cxx)
        return [c.drive(b, mode="hist", n=n, seed=s) for s in seeds]
    if c.quick:
        jobs = [lambda: c.model("MC_Shape", "MC_Shape.cfg", workers=3),
                lambda: run([], [c.seed, c.seed + 1000], 4),
                lambda: run(["NDARRAY_INT_INDICES", "NDEBUG"], [c.seed + 2000], 3),
                lambda: c.model("MC_WideShape", "MC_WideShape.cfg", workers=3)]
    else:
        jobs = [lambda: c.model("MC_Shape", "MC_Shape.cfg", workers=3),
                lambda: c.model("MC_Shape", "MC_Shape_wide2.cfg", workers=3),
                lambda: run([], range(c.seed, c.seed + 6), 20),
                lambda: run(["NDARRAY_INT_INDICES"], range(c.seed + 100, c.seed + 102), 20),
                lambda: run(["NDEBUG"], range(c.seed + 200, c.seed + 202), 20, ("-O2",)),
                lambda: run([], range(c.seed + 300, c.seed + 302), 20, ("-O2",), "g++"),
                lambda: run([], range(c.seed + 400, c.seed + 402), 10, ("-O1", "-fsanitize=address,undefined"))]
    wjobs, wtrace = wide(c, [0, 6], 6 if c.quick else 60)
    res = c.par(*jobs, *wjobs)
    c.trace("ShapeTrace", [t for r in res if isinstance(r, list) for t in r], mutate=SHAPE_MUT)
    wtrace()


@prop("C02")
def c02(c):
    c.model("MC_Shape", "MC_Shape.cfg")
    wjobs, wtrace = wide(c, [0], 12 if c.quick else 100)
    plan, b, *_ = c.par(
        lambda: c.gen("MC_Shape", "MC_Shape_gen.cfg", limit=9000 if c.quick else None, workers=4),
        lambda: c.build("layout.cpp"), lambda: c.model("MC_WideShape", "MC_WideShape.cfg", workers=3), *wjobs)
    traces = [c.drive(b, mode="resolve", plan=plan, n=6, seed=c.seed)]
    if not c.quick:
        c.model("MC_Shape", "MC_Shape_wide2.cfg")
        b2, b3 = c.par(lambda: c.build("layout.cpp", flags=("-O2",), defs=["NDEBUG"]),
                       lambda: c.build("layout.cpp", flags=("-O1",), cxx="g++", defs=["NDARRAY_INT_INDICES"]))
        traces += [c.drive(x, mode="resolve", n=60, seed=c.seed + 10 + k) for k, x in enumerate((b, b, b2, b3))]
    c.trace("ShapeTrace", traces, mutate=SHAPE_MUT)
    wtrace()


@prop("C18")
def c18(c):
    parts = [lambda k=k: c.build("compact.cpp", defs=["PART=%d" % k], name="compact%d" % k) for k in range(4)]
    if not c.quick:
        parts += [lambda k=k: c.build("compact.cpp", defs=["PART=%d" % k, "NDEBUG"], flags=("-O1",),
                                      cxx="g++" if k % 2 else "clang++", name="compactO%d" % k) for k in range(4)]
    wjobs, wtrace = wide(c, (7,), 3 if c.quick else 12)
    res = c.par(lambda: c.model("MC_Shape", "MC_Shape.cfg", workers=2), *parts, *wjobs)
    n = 6 if c.quick else 40
    traces = c.par(*[lambda k=k, b=b: c.drive(b, n=n, seed=c.seed + k) for k, b in enumerate(res[1:1 + len(parts)])])
    c.trace("ShapeTrace", traces, mutate=SHAPE_MUT)
    wtrace()



ITER_MUT = {
    "call": ["x"], "end": ["usable"], "touch": ["o", "r"], "vend": ["mem", "usable"], "gen": [], "fcall": ["x"],
}


def iterate(c, mode, models):
    def run(defs, n, seed, flags=("-O0",), cxx="clang++", parts=(0, 1, 2, 3)):
        bs = c.par(*[lambda k=k: c.build("iterate.cpp", defs=["MODE=%d" % mode, "PART=%d" % k] + defs, flags=flags,
                                         cxx=cxx, name="iterate%d" % k) for k in parts])
        return c.par(*[lambda b=b, k=k: c.drive(b, n=n, seed=seed + k) for k, b in enumerate(bs)])
    # Plain elements (fast paths may depend on the element type), seen through the memory they leave.
    def plain(sets, n, seed, defs=(), flags=("-O0",), cxx="clang++"):
        return [t for r in c.par(*[lambda k=k, e=e: run(["QUIET=1", "ELEM=" + e] + list(defs), n, seed + 10 * k, flags, cxx, (k,))
                                   for k in range(4) for e in sets[k]]) for t in r]
    some = [["int", "bool"], ["char", "double"], ["int", "Pod"], ["unsigned char", "float"]]
    every = ["int", "bool", "char", "unsigned char", "short", "float", "double", "long", "Pod"]
    jobs = [lambda m=m: c.model(*m, workers=3) for m in models]
    if mode > 0:
        jobs += [lambda: plain(some, 6, c.seed + 30)]
        if not c.quick:
            jobs += [lambda: plain([every] * 4, 20, c.seed + 500, ("NDEBUG",), ("-O2",)),
                     lambda: plain(some, 20, c.seed + 600, (), ("-O2",), "g++"),
                     lambda: plain(some, 10, c.seed + 700, (), ("-O1", "-fsanitize=address,undefined"))]
    if c.quick:
        jobs += [lambda: run([], 12, c.seed)]
    else:
        jobs += [lambda: run([], 60, c.seed),
                 lambda: run(["NDARRAY_INT_INDICES"], 20, c.seed + 100),
                 lambda: run(["NDEBUG"], 40, c.seed + 200, ("-O2",)),
                 lambda: run([], 20, c.seed + 300, ("-O2",), "g++"),
                 lambda: run([], 10, c.seed + 400, ("-O1", "-fsanitize=address,undefined"))]
    wjobs, wtrace = wide(c, [3] if mode == 0 else [4], 6 if c.quick else 60)
    res = c.par(*jobs, *wjobs)
    c.trace("IterTrace", [t for r in res if isinstance(r, list) for t in r], mutate=ITER_MUT)
    wtrace()


@prop("C03")
def c03(c):
    iterate(c, 0, [("MC_LoopNest", "MC_LoopNest.cfg")])


@prop("C04")
def c04(c):
    iterate(c, 1, [("LayoutOpt", "MC_LayoutOpt1.cfg"), ("LayoutOpt", "MC_LayoutOpt2.cfg")])


@prop("C20")
def c20(c):
    iterate(c, 2, [("MC_LoopNest", "MC_LoopNest.cfg")])


@prop("C06")
def c06(c):
    mut = {"piece": ["p", "max", "elems", "diffs"], "over": ["size", "walks", "fromend"],
           "access": ["ps", "ds", "eqs"], "interval": ["min", "ext", "max", "iter", "inr", "clamped", "nth"],
           "set": ["min", "ext", "max", "iter", "inr", "clamped"], "range": ["min", "ext", "size"], "compare": ["eq", "within"]}
    def run(defs, n, maxext, seed, flags=("-O0",), cxx="clang++"):
        return [c.drive(c.build("split.cpp", defs=defs, flags=flags, cxx=cxx), n=n, maxext=maxext, seed=seed)]
    jobs = [lambda: c.model("MC_Split", workers=3), lambda: run([], 60, 20, c.seed)]
    if not c.quick:
        jobs += [lambda: run(["NDARRAY_INT_INDICES"], 100, 40, c.seed + 1), lambda: run(["NDEBUG"], 200, 40, c.seed + 2, ("-O2",)),
                 lambda: run([], 200, 60, c.seed + 3, ("-O2",), "g++"),
                 lambda: run([], 50, 30, c.seed + 4, ("-O1", "-fsanitize=address,undefined"))]
    wjobs, wtrace = wide(c, [2], 15 if c.quick else 200)
    res = c.par(*jobs, *wjobs)
    c.trace("SplitTrace", [t for r in res if isinstance(r, list) for t in r], mutate=mut)
    wtrace()


@prop("C07")
def c07(c):
    def run(defs, seed, flags=("-O0",), cxx="clang++", **kw):
        return [c.drive(c.build("zorder.cpp", defs=defs, flags=flags, cxx=cxx), seed=seed, **kw)]
    jobs = [lambda: c.model("MC_ZOrder", "MC_ZOrder.cfg", workers=3), lambda: run([], c.seed, n=12)]
    if not c.quick:
        jobs += [lambda: c.model("MC_ZOrder", "MC_ZOrder_wide.cfg", workers=3),
                 lambda: run([], c.seed, n=30, m1=130, m2=12, m3=5, m4=3),
                 lambda: run(["NDARRAY_INT_INDICES"], c.seed + 1, n=40), lambda: run(["NDEBUG"], c.seed + 2, ("-O2",), n=40),
                 lambda: run([], c.seed + 3, ("-O2",), "g++", n=40),
                 lambda: run([], c.seed + 4, ("-O1", "-fsanitize=address,undefined"), n=20)]
    res = c.par(*jobs)
    c.trace("ZTrace", [t for r in res if isinstance(r, list) for t in r], mutate={"call": ["x"], "end": ["usable"], "begin": []})


VIEW_MUT = {"view": ["res"], "shapeop": ["st", "dims"], "setshape": ["res"], "mreshape": ["res"],
            "peek": ["vals"], "mem": ["mem"], "free": ["block"]}


def views(c, mode, parts):
    def run(defs, n, seed, flags=("-O0",), cxx="clang++"):
        return [t for r in c.par(*[
            lambda k=k: [c.drive(c.build("views.cpp", defs=["MODE=%d" % mode, "PART=%d" % k] + defs, flags=flags, cxx=cxx,
                                         name="views%d_%d" % (mode, k)), n=n, seed=seed + k)] for k in parts]) for t in r]

    def chains(defs, n, seed, plan=None, flags=("-O0",), cxx="clang++"):
        b = c.build("views.cpp", defs=["MODE=0"] + defs, flags=flags, cxx=cxx, name="views0")
        ts = [c.drive(b, n=n, seed=seed)]
        if plan:
            ts.append(c.drive(b, n=0, seed=seed, plan=plan))
        return ts
    q = c.quick
    # First the models and the plans, next to the builds of the typed drivers.
    jobs = [lambda: c.model("MC_Views", "MC_Views.cfg", workers=3),
            lambda: c.model("MC_Views", "MC_Views_out.cfg", workers=3),
            lambda: chains([], 60 if q else 400, c.seed + 50, c.gen("MC_Views", "MC_Views_gen.cfg", limit=1500 if q else None, workers=3)),
            lambda: run([], 6 if q else 20, c.seed)]
    if not q:
        jobs += [lambda: c.model("MC_Views", "MC_Views_3.cfg", workers=4),
                 lambda: c.model("MC_Views", "MC_Views_deep.cfg", workers=4),
                 lambda: run(["NDARRAY_INT_INDICES"], 10, c.seed + 100),
                 lambda: run(["NDEBUG"], 10, c.seed + 200, ("-O2",)),
                 lambda: run([], 10, c.seed + 300, ("-O1",), "g++"),
                 lambda: chains(["NDARRAY_INT_INDICES"], 200, c.seed + 400),
                 lambda: chains(["NDEBUG"], 200, c.seed + 500, None, ("-O2",), "g++")]
    wjobs, wtrace = wide(c, [1], 10 if q else 80)
    res = c.par(*jobs, *wjobs)
    c.trace("ViewTrace", [t for r in res if isinstance(r, list) for t in r], mutate=VIEW_MUT)
    wtrace()


@prop("C05")
def c05(c):
    views(c, 1, range(6))


@prop("C16")
def c16(c):
    views(c, 2, range(6))


TRANSFER_MUT = {"asg": ["d", "v"], "tend": ["mem"], "made": ["vals", "mem"], "conv": ["after", "mem"],
                "eq": ["equal", "eq", "ne"], "mem": ["mem"]}


def transfer(c, mode, parts):
    q = c.quick

    def run(defs, n, seed, flags=("-O0",), cxx="clang++"):
        return [t for r in c.par(*[
            lambda k=k: [c.drive(c.build("transfer.cpp", defs=["MODE=%d" % mode, "PART=%d" % k] + defs, flags=flags, cxx=cxx,
                                         name="transfer%d_%d" % (mode, k)), n=n, seed=seed + k)] for k in parts]) for t in r]

    def dynamic(defs, n, seed, plan=None, flags=("-O0",), cxx="clang++"):
        b = c.build("transfer.cpp", defs=["MODE=0"] + defs, flags=flags, cxx=cxx, name="transfer0")
        ts = [c.drive(b, n=n, seed=seed)]
        if plan:
            ts.append(c.drive(b, n=0, seed=seed, plan=plan))
        return ts
    jobs = [lambda: c.model("MC_Transfer", "MC_Transfer.cfg", workers=2),
            lambda: c.model("MC_Transfer", "MC_Transfer_2.cfg", workers=3),
            lambda: c.model("LayoutOpt", "MC_LayoutOpt2.cfg", workers=2)]
    if mode == 1:
        jobs += [lambda: dynamic([], 30 if q else 300, c.seed + 40,
                                 c.gen("MC_Transfer", "MC_Transfer_gen.cfg", limit=1200 if q else 12000, workers=2))]
    n = (12 if mode == 1 else 6) if q else 40
    jobs += [lambda: run([], n, c.seed)]
    if mode == 1:   # plain elements: fast paths may depend on the element type
        kinds = ["int", "Pod", "Pod8", "double", "short", "float", "long"]

        def plain(k, e, n, seed, flags=("-O0",), cxx="clang++"):
            b = c.build("transfer.cpp", defs=["MODE=1", "PART=%d" % k, "PLAIN=" + e], flags=flags, cxx=cxx, name="transferp%d" % k)
            return [c.drive(b, n=n, seed=seed + k)]
        jobs += [lambda k=k: plain(k, kinds[k], 6, c.seed + 60) for k in parts]
        if not q:
            jobs += [lambda k=k, e=e: plain(k, e, 15, c.seed + 70, ("-O2",), "g++" if k % 2 else "clang++") for k in parts for e in kinds]
    if not q:
        jobs += [lambda: run(["NDARRAY_INT_INDICES"], 20, c.seed + 100),
                 lambda: run(["NDEBUG"], 30, c.seed + 200, ("-O2",)),
                 lambda: run([], 20, c.seed + 300, ("-O2",), "g++"),
                 lambda: run([], 12, c.seed + 400, ("-O1", "-fsanitize=address,undefined"))]
    wjobs, wtrace = wide(c, [5], 6 if q else 30)
    res = c.par(*jobs, *wjobs)
    c.trace("TransferTrace", [t for r in res if isinstance(r, list) for t in r], mutate=TRANSFER_MUT)
    wtrace()


@prop("C08")
def c08(c):
    # Moves out of arrays, which may take over the memory: histories of making arrays from arrays.
    making = c.par(*[
        lambda p=p, d=d: c.drive(c.build("heap.cpp", defs=["PART=%d" % p, "POLS=0,2,5,7", "MAKING"] + d, name="making%d" % p),
                                 n=10 if c.quick else 100, seed=c.seed + 80 + p, micro=0, emph=0, len=10)
        for p, d in ((0, []), (2, []), (4, ["PLAIN=int"]), (5, []), (8, []))])
    c.trace("ArrayTrace", making, cfg_extra='CONSTANT Aspect = "C11"\n', mutate=HEAP_MUT["C11"])
    transfer(c, 1, range(6))


@prop("C09")
def c09(c):
    transfer(c, 2, range(6))


HEAP_MUT = {
    "C10": {"ctor": ["b+", "o+"], "dtor": ["b+", "o+"], "dealloc": ["b+", "n", "al"], "ret": ["arrs.at"], "reshaped": ["arrs.at"]},
    "C11": {"ret": ["arrs.vals", "arrs.dims"], "reshaped": ["arrs.vals"]},
    "C12": {"reshaped": ["arrs.vals", "arrs.dims"]},
    "C13": {"ret": ["arrs.al"], "reshaped": ["arrs.al"], "dealloc": ["al"]},
}
ALL_POLS = list(range(16))


def heap(c, aspect):
    q = c.quick
    extra = 'CONSTANT Aspect = "%s"\n' % aspect
    micro = 0 if aspect == "C11" else 1
    emph = 1 if aspect == "C12" else 0

    def run(part, pols, n, seed, defs=(), flags=("-O0",), cxx="clang++", plan=None, length=10):
        b = c.build("heap.cpp", defs=["PART=%d" % part, "POLS=" + ",".join(map(str, pols))] + list(defs), flags=flags, cxx=cxx,
                    name="heap%d" % part)
        kw = dict(n=n, seed=seed, micro=micro, emph=emph, len=length)
        return [c.drive(b, **kw)] + ([c.drive(b, **dict(kw, n=0, plan=plan))] if plan else [])

    def planned(cfg, part, limit):
        plan = c.gen("MC_Arrays", "MC_Arrays_%s.cfg" % cfg, limit=limit, workers=4)
        return run(part, (0, 7, 10), 10, c.seed + 900, plan=plan)
    n = (20 if aspect == "C11" else 12) if q else 60
    lim = 4000 if q else None
    spread = [[(p + 3 * k) % 16 for k in range(3 if q else 6)] for p in range(10)]
    jobs = [lambda: planned("genP" if aspect in ("C11", "C12") else "gen1", 2 if aspect in ("C11", "C12") else 0, lim),
            lambda: c.model("MC_Arrays", "MC_Arrays_0.cfg", workers=2)]
    if aspect == "C13":
        jobs += [lambda: run(0, ALL_POLS[:8], n, c.seed), lambda: run(0, ALL_POLS[8:], n, c.seed + 1),
                 lambda: run(1, ALL_POLS[:8], n // 2, c.seed + 2), lambda: run(1, ALL_POLS[8:], n // 2, c.seed + 3)]
    jobs += [lambda p=p: run(p, spread[p], n, c.seed + 10 + p) for p in range(10)]
    # Elements that report nothing: fast paths may depend on the element type.
    if aspect in ("C11", "C12"):
        kinds = ["int", "double", "Pod", "int", "long", "float", "Pod", "int", "double", "Pod"]
        some = [0, 2, 4, 6, 8] if q else range(10)
        jobs += [lambda p=p: run(p, spread[(p + 5) % 10][:2], n, c.seed + 400 + p, ("PLAIN=" + kinds[p],)) for p in some]
    # Trivial elements: the memory of an array may be seen in other shapes, and move to arrays of other shapes.
    if aspect in ("C11", "C13"):
        jobs += [lambda: c.model("MC_Arrays", "MC_Arrays_T.cfg" if q else "MC_Arrays_Tdeep.cfg", workers=3)]
        jobs += [lambda p=p: run(p, spread[(p + 7) % 10], n, c.seed + 700 + p, ("PLAIN=" + ("int", "double")[p // 2 % 2], "RESHOW"), length=14)
                 for p in ((0, 2, 4, 8) if q else range(10))]
    if aspect in ("C11", "C12"):
        if not q:
            jobs += [lambda p=p: run(p, spread[(p + 5) % 10], 40, c.seed + 500 + p, ("PLAIN=" + kinds[9 - p], "NDEBUG"), ("-O2",),
                                     "g++" if p % 2 else "clang++") for p in range(10)]
    if not q:
        jobs += [lambda: c.model("MC_Arrays", "MC_Arrays_F.cfg", workers=4), lambda: c.model("MC_Arrays", "MC_Arrays_1.cfg", workers=4),
                 lambda: planned("genF", 1, None),
                 lambda: c.model("MC_Arrays", "MC_Arrays_1deep.cfg", workers=4) if aspect != "C12" else
                         c.model("MC_Arrays", "MC_Arrays_Pdeep.cfg", workers=4)]
        jobs += [lambda p=p: run(p, spread[p], 30, c.seed + 100 + p, ("NDEBUG",), ("-O2",), length=25) for p in range(10)]
        jobs += [lambda p=p: run(p, spread[p][:3], 30, c.seed + 200 + p, (), ("-O2",), "g++") for p in range(10)]
        jobs += [lambda p=p: run(p, spread[p][:2], 30, c.seed + 300 + p, ("NDARRAY_INT_INDICES",), ("-O1", "-fsanitize=address,undefined"))
                 for p in range(10)]
    res = c.par(*jobs)
    if aspect == "C11":
        probe = c.drive(c.build("heap.cpp", defs=["PART=1", "POLS=2,7"], name="probe"), n=0, probe=1, micro=micro)
        c.trace_known("ArrayTrace", probe, "reuse", "moved-from-fixed-extents",
                      "copying from a moved-from array whose extents are all fixed at compile time aborts (it has no memory but a non-zero size)",
                      extra)
    c.trace("ArrayTrace", [t for r in res if isinstance(r, list) for t in r], cfg_extra=extra, mutate=HEAP_MUT[aspect])
    if aspect == "C10":
        plain = c.par(*[lambda p=p: run(p, spread[(p + 7) % 10], n, c.seed + 700 + p,
                                        ("PLAIN=" + ("int", "Pod", "double")[p % 3],) + (() if p % 3 == 1 else ("RESHOW",)), length=14)
                        for p in ((0, 1, 2, 8) if q else range(10))])
        c.trace("ArrayTrace", [t for r in plain for t in r], cfg_extra='CONSTANT Aspect = "C10p"\n', mutate={"dealloc": ["b+", "n", "al"]})
        wjobs, wtrace = wide(c, [6], 6 if q else 60)
        c.par(*wjobs)
        wtrace()


@prop("C10")
def c10(c):
    heap(c, "C10")


@prop("C11")
def c11(c):
    heap(c, "C11")


@prop("C12")
def c12(c):
    heap(c, "C12")


@prop("C13")
def c13(c):
    heap(c, "C13")


EIN_MUT = {"asg": ["d", "v", "calls"], "end": ["mem"], "endsum": ["mem"], "sum": ["init+"]}


@prop("C15")
def c15(c):
    q = c.quick

    def run(parts, n, seed, elem="Num", defs=(), flags=("-O0",), cxx="clang++", plan=None, pct=100):
        def go(k):
            b = c.build("ein.cpp", defs=["PART=%d" % k, "ELEM=" + elem] + list(defs), flags=flags, cxx=cxx, name="ein%d" % k)
            return [c.drive(b, n=n, seed=seed + k)] + ([c.drive(b, n=0, seed=seed + k, plan=plan, pct=pct)] if plan else [])
        return [t for r in c.par(*[lambda k=k: go(k) for k in parts]) for t in r]
    jobs = [lambda: c.model("MC_Ein", "MC_Ein.cfg", workers=3),
            lambda: run(range(6), 4 if q else 15, c.seed, plan=c.gen("MC_Ein", "MC_Ein_gen.cfg", limit=60 if q else 300, workers=2), pct=25),
            lambda: run([2, 5], 5 if q else 20, c.seed + 50, "int"), lambda: run([0, 3], 5 if q else 20, c.seed + 60, "double")]
    if not q:
        jobs += [lambda: c.model("MC_Ein", "MC_Ein_deep.cfg", workers=4),
                 lambda: run(range(6), 15, c.seed + 100, "Num", ("NDARRAY_INT_INDICES",)),
                 lambda: run(range(6), 15, c.seed + 200, "Num", ("NDEBUG",), ("-O2",)),
                 lambda: run(range(6), 15, c.seed + 300, "Num", (), ("-O2",), "g++"),
                 lambda: run(range(6), 20, c.seed + 400, "int", ("NDEBUG",), ("-O3",)),
                 lambda: run([0, 1, 3, 4, 5], 15, c.seed + 500, "double", (), ("-O2",), "g++"),
                 lambda: run(range(6), 8, c.seed + 600, "int", (), ("-O1", "-fsanitize=address,undefined"))]
    res = c.par(*jobs)
    c.trace("EinTrace", [t for r in res if isinstance(r, list) for t in r], mutate=EIN_MUT)


AUTO_MUT = {"step": ["where", "calls.id+", "calls.n+", "eqs.eq", "eqs.ne", "intact", "fits", "aligned"]}
HEAP_MUT["C14"] = {"ret": ["arrs.vals", "arrs.dims", "arrs.at"], "reshaped": ["arrs.vals"], "ctor": ["b+", "o+"], "dtor": ["b+", "o+"]}
HEAP_MUT["C14u"] = {"ret": ["arrs.dims"], "reshaped": ["arrs.dims"]}


@prop("C14")
def c14(c):
    q = c.quick

    def objects(k, n, seed, defs=(), flags=("-O0",), cxx="clang++", plan=None):
        b = c.build("auto.cpp", defs=["PART=%d" % k] + list(defs), flags=flags, cxx=cxx, name="auto%d" % k)
        return [c.drive(b, n=n, seed=seed)] + ([c.drive(b, n=0, seed=seed, plan=plan)] if plan else [])

    def arrays(k, cap, n, seed, defs=(), flags=("-O0",), cxx="clang++", plan=None):
        b = c.build("heap.cpp", defs=["PART=%d" % k, "POLS=0", "AUTO=%d" % cap] + list(defs), flags=flags, cxx=cxx, name="aheap%d" % k)
        return [c.drive(b, n=n, seed=seed)] + ([c.drive(b, n=0, seed=seed, plan=plan)] if plan else [])

    def uninit(k, u, n, seed, flags=("-O0",), cxx="clang++"):
        b = c.build("heap.cpp", defs=["PART=%d" % k, "POLS=0", "UNINIT=%d" % u], flags=flags, cxx=cxx, name="uheap%d" % k)
        return [c.drive(b, n=n, seed=seed, micro=0, emph=seed % 2)]

    def planned():
        plan = c.gen("MC_AutoAlloc", "MC_AutoAlloc_gen.cfg", limit=800 if q else None, workers=2)
        return [t for k in range(5) for t in objects(k, 40 if q else 400, c.seed + k, plan=plan)]

    def planned_arrays(cfg, part, cap):
        text = open(os.path.join(SPEC, "MC_Arrays_%s.cfg" % cfg)).read()
        plan = c.gen("MC_Arrays", "MC_Arrays_%s.cfg" % cfg, cfg_text=text.replace("Emit = 1", "Emit = 8") if q else None,
                     limit=3000 if q else None, workers=3)
        return arrays(part, cap, 20, c.seed + 70, plan=plan)
    def plain(k, cap, kind, n, seed, flags=("-O0",), cxx="clang++"):
        b = c.build("heap.cpp", defs=["PART=%d" % k, "POLS=0", "AUTO=%d" % cap, "PLAIN=" + kind], flags=flags, cxx=cxx, name="pheap%d" % k)
        return [c.drive(b, n=n, seed=seed, micro=0)]
    A, H, U, P = [], [], [], []
    small = [(0, 2), (2, 6), (4, 4), (8, 3), (9, 3)]
    jobs = [lambda: c.model("MC_AutoAlloc", "MC_AutoAlloc.cfg", workers=2),
            lambda: c.model("MC_AutoArray", "MC_AutoArray.cfg", workers=3),
            lambda: c.refutes("MC_AutoArray", "MC_AutoArray_sloppy.cfg"),
            lambda: A.extend(planned()),
            lambda: H.extend(planned_arrays("gen1", 0, 1)), lambda: H.extend(planned_arrays("genP", 2, 2))]
    jobs += [lambda k=k, n=n: H.extend(arrays(k, n, 15 if q else 60, c.seed + k)) for k, n in small]
    jobs += [lambda k=k, u=u: U.extend(uninit(k, u, 20 if q else 80, c.seed + 7 * k + u))
             for k, u in [(0, 1), (4, 1), (2, 2), (8, 2), (4, 4), (0, 3), (2, 9)]]
    jobs += [lambda k=k, n=n, t=t: P.extend(plain(k, n, t, 20 if q else 80, c.seed + 500 + k))
             for k, n, t in ([(0, 3, "int"), (2, 6, "Pod"), (4, 4, "double")] if q else
                             [(k, n, t) for k, t in [(0, "int"), (1, "Pod"), (2, "Pod"), (4, "double"), (5, "int"), (7, "long"), (8, "float")] for n in (2, 5)])]
    if not q:
        jobs += [lambda: c.model("MC_AutoAlloc", "MC_AutoAlloc_deep.cfg", workers=4),
                 lambda: c.model("MC_AutoArray", "MC_AutoArray_deep.cfg", workers=4),
                 lambda: H.extend(planned_arrays("genF", 1, 2))]
        for j, (defs, flags, cxx) in enumerate([(("NDEBUG",), ("-O2",), "clang++"), ((), ("-O2",), "g++"),
                                                (("NDARRAY_INT_INDICES",), ("-O1", "-fsanitize=address,undefined"), "clang++")]):
            jobs += [lambda k=k, d=defs, f=flags, x=cxx, j=j: A.extend(objects(k, 200, c.seed + 100 * j + k, d, f, x)) for k in range(5)]
            jobs += [lambda k=k, n=n, d=defs, f=flags, x=cxx, j=j: H.extend(arrays(k, n, 40, c.seed + 100 * j + k, d, f, x))
                     for k in range(10) for n in (1, 4)]
        jobs += [lambda k=k, u=u: U.extend(uninit(k, u, 60, c.seed + 7 * k + u)) for k in (1, 3, 5, 6, 7, 9) for u in (1, 2, 4)]
        jobs += [lambda k=k, u=u: U.extend(uninit(k, u, 60, c.seed + 7 * k + u, cxx="g++")) for k in (0, 2, 4) for u in (1, 2, 4)]
    c.par(*jobs)
    c.trace("AutoTrace", A, cfg_extra="CONSTANT DefaultBase = 10\n", mutate=AUTO_MUT)
    c.trace("ArrayTrace", H, cfg_extra='CONSTANT Aspect = "C14"\n', mutate=HEAP_MUT["C14"])
    c.trace("ArrayTrace", P, cfg_extra='CONSTANT Aspect = "C14p"\n', mutate=HEAP_MUT["C11"])
    c.trace("ArrayTrace", U, cfg_extra='CONSTANT Aspect = "C14u"\n', mutate=HEAP_MUT["C14u"])


@prop("C17")
def c17(c):
    q = c.quick
    T = []

    def run(k, n, seed, defs=(), flags=("-O0",), cxx="clang++", plan=None):
        b = c.build("contract.cpp", defs=["PART=%d" % k] + list(defs), flags=flags, cxx=cxx, name="contract%d" % k)
        T.append(c.drive(b, n=n, seed=seed))
        if plan:
            T.append(c.drive(b, n=0, seed=seed, plan=plan))

    def shapes(limit):
        run(4, 10 if q else 60, c.seed + 4, plan=c.gen("MC_Contract", "MC_Contract_gen.cfg", limit=limit, workers=2))

    def sums(limit):
        run(5, 40 if q else 200, c.seed + 5, plan=c.gen("MC_EinContract", "MC_EinContract_gen.cfg", limit=limit, workers=2))
    jobs = [lambda: c.model("MC_Contract", workers=3), lambda: c.model("MC_Contract", "MC_Contract_2.cfg", workers=3),
            lambda: c.model("MC_EinContract", workers=2),
            lambda: shapes(1500 if q else 12000), lambda: sums(4000 if q else None)]
    jobs += [lambda k=k: run(k, 40 if q else 300, c.seed + k) for k in range(4)]
    if not q:
        jobs += [lambda: c.model("MC_Contract", "MC_Contract_deep.cfg", workers=4),
                 lambda: c.model("MC_Contract", "MC_Contract_2deep.cfg", workers=4),
                 lambda: c.model("MC_EinContract", "MC_EinContract_deep.cfg", workers=4)]
        for j, (defs, flags, cxx) in enumerate([((), ("-O2",), "clang++"), ((), ("-O2",), "g++"), ((), ("-O0",), "g++"),
                                                (("NDARRAY_INT_INDICES",), ("-O1",), "clang++"),
                                                ((), ("-O1", "-fsanitize=address,undefined"), "clang++")]):
            jobs += [lambda k=k, d=defs, f=flags, x=cxx, j=j: run(k, 60, c.seed + 100 * j + 100 + k, d, f, x) for k in range(6)]
        jobs += [lambda k=k: run(k, 200, c.seed + 900 + k, ("NDEBUG",), ("-O2",)) for k in range(3)]
    c.par(*jobs)
    c.trace("ContractTrace", T, mutate={"try": ["aborted", "out", "moved"], "pred": ["compatible"]})


@prop("C19")
def c19(c):
    q = c.quick
    T = []

    def run(k, n, seed, defs=(), flags=("-O0",), cxx="clang++", plan=None):
        b = c.build("image.cpp", defs=["PART=%d" % k] + list(defs), flags=flags, cxx=cxx, name="image%d" % k)
        T.append(c.drive(b, n=n, seed=seed))
        if plan:
            T.append(c.drive(b, n=0, seed=seed, plan=plan))
    jobs = [lambda: c.model("MC_Image", workers=3),
            lambda: run(0, 40 if q else 300, c.seed, plan=c.gen("MC_Image", "MC_Image_gen.cfg", limit=1500 if q else 20000, workers=3)),
            lambda: run(1, 40 if q else 300, c.seed + 1)]
    if not q:
        jobs += [lambda: c.model("MC_Image", "MC_Image_deep.cfg", workers=4)]
        for j, (defs, flags, cxx) in enumerate([(("NDEBUG",), ("-O2",), "clang++"), ((), ("-O2",), "g++"),
                                                (("NDARRAY_INT_INDICES",), ("-O1",), "clang++"),
                                                ((), ("-O1", "-fsanitize=undefined"), "clang++")]):
            jobs += [lambda k=k, d=defs, f=flags, x=cxx, j=j: run(k, 150, c.seed + 100 * j + 100 + k, d, f, x) for k in range(2)]
    c.par(*jobs)
    c.trace("ViewTrace", T, mutate=VIEW_MUT)


NOT_YET = {}
