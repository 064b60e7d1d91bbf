"""Which stages decide which property.  q(a, b): a in the quick tier, b in the thorough one."""
import os


def boolean(c, prop, plan, inv=("TypeOK", "RecordOK")):
    for binary, mode, nq, nt, args in plan:
        n = nq if c.quick else nt
        if n:
            c.trace(binary, mode, n, "TraceBool", {"Prop": f'"{prop}"'}, args=args, invs=inv, min_judged=n // 4)


BOOL = "lsv-bool"


def cells(c, prop, plan):
    for mode, nq, nt in plan:
        n = nq if c.quick else nt
        if n:
            c.trace("lsv-cells", mode, n, "TraceCells", {"Prop": f'"{prop}"'}, min_judged=n)


def walk(c):
    """The contour extraction as designed, over all (or many) regions."""
    inv = ("TypeOK", "EdgesOnce", "P02", "P03")
    k = dict(SplitStart="TRUE")
    c.model("ContourWalk", dict(k, Kind='"square"', W=3, H=3, A=0, B=1, NReg=0), 512, "walk-square", invs=inv, props=("Terminates",))
    c.model("ContourWalk", dict(k, Kind='"jack"', W=2, H=2, A=1, B=3, NReg=1500 if c.quick else 30000), 1500, "walk-jack-tilted", invs=inv)
    if not c.quick:
        c.model("ContourWalk", dict(k, Kind='"square"', W=4, H=3, A=1, B=1, NReg=0), 4096, "walk-square-45", invs=inv)
        c.model("ContourWalk", dict(k, Kind='"jack"', W=2, H=2, A=0, B=1, NReg=30000), 1500, "walk-jack", invs=inv)


def p20(c):
    cells(c, "P20", [("sq22", 256, 256), ("sq32", 1000, 4096), ("jk11", 256, 256), ("jk21", 2000, 65536), ("jk22", 1500, 65536), ("rnd", 800, 40000), ("poly", 2500, 60000)])



def p01(c):
    cells(c, "P01", [("sq22", 256, 256), ("sq32", 500, 4096), ("jk11", 256, 256), ("jk21", 500, 65536), ("rnd", 300, 30000), ("poly", 2000, 50000)])
    boolean(c, "P01", [(BOOL, "tri", 7056, 7056, []), (BOOL, "rand", 6000, 100000, []), (BOOL, "coin", 1500, 30000, []),
                       (BOOL, "nest", 800, 20000, []), (BOOL, "curve", 800, 12000, []), (BOOL, "chain", 300, 8000, []), (BOOL, "stress", 32, 400, [])])


def p02(c):
    walk(c)
    cells(c, "P02", [("sq22", 256, 256), ("jk11", 256, 256), ("jk21", 800, 65536), ("jk22", 1000, 65536), ("rnd", 300, 30000), ("poly", 2000, 50000)])
    boolean(c, "P02", [(BOOL, "rand", 6000, 100000, []), (BOOL, "coin", 1500, 30000, []), (BOOL, "nest", 1500, 20000, []),
                       (BOOL, "curve", 800, 12000, []), (BOOL, "stress", 32, 400, [])])


def p03(c):
    walk(c)
    cells(c, "P03", [("sq33", 512, 512), ("jk11", 256, 256), ("jk21", 800, 65536), ("jk22", 2000, 65536), ("rnd", 700, 30000), ("poly", 2000, 50000)])
    boolean(c, "P03", [(BOOL, "nest", 4000, 50000, []), (BOOL, "rand", 5000, 80000, []), (BOOL, "coin", 1000, 20000, []),
                       (BOOL, "curve", 600, 8000, []), (BOOL, "stress", 32, 400, [])])


def p04(c):
    cells(c, "P04", [("sq22", 256, 256), ("jk21", 1500, 65536), ("rnd", 400, 30000), ("poly", 2000, 50000)])
    boolean(c, "P04", [(BOOL, "rand", 6000, 100000, []), (BOOL, "coin", 2000, 30000, []), (BOOL, "mag", 800, 8000, []),
                       (BOOL, "curve", 1500, 20000, []), (BOOL, "chain", 300, 8000, []), (BOOL, "stress", 32, 400, [])])


def p05(c):
    boolean(c, "P05", [(BOOL, "rand", 8000, 150000, ["n=2"]), (BOOL, "coin", 4000, 50000, ["n=2"]), (BOOL, "mag", 1000, 10000, ["n=2"]),
                       (BOOL, "nest", 1500, 20000, ["n=2"]), (BOOL, "curve", 1500, 20000, ["n=2"]), (BOOL, "stress", 96, 1600, ["n=2"])])


def p06(c):
    f = os.path.join(c.work, "inputs.ndjson")
    rows = c.generate("ValidGen", dict(G=3, MaxEls=16), 3000 if c.quick else 20000, 40, f, invs=("TypeOK", "CleanOK"))
    c.trace("lsv-valid", "file", len(rows), "TraceValid", args=[f], min_judged=len(rows) // 2)
    c.trace("lsv-valid", "rand", 8000 if c.quick else 150000, "TraceValid", min_judged=8000)


def p07(c):
    f = os.path.join(c.work, "programs.ndjson")
    c.model("RewriteGen", dict(Steps=2 if c.quick else 3, WMax=2), 5000, "rewrites-keep-regions", invs=("TypeOK", "Same"))
    rows = c.generate("RewriteGen", dict(Steps=6, WMax=0), 600 if c.quick else 4000, 10, f, spec="SimSpec", invs=("TypeOK", "Same"))
    for mode, nq, nt in [("int", 2500, 30000), ("curve", 1200, 20000), ("coin", 800, 10000), ("nest", 150, 3000), ("tight", 1500, 20000), ("bundle", 800, 12000), ("stress", 16, 200)]:
        n = nq if c.quick else nt
        c.trace("lsv-rewrite", mode, n, "TraceRewrite", args=[f"prog={f}", f"of={len(rows)}"], min_judged=n // 4)
    c.trace("lsv-rewrite", "int", 1000 if c.quick else 10000, "TraceRewrite", tag="random-programs", start=100000, min_judged=1000)


def p08(c):
    f = os.path.join(c.work, "programs.ndjson")
    c.model("AlgebraGen", dict(NIn=2, MaxSteps=2), 1000, "laws", invs=("TypeOK", "Laws"))
    rows = c.generate("AlgebraGen", dict(NIn=2, MaxSteps=6), 400 if c.quick else 4000, 10, f, spec="SimSpec", invs=("TypeOK",))
    for mode, nq, nt in [("int", 2500, 30000), ("curve", 400, 8000), ("coin", 600, 10000), ("nest", 150, 3000), ("tight", 700, 10000), ("bundle", 400, 6000), ("stress", 8, 100)]:
        n = nq if c.quick else nt
        c.trace("lsv-algebra", mode, n, "TraceAlgebra", args=[f"prog={f}", f"of={len(rows)}"] if mode != "int" else [], min_judged=n // 4)


def p09(c):
    boolean(c, "P09", [(BOOL, "mag", 3000, 40000, [])])


SWEEP = [("int", 1500, 30000), ("curve", 500, 10000), ("coin", 500, 10000), ("tight", 2000, 40000), ("bundle", 1000, 20000),
         ("near", 400, 10000), ("chain", 300, 8000), ("open", 1500, 20000), ("nest", 200, 4000), ("stress", 40, 400)]


def sweep(c, prop):
    for mode, nq, nt in SWEEP:
        n = nq if c.quick else nt
        c.trace("lsv-sweep", mode, n, "TraceSweep", {"Prop": f'"{prop}"', "Slack": 20, "Near": 300}, min_judged=n // 4)


def p10(c):
    f = os.path.join(c.work, "schedules.ndjson")
    rows = c.generate("DetermGen", dict(T=3, C=6, Steps=22), 400 if c.quick else 3000, 40, f, invs=("TypeOK",))
    for mode, nq, nt in [("int", 3000, 40000), ("curve", 1500, 20000), ("coin", 1000, 15000), ("nest", 300, 4000), ("tight", 1500, 20000), ("bundle", 1000, 12000), ("stress", 30, 300)]:
        n = nq if c.quick else nt
        c.trace("lsv-determ", mode, n, "TraceDeterm", args=[f"prog={f}", f"of={len(rows)}"], min_judged=n)


RULES = ["push", "wait", "undo", "vacate", "touch"]


def order_model(c, tag, n, cells, xmax, dx, pick=0, ot=2, without=None, fails=None, least=100000):
    rules = "{" + ", ".join(f'"{r}"' for r in RULES if r != without) + "}"
    k = dict(NSeg=n, Cells=cells, XMax=xmax, DX=dx, Mono="FALSE", T=1, CT=2, OT=ot, Pick=pick, Rules=rules)
    c.model("SweepOrder", k, 1 if fails else least, tag, fails=fails, invs=("ListOK", "Ordered", "EventsOK", "Sound", "Finite"))


def p11(c):
    order_model(c, "order-pairs", 2, 4, 4, 1)
    order_model(c, "order-four-some", 4, 4, 6, 2, 2000 if c.quick else 200000, least=40000)
    order_model(c, "order-needs-vacate", 4, 5, 5, 2, 1, without="vacate", fails="Ordered")
    order_model(c, "order-hole", 4, 4, 6, 2, 1, ot=1, fails="Ordered")
    if not c.quick:
        order_model(c, "order-all", 3, 3, 4, 1)
        order_model(c, "order-three-some", 3, 5, 5, 2, 200000)
    sweep(c, "P11")


def p12(c):
    order_model(c, "order-three", 3, 2, 4, 2)
    order_model(c, "order-needs-undo", 3, 6, 3, 1, 1, without="undo", fails="Finite")
    if not c.quick:
        order_model(c, "order-four", 4, 2, 4, 1)
        order_model(c, "order-six-some", 6, 3, 5, 1, 10000)
        order_model(c, "order-five-some", 5, 4, 6, 2, 50000)
    sweep(c, "P12")


def topo(c, prop, plan):
    for mode, nq, nt in plan:
        n = nq if c.quick else nt
        k = {"Prop": f'"{prop}"', "MaxDev": 100, "Flip": {"tight": 4000000, "near": 1000, "chain": 1000000}.get(mode, 2000000)}
        c.trace("lsv-topo", mode, n, "TraceTopo", k, args=[f"prop={prop}"], min_judged=n)


def p13(c):
    topo(c, "P13", [("int", 2000, 40000), ("nest", 250, 5000), ("coin", 600, 10000), ("curve", 1500, 20000), ("tight", 2000, 30000),
                    ("bundle", 1000, 15000), ("chain", 500, 15000), ("stress", 30, 300)])


def p14(c):
    topo(c, "P14", [("int", 2000, 40000), ("nest", 250, 5000), ("coin", 600, 10000), ("curve", 1500, 20000), ("tight", 2000, 30000),
                    ("bundle", 1000, 15000), ("chain", 500, 15000), ("stress", 30, 300)])


def p15(c):
    topo(c, "P15", [("int", 3000, 40000), ("nest", 300, 4000), ("coin", 800, 10000), ("curve", 5000, 60000), ("tight", 6000, 60000),
                    ("bundle", 5000, 50000), ("near", 4000, 100000), ("chain", 1500, 50000), ("stress", 90, 900)])


def p16(c):
    f = os.path.join(c.work, "histories.ndjson")
    rows = c.generate("ArenaGen", dict(G=3, MaxOps=4, MaxEls=9), 1500 if c.quick else 20000, 60, f, invs=("TypeOK",))
    c.trace("lsv-arena", "file", len(rows), "TraceArena", args=[f], min_judged=1000)
    c.trace("lsv-arena", "rand", 1500 if c.quick else 30000, "TraceArena", min_judged=1000)


def p17(c):
    c.trace("lsv-order", "pair", 16000 if c.quick else 150000, "TraceOrder", {"Prop": '"P17"'}, min_judged=100000)


def p18(c):
    c.trace("lsv-order", "pair", 12000 if c.quick else 100000, "TraceOrder", {"Prop": '"P18"'}, min_judged=20000)
    c.trace("lsv-order", "cache", 4000 if c.quick else 40000, "TraceOrder", {"Prop": '"P18"'}, min_judged=5000)


def p19(c):
    c.model("BTree", dict(B=4, MaxN=18 if c.quick else 24), 2000, "btree-4", invs=("Refines", "Balanced", "LookupOK"))
    c.model("BTree", dict(B=5, MaxN=16 if c.quick else 24), 1000, "btree-5", invs=("Refines", "Balanced", "LookupOK"))
    f = os.path.join(c.work, "histories.ndjson")
    rows = c.generate("TreeGen", dict(Steps=60, MaxLen=60, Bs="{4, 5, 6}"), 1000 if c.quick else 8000, 70, f, invs=("TypeOK",))
    c.trace("lsv-treevec", "file", len(rows), "TraceTree", args=[f], min_judged=10000)
    c.trace("lsv-treevec", "small", 400 if c.quick else 10000, "TraceTree", min_judged=20000)
    c.trace("lsv-treevec", "big", 48 if c.quick else 600, "TraceTree", min_judged=1000)


STAGES = {k.upper(): v for k, v in list(globals().items()) if len(k) == 3 and k[0] == "p" and k[1:].isdigit()}
