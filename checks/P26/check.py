import sys, run as R
sys.path.insert(0, R.LIB + "/lts")
import build as B
FINE = ["tgs=0 end=2 wf=1 threads=2 sep=1", "tgs=0,0 end=1.5 wf=1.5 threads=2", "tgs=0,0 src=1 end=1 wf=1 threads=2 sep=1", "tgs=0,0,0 end=1.25 wf=1.25 sync=1 threads=2 rev=1"]
COARSE = ["tgs=0,0 end=2 wf=2 threads=2 sep=1", "tgs=0,0 end=3 wf=1.5 threads=2", "tgs=0,0,0 end=1 wf=1 threads=3 sep=1", "tgs=0,0,0 src=1 end=2 wf=2 threads=2", "tgs=0 end=2 wf=2 threads=3", "tgs=0,0,0,0,0 end=3.5 wf=3.5 sync=1.25 threads=3",
          "tgs=0,0,0,0 end=2 wf=0.75 threads=2 sep=1 rev=1"]
PB = ["tgs=0,0,0,0 end=3 wf=3 threads=4 pb=2", "tgs=0,0,0,0,0,0 end=2.5 wf=2.5 threads=4 sep=1 pb=2", "tgs=0,0,0,0,0,0,0 end=1.5 wf=0.5 src=1 threads=4 pb=1"]
def args(l, *x):
    return [["--" + a for a in c.split()] + list(x) for c in l]
def check(ctx):
    exe = B.build(ctx, "swe", swe=True)
    vh = ctx.vh_objs()
    gl = ctx.compile(ctx.repo + "/submodules/FastGL/fastgl.cpp", ctx.flags(inc=ctx.EDGE_INC))
    cfgs, obj = [("line64", "LINE", 64, 1), ("line32f2", "LINE", 32, 2), ("tria64", "TRIA3", 64, 1), ("tria32f2", "TRIA3", 32, 2), ("quad64f2", "QUAD4R", 64, 2)], []
    for n, el, p, c in cfgs:
        defs = ctx.edge_defs(el, "SWE", 1, prec=p, cruns=c)
        inc = (R.VERIF + "/checks/P25/overlay", ctx.lib) + ctx.EDGE_INC
        obj.append([ctx.compile(ctx.repo + "/src/" + f, ctx.flags(inc=inc, defs=defs), n) for f in ("dg/Basis.cpp", "parallel/Shared.cpp", "parallel/LoadBalancing.cpp", "parallel/global.cpp")] + [ctx.compile("setup.cpp", ctx.flags(inc=inc, defs=defs, std="c++14"), n)])
    ctx.flush()
    u = [R.run_vh(ctx, ctx.link(c[0], o + vh + [gl], extra=("-Wl,--unresolved-symbols=ignore-all",)), c[0], shards=16, depth=4, budget=200) for c, o in zip(cfgs, obj)]
    u.insert(0, R.run_eng(ctx, exe, "schedules", args(PB, "--coarse=1") + args(COARSE, "--coarse=1") + args(FINE), budget=240, total=300))
    return dict(units=u, require_complete=False,
        rule="the real program (main, control flow, time groups, steps, work distribution) runs under a controlled scheduler; all interleavings of scheduling and working threads (at all shared accesses, at writes and repeated reads, or with a bounded number of preemptions) are explored statefully. "
             "The solver is replaced by one on tagged data: a face's net-updates may only be computed from elements at the same time, an element may only be updated by the net-updates of its faces for exactly its time, steps may neither exceed the stable one nor the end, all elements have the time of each "
             "synchronization point. The real setup is run on all combinations of (partially) available mesh data and initial values: bathymetry, heights and momenta of every element, time step and work regions are compared with their definition",
        bounds="meshes of one to seven triangles, up to five threads (preemption bound for four and more), one to four time steps, synchronization points in between; setup: one to three lines, triangles or rectangles, one and two fused runs, both precisions, four bathymetries and three displacements",
        assumptions=["threads are sequentially consistent; races are detected on the tagged data by vector clocks", "exprtk is not available offline: a stand-in evaluates the initial values"])
