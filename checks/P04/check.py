import run as R
def check(ctx):
    fh = ctx.flags(inc=ctx.EDGE_INC, std="c++14", defs=ctx.edge_defs("TET4", "SEISMIC", 2) + ["PP_USE_OMP"])
    vh = ctx.vh_objs()
    src = ctx.repo + "/src/parallel/"
    o = [ctx.compile(x, fh) for x in ("part.cpp", src + "Shared.cpp", src + "LoadBalancing.cpp", src + "global.cpp")]
    ctx.flush()
    e = ctx.link("part", o + vh)
    u = [R.run_vh(ctx, e, n, shards=16, depth=3, args=[n], env=dict(OMP_WAIT_POLICY="passive", GOMP_SPINCOUNT="0")) for n in ("patterns", "times", "regions", "numa")]
    return dict(units=u,
                rule="patterns: all sparse patterns of regions up to 6 (8) entities x workers x three balancing rounds; times: all measured times from {1,.0002,2,1.01,400}^workers over 2-3 balancing rounds x region sizes; "
                     "regions: all priorities and all histories of up to 4-5 (6-7) operations (schedule, work, balance, reset) on 2-3 regions; numa: all array and group sizes; non-trivial: proper redistribution / histories with work",
                bounds="1-4 (5) workers with and without a dedicated scheduling thread, region sizes up to 1001",
                assumptions=["workers are called one after another by one thread posing as each of them (thread interleavings: P01)", "the clock is virtual"])
