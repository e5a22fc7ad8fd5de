import run as R
def check(ctx):
    inc = (ctx.lib + "/lts/stub",) + tuple(ctx.EDGE_INC)
    defs = list(ctx.edge_defs("TRIA3", "SEISMIC", 2)) + ["PP_USE_MPI"]
    fe = ctx.flags(inc=inc, defs=defs); feh = ctx.flags(inc=inc, defs=defs, std="c++14")
    fv = ctx.flags(inc=ctx.EDGEV_INC); fvh = ctx.flags(inc=tuple(ctx.EDGEV_INC), std="c++14")
    vh = ctx.vh_objs()
    o = [ctx.compile(ctx.repo + "/src/" + x, fe, "edge") for x in ("parallel/Distributed.cpp", "parallel/MpiRemix.cpp", "data/Dynamic.cpp")]
    o += [ctx.compile(ctx.repo + "/tools/edge_v/src/mesh/Communication.cpp", fv), ctx.compile("comm.cpp", fvh), ctx.compile("mpi.cpp", feh)]
    ctx.flush()
    e = ctx.link("exchange", o + vh); m = ctx.link("minimum", o + vh)
    return dict(units=[R.run_vh(ctx, e, "exchange", shards=64, depth=7), R.run_vh(ctx, m, "minimum", shards=16, depth=3)],
                rule="all adjacency graphs x contiguous partitions x time groups x regions: EDGE-V's communication structure drives the communication objects of all ranks in one process; every face's data of two cycles of local time stepping has to arrive at the face's other side; "
                     "all values in {0,1,-1,1E300} of all ranks for the assignment of points to ranks; non-trivial: more than eight messages; more than one rank",
                bounds="2-4 (5) elements, 1-3 time groups, up to 4 (5) ranks, 1 or 3 bytes per face, up to 3 values, 3 (4) ranks", assumptions=["messages are delivered when both sides have been posted (arbitrary timing: P03)"])
