import run as R
def check(ctx):
    inc = ctx.EDGEV_INC
    fl = ctx.flags(inc=inc); fh = ctx.flags(inc=inc, std="c++14")
    vh = ctx.vh_objs()
    o = [ctx.compile(ctx.repo + "/tools/edge_v/src/mesh/Communication.cpp", fl), ctx.compile("comm.cpp", fh)]
    ctx.flush()
    e = ctx.link("comm", o + vh)
    return dict(units=[R.run_vh(ctx, e, "comm", shards=48, depth=9)],
                rule="all adjacency graphs of up to 5 (6) elements x contiguous partitions x time groups x regions (inner/send) x face slots, for all element types; non-trivial: more than one pair of channels",
                bounds="up to 5 (quick) or 6 (thorough) elements, all partition counts, 2-3 time groups",
                assumptions=["elements are sorted by partition, region (inner, send) and time group; adjacency is symmetric; two elements share at most one face"])
