import run as R
def check(ctx):
    inc = ctx.EDGEV_INC
    fl = ctx.flags(inc=inc); fh = ctx.flags(inc=inc, std="c++14")
    src = ctx.repo + "/tools/edge_v/src/"
    vh = ctx.vh_objs()
    g = [ctx.compile(src + "time/Groups.cpp", fl), ctx.compile("groups.cpp", fh)]
    c = [ctx.compile(src + "time/Cfl.cpp", fl), ctx.compile(src + "models/Model.cpp", fl), ctx.compile("cfl.cpp", fh)]
    ctx.flush()
    eg, ec = ctx.link("groups", g + vh), ctx.link("cfl", c + vh)
    return dict(units=[R.run_vh(ctx, eg, "groups", shards=24, depth=4), R.run_vh(ctx, ec, "cfl", shards=4, depth=3)],
                rule="all adjacency graphs of up to 4 elements (degree<=3), all chains/cycles of 6 (7) elements in all numberings, stars of all element types; time steps at/around "
                     "every interval bound; non-trivial: the normalization lowered at least one element (groups) or more than one element (CFL)",
                bounds="<=4 elements for arbitrary graphs, 6/7 for chains, <=5 groups",
                assumptions=["face adjacency is symmetric, relative CFL time steps are normalized to a minimum of one (as guaranteed by the CFL stage)"])
