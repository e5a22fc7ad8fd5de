import run as R
def check(ctx):
    d = ctx.edge_defs("TET4", "SEISMIC", 2)
    fn = ctx.flags(inc=ctx.EDGE_INC, std="c++14", defs=d, san=False, opt="-O2")
    fh = ctx.flags(inc=ctx.EDGE_INC, std="c++14", defs=d)
    fl = ctx.flags(inc=ctx.EDGE_INC, defs=d)
    vhn, vh = ctx.vh_objs(san=False, tag="n_"), ctx.vh_objs()
    s = [ctx.compile("series.cpp", fn)]
    src = ctx.repo + "/src/"
    p = [ctx.compile("sources.cpp", fh)] + [ctx.compile(src + x, fl) for x in ("data/Dynamic.cpp", "dg/Basis.cpp", "parallel/global.cpp", "parallel/Distributed.cpp")] + \
        [ctx.compile(ctx.lib + "/edge_globals.cpp", fl), ctx.compile(ctx.repo + "/submodules/FastGL/fastgl.cpp", fl)]
    ctx.flush()
    es = ctx.link("series", s + vhn, san=False)
    ep = ctx.link("sources", p + vh, libs=ctx.HDF5)
    return dict(units=[R.run_vh(ctx, es, "series", shards=16, depth=4), R.run_vh(ctx, ep, "sources", shards=16, depth=4)],
                rule="series: all sample values in {0,1,-2}^n x all intervals on a quarter-cell grid x sampling distances/onsets/outside values, double and float; sources: all placements of up to "
                     "3 sources per fused simulation over the candidate locations (interior, on shared vertices, outside) x element numberings x time step patterns x region splits; "
                     "non-trivial: proper sub-interval of a series with >1 sample / several sources or ties",
                bounds="n<=4 (5) samples, <=3 sources, 2 fused simulations, 2-4 elements (quad4r, tria3, tet4), order 2",
                assumptions=["basis evaluation of the source location is checked separately", "HDF5 library and closest-point computations on triangles are trusted"])
