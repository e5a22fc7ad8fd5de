import run as R
def check(ctx):
    fh = ctx.flags(inc=ctx.EDGE_INC, std="c++14", defs=ctx.edge_defs("TET4", "SEISMIC", 2))
    vh = ctx.vh_objs()
    src = ctx.repo + "/src/parallel/"
    o = [ctx.compile(x, fh) for x in ("sparse.cpp", src + "global.cpp", src + "Distributed.cpp", ctx.repo + "/src/data/Dynamic.cpp")]
    ctx.flush()
    e = ctx.link("sparse", o + vh, libs=ctx.HDF5)
    return dict(units=[R.run_vh(ctx, e, "sparse", shards=32, depth=5)],
                rule="all sparse types (multi-bit and beyond 32 bit) of up to 5 (6) entities x masks; all splits into groups/sub-regions; all adjacency tables of up to 3 x 3 entities with undefined entries and varying lengths x sparse types; "
                     "outputs are exact-size, poisoned and guarded; non-trivial: more than one sparse entity/link",
                bounds="up to 5-7 dense entities, 3 from- and 3 to-entities, up to 3 adjacent ones; 32 and 64 bit ids", assumptions=["entities are adjacent to pairwise different entities"])
