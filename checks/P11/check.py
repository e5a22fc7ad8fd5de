import run as R
def check(ctx):
    W = ("-Wl,--wrap=posix_memalign", "-Wl,--wrap=free")
    vh = [o for o in ctx.vh_objs(san=False, tag="n_") if "vhlog" not in o]
    es = []
    for v, d in (("std", []), ("variant", ["PP_USE_MEMKIND", "PP_USE_HUGETLBFS", "VARIANT"])):
        fl = ctx.flags(inc=(ctx.dir + "/stub",) + ctx.EDGE_INC, std="c++14", defs=ctx.edge_defs("TET4", "SEISMIC", 2) + d, san=False, extra=["-include", ctx.dir + "/stub/hugetlbfs.h"])
        es.append((v, [ctx.compile("mem.cpp", fl, v), ctx.compile(ctx.repo + "/src/data/Dynamic.cpp", fl, v), ctx.compile(ctx.repo + "/src/parallel/global.cpp", fl, v)]))
    ctx.flush()
    u = [R.run_vh(ctx, ctx.link("mem_" + v, o + vh, extra=W, san=False), "memory_" + v, shards=16, depth=4) for v, o in es]
    return dict(units=u,
                rule="all histories of up to 3 (4) allocations and flexible layouts over sizes {0,1,64,1000} x alignments {8,64,4096} x high-bandwidth/huge-page requests, the last one possibly failing; flexible layouts: up to 3 entities x 2 sparse types x sizes x flags; "
                     "built with and without the special allocators, which are models tracking every block",
                bounds="up to 3 (4) allocations", assumptions=["the system's allocators are models"])
