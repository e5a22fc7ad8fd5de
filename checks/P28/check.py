import run as R
def check(ctx):
    vh = ctx.vh_objs(); inc = ctx.EDGE_INC + (ctx.lib + "/stub",)
    cfgs, obj, P = [("tet4", "TET4", "SEISMIC", 2, 64, 1, 0), ("tria3v", "TRIA3", "SEISMIC", 2, 32, 2, 3), ("quad_swe", "QUAD4R", "SWE", 1, 64, 2, 0)], [], ("-lpugixml",)
    if ctx.thorough: cfgs += [("hex8r", "HEX8R", "SEISMIC", 2, 32, 4, 0), ("tet4v", "TET4", "SEISMIC", 2, 64, 2, 2), ("line", "LINE", "ADVECTION", 3, 64, 1, 0), ("tria3", "TRIA3", "SEISMIC", 2, 64, 8, 0)]
    for n, el, eq, o, p, c, r in cfgs:
        defs = ctx.edge_defs(el, eq, o, prec=p, cruns=c, rms=r) + ["PP_HAS_HDF5", 'PP_EDGE_VERSION="verif"']
        obj.append([ctx.compile(ctx.repo + "/src/" + f, ctx.flags(inc=inc, defs=defs, opt="-O1"), n) for f in ["io/Config.cpp"] + (["impl/seismic/io/Config.cpp"] if eq == "SEISMIC" else [])] + [ctx.compile("edge.cpp", ctx.flags(inc=inc, defs=defs, std="c++14"), n)])
    ve = [ctx.compile(ctx.repo + "/tools/edge_v/src/io/Config.cpp", ctx.flags(inc=(ctx.lib + "/stub/edge_v_xml",) + ctx.EDGEV_INC, defs=()), "v"), ctx.compile("tools.cpp", ctx.flags(inc=(ctx.lib + "/stub/edge_v_xml",) + ctx.EDGEV_INC, defs=(), std="c++14"), "v")]
    cd = ['PP_EDGE_VERSION="verif"']
    cu = [ctx.compile(ctx.repo + "/tools/edge_cut/src/io/Config.cpp", ctx.flags(inc=ctx.CUT_INC, defs=cd), "c"), ctx.compile("tools.cpp", ctx.flags(inc=ctx.CUT_INC, defs=cd + ["VH_CUT"], std="c++14"), "c")]
    ctx.flush()
    b = 120 if not ctx.thorough else 500
    u = [R.run_vh(ctx, ctx.link(c[0], o + vh, libs=P, extra=("-Wl,--unresolved-symbols=ignore-all",)), c[0], shards=32, depth=8, budget=b) for c, o in zip(cfgs, obj)]
    for n, o in (("edge_v", ve), ("edge_cut", cu)): u.append(R.run_vh(ctx, ctx.link(n, o + vh, libs=P), n, shards=32, depth=8, budget=b))
    return dict(units=u, 
        rule="configuration files by sections (mesh and boundaries, sparse types, setups and intervals, receivers, equations, other output; EDGE-V: mesh, velocity models, tsunami/refinement/time): all combinations of missing and given elements, numbers of "
             "repeated elements and values of a section while all others are missing or given x styles of the file (compact; comments, unknown elements and white space; elements in other orders and character data sections): every "
             "parsed parameter equals the written value or its default, domains contain exactly the points of the intersected half spaces",
        bounds="up to three domains, three half spaces, three receivers of each type, two fused runs and rupture setups (thorough: eight); three (thorough: seven) build configurations of the solver; EDGE-V and EDGE-cut",
        assumptions=["the file is well-formed and its values are legal (positive intervals; one point source file per fused run)"])
