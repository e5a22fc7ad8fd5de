import os, run as R
def check(ctx):
    vh = ctx.vh_objs()
    cfgs = [("line5", "LINE", 5, 64), ("tria4", "TRIA3", 4, 64), ("quad3", "QUAD4R", 3, 64), ("hex2", "HEX8R", 2, 64), ("tet3", "TET4", 3, 64), ("tet2f", "TET4", 2, 32), ("tria2f", "TRIA3", 2, 32), ("tet1", "TET4", 1, 64), ("hex1", "HEX8R", 1, 64), ("tet4", "TET4", 4, 64)]
    if ctx.thorough: cfgs += [("line7", "LINE", 7, 64), ("tria6", "TRIA3", 6, 64), ("quad5", "QUAD4R", 5, 64), ("hex3", "HEX8R", 3, 64), ("quad1", "QUAD4R", 1, 64), ("tria1", "TRIA3", 1, 64)]
    if os.environ.get("P25CFG"): cfgs = [c for c in cfgs if c[0] in os.environ["P25CFG"].split(",")]
    units, obj = [], []
    for n, el, o, p in cfgs:
        defs = ctx.edge_defs(el, "SEISMIC" if el != "LINE" else "ADVECTION", o, prec=p, cruns=1, rms=0)
        inc = (ctx.dir + "/overlay", ctx.lib) + ctx.EDGE_INC
        obj.append([ctx.compile(ctx.repo + "/src/dg/Basis.cpp", ctx.flags(inc=inc, defs=defs, opt="-O1"), n), ctx.compile("proj.cpp", ctx.flags(inc=inc, defs=defs, std="c++14", opt="-O1"), n)])
    gl = ctx.compile(ctx.repo + "/submodules/FastGL/fastgl.cpp", ctx.flags(inc=ctx.EDGE_INC))
    ctx.flush()
    for c, o in zip(cfgs, obj):
        e = ctx.link(c[0], o + vh + [gl], extra=("-Wl,--unresolved-symbols=ignore-all",))
        units.append(R.run_vh(ctx, e, c[0], shards=16, depth=3, budget=600, case_cpu=60))
    return dict(units=units, rule="every element type, order and precision is a build of the real Basis, QuadraturePoints, QuadratureEval and InitialDofs. All monomials up to the guaranteed degree are integrated over several physical elements and compared to an independent "
             "high-order quadrature; all pairs of modes are checked for orthogonality, derivatives against exact differences (also for the generated functions beyond the configured order), point values at every quadrature point and order; face quadrature points for all faces and (vertex, face) options against the "
             "geometric definition; projections of all monomials in every quantity and fused run over all element ranges against independent L2 projections; error norms against independent integrals of known differences",
        bounds="line orders to 5 (7), triangles to 4 (6), quads to 3 (5), hexes to 2 (3), tets to 4; single precision for tet and triangle order 2; generated basis functions up to degree 9 for lines and triangles, 7 (10) for tets, order 8 for quads and 3 (5) for hexes; four affine geometries; two quantities, three fused runs, four elements",
        assumptions=["exprtk is not available offline: a stand-in for EDGE's Expression evaluates sums of monomials", "quantities not set by the reference expression of the error norms aren't covered", "hex geometries are axis-aligned boxes (HEX8R)"])
