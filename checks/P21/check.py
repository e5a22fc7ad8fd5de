import os
import run as R
def check(ctx):
    vh = ctx.vh_objs()
    cfgs = [("line4", "LINE", 4, 64, 1, 0), ("line2m", "LINE", 2, 32, 4, 1), ("quad3", "QUAD4R", 3, 64, 2, 0), ("tria4", "TRIA3", 4, 64, 1, 0), ("tria2m", "TRIA3", 2, 64, 4, 1), ("hex2", "HEX8R", 2, 64, 8, 0),
            ("tet1", "TET4", 1, 64, 1, 0), ("tet3", "TET4", 3, 64, 4, 0), ("tet2m", "TET4", 2, 32, 8, 1), ("tria1", "TRIA3", 1, 64, 1, 0)]
    if ctx.thorough: cfgs += [("hex1", "HEX8R", 1, 64, 1, 0), ("line1", "LINE", 1, 64, 1, 0), ("tet4", "TET4", 4, 64, 2, 0), ("quad2m", "QUAD4R", 2, 64, 1, 1), ("line7", "LINE", 7, 64, 1, 0), ("tria5", "TRIA3", 5, 64, 2, 0)]
    if os.environ.get("P21CFG"): cfgs = [c for c in cfgs if c[0] in os.environ["P21CFG"].split(",")]
    obj, units = [], []
    for n, el, o, p, cr, mpi in cfgs:
        defs = ctx.edge_defs(el, "ADVECTION", o, prec=p, cruns=cr, rms=0) + (["PP_USE_MPI"] if mpi else [])
        inc = ((ctx.lib + "/lts/stub",) if mpi else ()) + (ctx.lib,) + ctx.EDGE_INC
        fl, fh = ctx.flags(inc=inc, defs=defs, opt="-O1"), ctx.flags(inc=inc, defs=defs, std="c++14", opt="-O1")
        obj.append([ctx.compile(ctx.repo + "/src/" + x, fl, n) for x in ("dg/Basis.cpp", "data/Dynamic.cpp")] + [ctx.compile("adv.cpp", fh, n)])
    gl = ctx.compile(ctx.repo + "/submodules/FastGL/fastgl.cpp", ctx.flags(inc=ctx.EDGE_INC))
    ctx.flush()
    for c, o in zip(cfgs, obj):
        e = ctx.link(c[0], o + vh + [gl], extra=("-Wl,--unresolved-symbols=ignore-all",))
        units.append(R.run_vh(ctx, e, c[0], shards=16, depth=4, budget=600, case_cpu=60))
    return dict(units=units,
        rule="one time step of the real advection AderDg (star matrices, flux solvers, local and neighboring updates) for an element with one neighbor per face: every face x kind (interior, periodic, outflow, remote) x numbering of the "
             "neighbor x order of the face's elements x LTS relation (both sub-steps) x direction of the speed (along and against every axis, oblique) x neighbor's speed (equal, faster, opposite, unrelated) x kinds of the remaining faces; per case "
             "a dense state and all unit states of the element and of the neighbor (the update is linear) are compared with the ADER-DG scheme with upwind fluxes, evaluated by quadrature; the time step statistics are compared with the CFL condition; "
             "non-trivial: the face has a neighbor and LTS or a jump of the speed",
        bounds="configurations (element/order/bits/fused runs/MPI): " + ", ".join("%s/%d/%d/%d/%d" % c[1:] for c in cfgs) + "; three geometries (rotating in the quick tier)",
        assumptions=["EDGEpre's operators are regenerated by quadrature of dg::Basis", "the flux at a jump of the speed is the sum of each side's outgoing part"])
