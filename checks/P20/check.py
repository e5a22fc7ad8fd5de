import run as R
def check(ctx):
    vh = ctx.vh_objs()
    cfgs = [("tet1", "TET4", 1, 64, 1, 0, 0), ("tet2", "TET4", 2, 64, 4, 0, 0), ("tet3", "TET4", 3, 64, 8, 0, 0), ("tria4", "TRIA3", 4, 64, 1, 0, 0), ("tria2", "TRIA3", 2, 32, 16, 0, 0),
            ("quad3", "QUAD4R", 3, 64, 4, 0, 0), ("hex2", "HEX8R", 2, 64, 16, 0, 0), ("tria3v", "TRIA3", 3, 64, 2, 3, 0), ("tet2v", "TET4", 2, 64, 8, 2, 0),
            ("tet2m", "TET4", 2, 64, 4, 0, 1), ("tria3m", "TRIA3", 3, 64, 1, 1, 1), ("hex2m", "HEX8R", 2, 32, 8, 0, 1)]
    import os
    if os.environ.get("P20CFG"): cfgs = [c for c in cfgs if c[0] in os.environ["P20CFG"].split(",")]
    units, obj = [], []
    for n, el, o, p, cr, rms, mpi in cfgs:
        defs = ctx.edge_defs(el, "SEISMIC", o, prec=p, cruns=cr, rms=rms) + (["PP_USE_MPI"] if mpi else [])
        inc = ((ctx.lib + "/lts/stub",) if mpi else ()) + (ctx.lib,) + ctx.EDGE_INC
        fl, fh = ctx.flags(inc=inc, defs=defs, opt="-O1"), ctx.flags(inc=inc, defs=defs, std="c++14", opt="-O1")
        s = ctx.repo + "/src/"
        obj.append([ctx.compile(s + x, fl, n) for x in ("dg/Basis.cpp", "impl/seismic/setups/Elasticity.cpp", "impl/seismic/setups/ViscoElasticity.cpp", "data/Dynamic.cpp",
                    "parallel/global.cpp", "io/Receivers.cpp")] + [ctx.compile("ader.cpp", fh, n)])
    gl = ctx.compile(ctx.repo + "/submodules/FastGL/fastgl.cpp", ctx.flags(inc=ctx.EDGE_INC))
    ctx.flush()
    for c, o in zip(cfgs, obj):
        e = ctx.link(c[0], o + vh + [gl], extra=("-Wl,--unresolved-symbols=ignore-all",))
        units.append(R.run_vh(ctx, e, c[0], shards=32, depth=4, budget=600, case_cpu=60))
    return dict(units=units,
        rule="one time step of the real seismic AderDg (set-up, local and neighboring updates) for an element with one neighbor per face: every face x kind of face (interior, periodic, free surface, outflow, remote) x "
             "numbering of the neighbor (all face/vertex combinations) x order of the face's two elements x LTS relation (equal, smaller, larger time step, both sub-steps) x materials x kinds of the remaining faces; per case a dense state and "
             "unit states (the update is linear: unit states determine it completely) of the element and of the neighbor are compared with the ADER-DG scheme of the elastic/viscoelastic wave equations, evaluated by quadrature with exact "
             "Riemann solutions; non-trivial: the face has a neighbor and LTS or a material contrast",
        bounds="configurations (element/order/bits/fused runs/relaxation mechanisms/MPI): " + ", ".join("%s/%d/%d/%d/%d/%d" % c[1:] for c in cfgs) + "; every 7th unit state for non-fused configurations with more than 40 degrees of freedom in the quick tier; three geometries (rotating in the quick tier)",
        assumptions=["EDGEpre's operators are regenerated by quadrature of dg::Basis", "coefficients of the anelastic source are those of ViscoElasticity::src (P23)", "matrix kernels are the vanilla ones (libxsmm is not available)"])
