import run as R
def check(ctx):
    fh = ctx.flags(inc=ctx.EDGE_INC, defs=ctx.edge_defs("QUAD4R", "SWE", 1), std="c++14")
    vh = ctx.vh_objs()
    o = [ctx.compile("swe.cpp", fh)]
    ctx.flush()
    e = ctx.link("swe", o + vh)
    return dict(units=[R.run_vh(ctx, e, "swe", shards=64, depth=6)],
                rule="all combinations of water heights, velocities (sub- and supercritical, both directions), bathymetries (wet, dry) of small meshes (line, periodic line, quads, triangles) x boundary conditions x orientations of faces x "
                     "splits of the ranges x one or two fused runs x precisions; a step is compared with a textbook f-wave solver and checked for conservation, well-balancedness and inactivity of dry cells; non-trivial: varying bathymetry, not at rest",
                bounds="1-4 cells, 2-3 water heights, 2-4 velocities per direction, 3 bathymetries, one time step",
                assumptions=["cells below sea level are wet (h > 0), cells above are dry (h = 0)"])
