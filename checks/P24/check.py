import run as R
def check(ctx):
    fh = ctx.flags(inc=(ctx.lib,) + ctx.EDGE_INC, defs=ctx.edge_defs("TET4", "SEISMIC", 2, prec=64, cruns=1, rms=0), std="c++14", opt="-O2")
    vh = ctx.vh_objs()
    o = [ctx.compile("geom.cpp", fh)] + [ctx.compile(ctx.repo + "/src/" + s, ctx.flags(inc=ctx.EDGE_INC, defs=ctx.edge_defs("TET4", "SEISMIC", 2), opt="-O1")) for s in ("parallel/Distributed.cpp", "parallel/global.cpp", "data/Dynamic.cpp")]
    ctx.flush()
    e = ctx.link("geom", o + vh, extra=("-Wl,--unresolved-symbols=ignore-all",))
    return dict(units=[R.run_vh(ctx, e, "geometry", shards=64, depth=6)], 
        rule="points of a half-integer lattice (all predicates exact in double precision) against every element with vertices on an integer lattice, scaled and shifted: inside/on a face/outside, closest point (distance to all faces, edges, vertices), reference "
             "coordinates and back, Jacobians; every pair of faces, orientation and face point: both elements' coordinates of a shared face; every point of a lattice against every numbering of a mesh: assignment to the closest element; every "
             "combination of half spaces: domains; non-trivial: simplices, meshes, more than one half space",
        bounds="tetrahedra on {0,1,2}^3, triangles on {0,..,3}^2, boxes with edges of up to 3; scales 1, 64, 1/2, offsets 0, -3, 40; meshes of up to 12 elements of the five types; domains of up to three half spaces in 1-3 dimensions",
        assumptions=["Wykobi (closest point on a triangle) is not available offline and replaced by an exact stand-in", "simplices are positively oriented, boxes are axis-parallel, as EDGE's meshes are"])
