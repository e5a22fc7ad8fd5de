import run as R
def check(ctx):
    inc = ctx.EDGEV_INC
    fl = ctx.flags(inc=inc); fh = ctx.flags(inc=inc, std="c++14")
    vh = ctx.vh_objs()
    src = ctx.repo + "/tools/edge_v/src/"
    o = [ctx.compile(src + x, fl) for x in ("io/Gmsh.cpp", "mesh/Mesh.cpp", "geom/Generic.cpp", "geom/Geom.cpp", "geom/Hex8r.cpp", "geom/Line.cpp", "geom/Quad4r.cpp", "geom/Tet4.cpp", "geom/Tria3.cpp")]
    o.append(ctx.compile("mesh.cpp", fh))
    ctx.flush()
    e = ctx.link("mesh", o + vh, libs=("-lgmsh",))
    env = {"OMP_NUM_THREADS": "1", "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0:max_malloc_fill_size=1000000:malloc_fill_byte=123"}
    return dict(units=[R.run_vh(ctx, e, "mesh", shards=48, depth=5, env=env)],
                rule="meshes of 1-3 irregular triangles/tets, quad/hex blocks, grids and triply periodic grids x numberings of vertices and elements x local vertex orders x physical groups, read through gmsh; "
                     "non-trivial: more than one element",
                bounds="all vertex numberings of up to 6 vertices (systematic families beyond), all element orders of up to 3 elements, all local orders for 1-2 elements, 3 cells per periodic direction",
                assumptions=["periodic directions are at least three elements wide", "gmsh is trusted"])
