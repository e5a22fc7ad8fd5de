import run as R
def check(ctx):
    inc = ctx.EDGEV_INC
    fl = ctx.flags(inc=inc); fh = ctx.flags(inc=inc, std="c++14")
    d = ctx.build + "/fwd/edge_v"
    import os; os.makedirs(d, exist_ok=True)
    open(d + "/edge_v.h", "w").write('#include "%s/tools/edge_v/src/edge_v.h"\n' % ctx.repo)
    fe = ctx.flags(inc=(ctx.build + "/fwd",) + tuple(ctx.EDGE_INC), defs=ctx.edge_defs("TET4", "SEISMIC", 2))
    feh = ctx.flags(inc=(ctx.build + "/fwd",) + tuple(ctx.EDGE_INC), defs=ctx.edge_defs("TET4", "SEISMIC", 2), std="c++14")
    vh = ctx.vh_objs()
    src = ctx.repo + "/tools/edge_v/src/"
    h5 = ctx.compile(src + "io/Hdf5.cpp", fl)
    a = [h5, ctx.compile("h5.cpp", fh)]
    o = [h5] + [ctx.compile(src + x, fl) for x in ("io/Gmsh.cpp", "mesh/Mesh.cpp", "mesh/Communication.cpp", "geom/Generic.cpp", "geom/Geom.cpp", "geom/Hex8r.cpp", "geom/Line.cpp", "geom/Quad4r.cpp", "geom/Tet4.cpp", "geom/Tria3.cpp")]
    o += [ctx.compile(ctx.repo + "/src/mesh/EdgeV.cpp", fe, "edge"), ctx.compile(ctx.repo + "/src/data/EntityLayout.cpp", fe, "edge"), ctx.compile("edge.cpp", feh), ctx.compile("load.cpp", fh)]
    ctx.flush()
    h = ctx.link("h5", a + vh, libs=ctx.HDF5); e = ctx.link("load", o + vh, libs=("-lgmsh",) + tuple(ctx.HDF5))
    env = {"ASAN_OPTIONS": R.run_env()["ASAN_OPTIONS"] + ":max_malloc_fill_size=1000000:malloc_fill_byte=123", "VH_TMP": ctx.build}
    return dict(units=[R.run_vh(ctx, h, "h5", shards=16, depth=4, env=env), R.run_vh(ctx, e, "load", shards=48, depth=7, env=env)],
                rule="round trips of all value sequences up to a length through HDF5 files (four types, up to three data sets); all time groupings (rate-2, adjacent groups differ by one) and partitionings of five meshes "
                     "written as by EDGE-V's main and loaded through the solver's mesh::EdgeV; non-trivial: more than one data set; more than one partition and time group",
                bounds="3 values per data set, 3 data sets; up to 4 elements, 3 time groups, 3 partitions",
                assumptions=["the partition-local meshes preserve the order of elements and vertices (EDGE-V relies on a patched gmsh for splitting the mesh, which isn't part of the repository)", "partitions are non-empty and communicate", "indices are below 2^63"])
