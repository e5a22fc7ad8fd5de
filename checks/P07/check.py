import run as R
def check(ctx):
    inc = ctx.EDGEV_INC
    fl = ctx.flags(inc=inc, defs=("PP_USE_METIS",)); fh = ctx.flags(inc=inc, std="c++14")
    vh = ctx.vh_objs()
    src = ctx.repo + "/tools/edge_v/src/"
    o = [ctx.compile(src + x, fl) for x in ("io/Gmsh.cpp", "mesh/Mesh.cpp", "mesh/Partition.cpp", "mesh/Communication.cpp", "geom/Generic.cpp", "geom/Geom.cpp", "geom/Hex8r.cpp", "geom/Line.cpp", "geom/Quad4r.cpp", "geom/Tet4.cpp", "geom/Tria3.cpp")]
    o.append(ctx.compile("part.cpp", fh))
    ctx.flush()
    e = ctx.link("part", o + vh, libs=("-lgmsh",))
    env = {"ASAN_OPTIONS": R.run_env()["ASAN_OPTIONS"] + ":max_malloc_fill_size=1000000:malloc_fill_byte=123"}
    return dict(units=[R.run_vh(ctx, e, "part", shards=48, depth=7, env=env)],
                rule="all partitionings (returned by a stand-in for METIS, which checks the weighted dual graph) x all time groupings of six meshes of all element types x numberings; reordering through gmsh; "
                     "non-trivial: more than one partition and time group",
                bounds="up to 5 (6) elements, 3 time groups, 3 partitions (2 each beyond four elements)",
                assumptions=["partitions are non-empty"])
