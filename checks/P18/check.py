import run as R
def check(ctx):
    inc = ctx.CUT_INC
    defs = ['PP_EDGE_VERSION="verif"']
    fl = ctx.flags(inc=inc, defs=defs)
    fh = ctx.flags(inc=inc, defs=defs, std="c++14")
    vh = [o for o in ctx.vh_objs() if "vhlog" not in o]
    o = [ctx.compile("cut.cpp", fh), ctx.compile(ctx.repo + "/tools/edge_cut/src/main.cpp", ctx.flags(inc=inc, defs=defs + ["main=edge_cut_main"]), "m_")]
    o += [ctx.compile(ctx.repo + "/tools/edge_cut/src/" + s, fl) for s in ("mesh/Extrude.cpp", "io/Config.cpp", "io/OptionParser.cpp")]
    ctx.flush()
    e = ctx.link("cut", o + vh, libs=("-lpugixml",))
    return dict(units=[R.run_vh(ctx, e, "cut", shards=64, depth=4, case_cpu=5, env={"VH_TMP": ctx.build, "ASAN_OPTIONS": R.run_env()["ASAN_OPTIONS"] + ":detect_leaks=0"})],
                rule="all rectangular grids over sizes x coarsening levels x spacings (equidistant, varying, fine and far off the origin) x noise below the tolerance x orders of the points x surfaces (all surfaces over three heights for tiny grids) x "
                     "target depths; the program is run from its configuration file (or the class is called directly), the six files are read back and glued by coordinates: every edge is shared by exactly two triangles with opposite directions, all "
                     "triangles point outward, the counts match, the surface has every point; grids which can not be coarsened are rejected; non-trivial: coarsened or non-flat",
                bounds="up to 4x4 cells without, 10x10 with one, 20x20 with two levels of coarsening (thorough: 36x36, three levels)",
                assumptions=["the target is below the surface"])
