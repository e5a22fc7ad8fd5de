import shutil, tempfile
import run as R
def check(ctx):
    vh = ctx.vh_objs()
    cfgs, obj = [("tet32", "TET4", "SEISMIC", 2, 32, 1), ("tria64f2", "TRIA3", "SEISMIC", 2, 64, 2), ("hex64", "HEX8R", "SEISMIC", 1, 64, 1), ("line32", "LINE", "ADVECTION", 3, 32, 1), ("quad64f2", "QUAD4R", "SWE", 1, 64, 2)], []
    if ctx.thorough: cfgs += [("tet64f8", "TET4", "SEISMIC", 1, 64, 8), ("hex32f2", "HEX8R", "SEISMIC", 2, 32, 2), ("line64f2", "LINE", "SWE", 1, 64, 2), ("tria32", "TRIA3", "ADVECTION", 1, 32, 1)]
    for n, el, eq, o, p, c in cfgs:
        defs = ctx.edge_defs(el, eq, o, prec=p, cruns=c)
        obj.append([ctx.compile(ctx.repo + "/src/" + f, ctx.flags(inc=ctx.EDGE_INC, defs=defs), n) for f in ("io/WaveField.cpp", "io/Vtk.cpp", "parallel/global.cpp")] + [ctx.compile("wf.cpp", ctx.flags(inc=ctx.EDGE_INC, defs=defs, std="c++14"), n)])
    vw = ctx.compile(ctx.repo + "/submodules/visit_writer/visit_writer.cpp", ctx.flags(inc=ctx.EDGE_INC, defs=ctx.edge_defs("TET4", "SEISMIC", 2)))
    ctx.flush()
    tmp = tempfile.mkdtemp(prefix="vh_p27_")
    try:
        u = [R.run_vh(ctx, ctx.link(c[0], o + [vw] + vh, extra=("-Wl,--unresolved-symbols=ignore-all",)), c[0], shards=32, depth=6, budget=140 if not ctx.thorough else 700, env=dict(VH_TMP=tmp)) for c, o in zip(cfgs, obj)]
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return dict(units=u, 
        rule="all numbers of elements x sparse types of every element x selected sparse types (none, zero, one bit, several bits, bits beyond 32) x output types (ASCII, binary, none, unknown) x histories of up to three writes of changing degrees of "
             "freedom x paths x ranks x a second writer writing in turn: after the history the directory holds exactly one file per writer with elements and step; the files are parsed by an independent reader of the VTK format: vertices' coordinates, cell "
             "types, number and order of cells, and every variable's value of every printed element equal the step's data; non-trivial: a proper selection which is written",
        bounds="three elements (thorough: four) of each of the five types, one, two and eight fused runs, single and double precision",
        assumptions=["the disk isn't full", "output paths have a directory"])
