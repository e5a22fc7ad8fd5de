import run as R
def check(ctx):
    vh, u = ctx.vh_objs(), []
    o = {p: ctx.compile("mat.cpp", ctx.flags(inc=ctx.EDGE_INC, defs=ctx.edge_defs("TET4", "SEISMIC", 2, prec=p, cruns=1), std="c++14", opt="-O1"), f"f{p}") for p in (32, 64)}
    ctx.flush()
    for p in o: u.append(R.run_vh(ctx, ctx.link(f"f{p}", [o[p]] + vh, extra=("-Wl,--unresolved-symbols=ignore-all",)), f"f{p}", shards=32, depth=7, budget=200 if not ctx.thorough else 400))
    return dict(units=u,
        rule="determinants and inverses of all 2x2 to 4x4 matrices over small alphabets; all sparsity patterns (with entries below the tolerance) x sub-matrices x conversions to coordinates, compressed rows and columns, transposition, with and without fill-in; all "
             "patterns x bounds of the non-zero block; all sizes x leading dimensions x fused runs x alpha x beta of the kernels (padding poisoned with NaN, output with NaN if beta is zero), directly and through kernel groups; non-trivial: regular, partly filled, fused",
        bounds="patterns up to 3x3 (three kinds of entries), 8x2 for the fill-in, products up to 3x3x3, four runs; both precisions", assumptions=["LIBXSMM kernels are not available offline"])
