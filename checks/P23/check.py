import run as R
def check(ctx):
    fl = ctx.flags(inc=ctx.EDGE_INC, defs=ctx.edge_defs("TET4", "SEISMIC", 2, prec=64, cruns=1, rms=3), opt="-O1")
    fh = ctx.flags(inc=(ctx.lib,) + ctx.EDGE_INC, defs=ctx.edge_defs("TET4", "SEISMIC", 2, prec=64, cruns=1, rms=3), std="c++14", opt="-O1")
    vh = ctx.vh_objs()
    o = [ctx.compile(ctx.repo + "/src/impl/seismic/setups/ViscoElasticity.cpp", fl), ctx.compile("visco.cpp", fh)]
    ctx.flush()
    e = ctx.link("visco", o + vh, extra=("-Wl,--unresolved-symbols=ignore-all",))
    return dict(units=[R.run_vh(ctx, e, "visco", shards=64, depth=6)],
        rule="every combination of the number of mechanisms, central frequency, frequency ratio, quality factors, Lame parameters, dimension and precision: relaxation frequencies, dense and sparse source matrices and elastic parameters of the real "
             "set-up; their frequency response (complex moduli) is compared with the prescribed phase velocity, the least squares fit of 1/Q at all frequencies and 1/Q over the band; star matrices for a basis of all Jacobians (linear) against the strain "
             "rate; non-trivial: more than one mechanism",
        bounds="1-6 (thorough: 8) mechanisms, 3 central frequencies, 4 ratios, 5 (7) quality factors for P and S waves each, 6 pairs of Lame parameters, 2 and 3 dimensions, 32 and 64 bit; deviation of 1/Q over the band: at most 12%/8% for three/more mechanisms and "
               "Q of at least 20 over at most two decades",
        assumptions=["ratio 1 with several mechanisms (identical frequencies) is not a valid input", "the elastic lambda isn't zero"])
