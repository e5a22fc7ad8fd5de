import sys, run as R
sys.path.insert(0, R.LIB + "/lts")
import build as B
# configurations: strips of elements with time groups; sources, boundaries, threads and exploration mode
FINE = ["tgs=0 end=1 threads=2 sep=1", "tgs=0,0 end=1.5 threads=2", "tgs=0 end=1 threads=2 src=1 bnd=1", "tgs=0,1 end=1 threads=2 sep=1"]
COARSE = ["tgs=0,0 se=1,0 end=1 threads=2 sep=1", "tgs=0,0 se=0,1 end=1 threads=2", "tgs=0,1 se=1,0 end=2 threads=2 sep=1", "tgs=0,1 end=2 threads=2 sep=1 src=1,1", "tgs=1,0 end=2 threads=2", "tgs=0,0,0 end=1 threads=3 sep=1 race=0", "tgs=0,1 end=1 threads=2 bnd=1,0 src=0,1", "tgs=1,0,1 end=2 threads=2 sep=1"]
PB = ["tgs=0,0,1,1 se=0,1,1,0 end=2 threads=2 sep=1 pb=2", "tgs=0,1,1,0 se=1,1,0,0 end=2 threads=2 pb=2 src=1,1,1,1", "tgs=0,0,0 se=1,0,1 end=1 threads=3 sep=1 pb=0", "tgs=0,1,2,1 se=1,1,0,0 end=4 threads=2 sep=1 pb=2", "tgs=0,1,2 end=4 threads=2 sep=1 pb=2", "tgs=0,1,2 end=4 threads=2 pb=2", "tgs=0,1,2,1,0 end=4 threads=2 sep=1 pb=2 src=1,0,1,1,0", "tgs=2,1,0,1,2 end=6 threads=2 sep=1 pb=2 rev=1", "tgs=0,1,2 end=4 threads=2 sep=1 pb=3 race=0",
      "tgs=0,1 end=2 threads=3 sep=1 pb=0", "tgs=0,1 end=2 threads=3 pb=0", "tgs=0,1,2 end=4 threads=3 pb=0 race=0", "tgs=0,0,1,1 end=4 threads=3 sep=1 pb=0 race=0", "tgs=0,1 end=4 threads=2 sep=1 sync=1.5 pb=3", "tgs=1,0,0,1 end=3 threads=2 pb=2 bnd=1,0,1,0 src=0,1,1,0",
      "tgs=0,1,2,3 end=8 threads=2 sep=1 pb=1"]
TF = ["tgs=0,1 end=2 threads=2 sep=1", "tgs=0,1 end=2 threads=2", "tgs=0,0 end=1 threads=3 sep=1", "tgs=1,0,1 end=2 threads=2 sep=1 race=0"]
TC = ["tgs=0,1,2 end=4 threads=2 sep=1", "tgs=0,1,2 end=4 threads=2 race=0", "tgs=0,1 end=1 threads=3 sep=1 race=0", "tgs=0,0 end=2 threads=3", "tgs=0,1 end=4 threads=2 src=1,1"]
TP = ["tgs=0,1,2 end=8 threads=2 sep=1 pb=4", "tgs=0,1,2 end=4 threads=2 pb=4", "tgs=0,1 end=4 threads=3 sep=1 pb=1", "tgs=0,1 end=4 threads=3 pb=1 race=0", "tgs=0,1,2 end=4 threads=3 sep=1 pb=1 race=0", "tgs=0,1,2,3 end=8 threads=2 sep=1 pb=3 race=0", "tgs=0,1,2,1,0 end=8 threads=2 pb=3 src=1,0,1,1,0",
      "tgs=0,1 end=2 threads=4 pb=0 race=0", "tgs=0,0,1,1 end=2 threads=4 sep=1 pb=0 race=0"]
def args(l, *x):
    return [["--" + a for a in c.split()] + list(x) for c in l]
def check(ctx):
    exe = B.build(ctx)
    big = dict(budget=600, max_states=2.5e7, jobs=8) if ctx.thorough else dict(budget=240)
    t = 8000 if ctx.thorough else 560
    u = [R.run_eng(ctx, exe, "schedules", args(PB, "--coarse=1") + args(COARSE, "--coarse=1") + args(FINE), total=t, **big)]
    if ctx.thorough:
        u.append(R.run_eng(ctx, exe, "deep", args(TF) + args(TC, "--coarse=1") + args(TP, "--coarse=1"), budget=2500, max_states=4e7, jobs=4))
    return dict(units=u, require_complete=False,
                rule="every state of the real program's memory reachable by scheduling its threads (scheduler, workers) at every access to shared volatile/atomic memory (fine), at writes and repeated reads (coarse), or at those with a "
                     "bounded number of preemptions (pb); each kernel call is checked against an exact space-time payload: which element, which time interval, once, in order; data races are violations; all states count as non-trivial",
                bounds="strips of 1-5 elements in 1-4 time groups, 2-4 threads, with/without dedicated scheduler, sources, boundaries, end times up to two steps of the largest group; per configuration see units",
                assumptions=["kernels, mesh and configuration are stand-ins; the time stepping, scheduling and main program are the real sources", "sequential consistency at the scheduling points; happens-before by volatile/atomic writes"])
