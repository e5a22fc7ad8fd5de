import sys, run as R
sys.path.insert(0, R.LIB + "/lts")
import build as B
FINE = ["tgs=0 end=1 threads=2 sep=1", "tgs=0,0 end=1.5 threads=2", "tgs=0,1 end=1 threads=2 sep=1"]
COARSE = ["tgs=0,0 se=1,0 end=1 threads=2 sep=1", "tgs=0,0 se=0,1 end=1 threads=2", "tgs=0,1 se=1,0 end=2 threads=2 sep=1", "tgs=0,1 end=2 threads=2 sep=1", "tgs=1,0 end=2 threads=2", "tgs=0,0,0 end=1 threads=3 sep=1 race=0 pb=2"]
PB = ["tgs=0,0,1,1 se=0,1,1,0 end=2 threads=2 sep=1 pb=2", "tgs=0,1,2 end=4 threads=2 sep=1 pb=2", "tgs=0,1,2,1,0 end=4 threads=2 pb=2", "tgs=2,1,0,1,2 end=6 threads=2 sep=1 pb=1 rev=1", "tgs=0,1 end=2 threads=3 sep=1 pb=0", "tgs=0,1 end=4 threads=2 sep=1 sync=1.5 pb=2", "tgs=0,1,2,3 end=8 threads=2 sep=1 pb=1",
      "tgs=0,1 end=2.25 threads=2 pb=1", "tgs=1,2 end=5 wf=2 threads=1 pb=1", "tgs=0,1,2 end=4.75 wf=1.5 sync=2 threads=2 pb=0"]
BASE = ["tgs=0,0 ranks=0,1 end=2", "tgs=0,1 ranks=0,1 end=2", "tgs=1,0 ranks=0,1 end=2", "tgs=0,0,1,1 ranks=1,1,0,0 end=2", "tgs=0,0,0,0 ranks=0,1,1,0 end=2", "tgs=0,1,2,1 ranks=0,0,1,1 end=4", "tgs=0,1 ranks=0,1 end=4 sync=1.5"]
MID = ["tgs=0,1,0 ranks=0,1,2 end=2", "tgs=0,1,1,2 ranks=0,1,0,1 end=4"]
def args(l, *x):
    return [["--" + a for a in c.split()] + list(x) for c in l]
def conf(l, pbs):
    return [["--" + a for a in c.split()] + ["--threads=1", "--coarse=1", "--pb=%d" % p, "--eager=%d" % e] for c in l for e in (0, 1) for p in pbs]
def check(ctx):
    exe = B.build(ctx, "adv", adv=True)
    exm = B.build(ctx, "advm", mpi=True, adv=True)
    u = [R.run_eng(ctx, exm, "exchange", conf(MID, [1]) + conf(BASE, [2]), budget=240, total=250)]
    u += [R.run_eng(ctx, exe, "schedules", args(PB, "--coarse=1") + args(COARSE, "--coarse=1") + args(FINE), budget=240, total=300)]
    return dict(units=u, require_complete=False,
        rule="the real program (control flow, time groups, steps, advection solver's scheduling, communication) runs under a controlled scheduler; all interleavings of the scheduling, "
             "communicating and working threads (up to the given preemption bound) and all completion orders of messages are explored statefully. Element kernels are replaced by ones that tag every datum with element, time "
             "group and step: a consumed prediction or message must be exactly the one of the step; every element must reach the end time with every update done once; no deadlock",
        bounds="line meshes of up to five elements, up to four time groups with rates 1 and 2, one and two worker threads (three with preemption bound), up to three ranks with eager and rendezvous messages; preemption bounds as listed per configuration (none: exhaustive)",
        assumptions=["threads of the same process are sequentially consistent; races are detected on the tagged data by vector clocks", "MPI: messages of a pair are ordered by tag; a completed request stays complete"])
