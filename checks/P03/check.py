import sys, run as R
sys.path.insert(0, R.LIB + "/lts")
import build as B
# configurations: elements with time groups distributed over ranks (one thread each); pb: preemption bound, eager: sends may complete before they are received
BASE = ["tgs=0,0 ranks=0,1 end=2", "tgs=0,1 ranks=0,1 end=2", "tgs=1,0 ranks=0,1 end=2", "tgs=0,0,1,1 ranks=1,1,0,0 end=2", "tgs=0,0,0,0 ranks=0,1,1,0 end=2", "tgs=0,1,2,1 ranks=0,0,1,1 end=4",
        "tgs=0,1,0,1 ranks=0,1,0,1 end=3 src=1,0,0,1", "tgs=0,1 ranks=0,1 end=4 sync=1.5"]
MID = ["tgs=0,1,0 ranks=0,1,2 end=2", "tgs=0,1,1,2 ranks=0,1,0,1 end=4", "tgs=0,0,0 ranks=0,1,0 end=3 bnd=1,0,1"]
BIG = ["tgs=0,1,2 ranks=0,1,2 end=4", "tgs=0,1,0,1 ranks=0,1,2,0 end=2"]
def conf(l, pbs):
    return [["--" + a for a in c.split()] + ["--threads=1", "--coarse=1", "--pb=%d" % p, "--eager=%d" % e] for c in l for e in (0, 1) for p in pbs]
def check(ctx):
    exe = B.build(ctx, "ltsm", mpi=True)
    if ctx.thorough:
        u = [R.run_eng(ctx, exe, "exchange", conf(BASE, [3, 4]) + conf(MID, [2, 3]) + conf(BIG, [1, 2]) + [["--tgs=0,0", "--ranks=0,1", "--end=1", "--threads=1", "--coarse=1", "--eager=%d" % e] for e in (0, 1)], budget=1200, max_states=2e7, jobs=4, total=9000)]
    else:
        u = [R.run_eng(ctx, exe, "exchange", conf(BIG, [0]) + conf(MID, [1]) + conf(BASE, [2]), budget=240, total=500)]
    return dict(units=u, require_complete=False,
                rule="every state of the real MPI program (one process image per rank, all ranks in one state) reachable by interleaving the ranks at MPI calls and shared accesses, and by every admissible completion order of the pending messages "
                     "(a request tests complete or incomplete independently of the others), up to the preemption bound; kernels check the exact payload of every buffer they read, the MPI model checks matching, sizes, buffer reuse, message leaks and the calling thread",
                bounds="1-4 elements on 2-3 ranks, 1-3 time groups, with/without sources, boundaries and synchronization; both send semantics (synchronous/eager); one thread per rank; per configuration see units",
                assumptions=["the MPI library is a model: reliable, non-overtaking per (source, destination, tag)", "kernels, mesh and configuration are stand-ins; time stepping, communication and main program are the real sources",
                             "thread interleavings inside a rank are decided by P01"])
