import sys, run as R
sys.path.insert(0, R.LIB + "/lts")
import build as B
def check(ctx):
    exe = B.build(ctx)
    cs = []
    pb = 3 if ctx.thorough else 2
    # sampling frequencies (incl. several samples per step and steps without samples), buffer sizes around the flush threshold
    for g, rec in (("0", "1"), ("0", "2"), ("0,1", "1,1"), ("1,0", "2,1"), ("0,1,2", "1,0,1")):
        m = 2 ** max(int(x) for x in g.split(","))
        for fr in (0.25, 0.3, 0.5, 1, 1.5, 2.75) + ((0.1, 0.2, 0.75, 3.9) if ctx.thorough else ()):
            for buf in (52, 60) if fr <= 0.3 else (51 + int(m / fr + 1),):
                if buf - 50 < 0 or m / fr >= buf: continue
                for end in (m, 2 * m + 0.5):
                    cs.append([f"--tgs={g}", f"--rec={rec}", f"--freq={fr}", f"--buf={buf}", f"--end={end}", "--threads=1", "--coarse=1", "--pb=0"])
                    if fr in (0.25, 0.3, 1, 1.5): cs.append([f"--tgs={g}", f"--rec={rec}", f"--freq={fr}", f"--buf={buf}", f"--end={end}", "--threads=2", "--sep=1", "--coarse=1", f"--pb={1 if len(g) > 3 else pb}"])
    u = [R.run_eng(ctx, exe, "sampling", cs, budget=200, total=2500 if ctx.thorough else 330)]
    deep = ["tgs=0 rec=1 end=3 freq=0.25 buf=52 threads=2 sep=1 pb=-1", "tgs=0,0 rec=1,1 end=2 freq=0.25 buf=53 threads=3 sep=1 pb=1", "tgs=0,1,2 rec=1,1,1 end=4 freq=0.25 buf=60 threads=2 sep=1 pb=2", "tgs=0,1,2 rec=1,0,1 end=4 freq=0.5 buf=56 threads=2 pb=2"]
    if ctx.thorough: deep += ["tgs=0,1 rec=1,1 end=2 freq=0.25 buf=53 threads=2 sep=1 pb=-1", "tgs=0,1,2 rec=1,0,1 end=4 freq=0.25 buf=60 threads=3 sep=1 pb=0", "tgs=0,1,2 rec=1,0,1 end=4 freq=0.25 buf=60 threads=2 sep=1 pb=4"]
    u.append(R.run_eng(ctx, exe, "concurrency", [["--" + a for a in c.split()] + ["--coarse=1"] for c in deep], budget=1500 if ctx.thorough else 150))
    return dict(units=u, require_complete=False,
                rule="receiver placements x sampling intervals (finer and coarser than the steps, not dividing them) x buffer sizes around the flush threshold x end times, every schedule within the preemption bound; "
                     "checked in every final state: file of each receiver has header and exactly one row per sampling time in [0,end), in order, with the solution of its element at that time; data races are violations",
                bounds="1-3 time groups, up to 2 receivers per element, 1-3 threads, preemption bound 0-3 (unbounded where pb=-1)",
                assumptions=["files are modelled as append-only memory", "kernels, mesh and configuration are stand-ins; Receivers, time stepping and main program are the real sources"])
