import sys, itertools, run as R
sys.path.insert(0, R.LIB + "/lts")
import build as B
def check(ctx):
    exe = B.build(ctx)
    cs = []
    step = 0.25
    tg = ["0", "0,1", "1,0,0", "0,1,2", "1,1,2"] + (["0,1,2,3", "2,1,0", "1,2,3", "2", "3,2"] if ctx.thorough else [])
    for g in tg:
        m = 2 ** max(int(x) for x in g.split(","))
        for k in range(1, int((2 * m + 1.5) / step) + 1):
            for sy, wf in ((1000, 1000), (1.5, 1000), (1000, 0.75), (1.0, 2.0)) if (k % 2 or ctx.thorough) else ((1000, 1000), (0.75, 1)):
                for th, sep, pb in (((1, 0, 0), (2, 1, 1)) if len(g) < 4 or k % 4 == 1 or ctx.thorough else ((1, 0, 0),)):
                    cs.append([f"--tgs={g}", f"--end={k * step}", f"--sync={sy}", f"--wf={wf}", f"--threads={th}", f"--sep={sep}", "--coarse=1", f"--pb={pb + (1 if ctx.thorough else 0)}", "--race=0"])
    u = [R.run_eng(ctx, exe, "endtimes", cs, budget=120, total=1500 if ctx.thorough else 500)]
    deep = ["tgs=0,1 end=3 threads=2 sep=1", "tgs=0,1 end=2 threads=2 sync=1", "tgs=0 end=2 threads=2 wf=1"] + (["tgs=0,1 end=2.5 threads=3 sep=1", "tgs=0,1,2 end=5 threads=2 sep=1", "tgs=1,2 end=5 threads=2 wf=2"] if ctx.thorough else [])
    u.append(R.run_eng(ctx, exe, "liveness", [["--" + a for a in c.split()] + ["--coarse=1", "--race=0"] for c in deep], budget=2000 if ctx.thorough else 200, max_states=4e7 if ctx.thorough else 8e6))
    return dict(units=u, require_complete=False,
                rule="end times on a 0.25 grid (fractions and multiples of the group steps) x synchronization intervals x wave field intervals x group structures: every schedule within the preemption bound; "
                     "checked: all elements reach exactly the end time and each synchronization point, no step exceeds the stable step, no state without enabled threads, from every reachable state the end of the simulation is reachable",
                bounds="1-4 time groups (fundamental step 1), end time up to 2 steps of the largest group + 1.5, 1-3 threads, preemption bound 0-2 in the sweep and unbounded (coarse granularity) in the liveness unit",
                assumptions=["kernels, mesh and configuration are stand-ins; the time stepping, scheduling and main program are the real sources"])
