#!/usr/bin/env python3
"""Driver of all checks:  run.py <ID> <quick|thorough> [--replay FILE] [--keep]

Builds the check's binaries from /repo's current working tree into /verif/build/<ID>, runs them (sharded), replays every
reported violation before it is printed, matches it against known-findings.json and writes evidence/<ID>.json.
Exit 0: held on everything explored, 1: VIOLATION line printed, 2: error of the check itself.
"""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import json, time, subprocess, shutil, re, glob, importlib.util, concurrent.futures as cf, struct, signal

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
LIB = VERIF + "/lib"
NPROC = min(os.cpu_count() or 4, 8)


class CheckError(Exception):
    pass


def log(*a):
    print("[run]", *a, file=sys.stderr, flush=True)


class Ctx:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.thorough = tier == "thorough"
        self.build = f"{VERIF}/build/{pid}"
        self.dir = f"{VERIF}/checks/{pid}"
        self.repo, self.lib, self.verif = REPO, LIB, VERIF
        self.jobs = []          # (out, cmd)
        self.t0 = time.time()
        self.notes = []

    # ---- build helpers -------------------------------------------------------------------------------------------
    SAN = ["-fsanitize=address", "-fno-omit-frame-pointer"]

    def flags(self, defs=(), inc=(), san=True, opt="-O1", std="c++11", extra=()):
        f = [f"-std={std}", opt, "-g1", "-fopenmp", "-w", "-DPP_USE_OMP", "-DPP_USE_EASYLOGGING", '-DPP_EDGE_VERSION="verif"', "-DEIGEN_MAX_STATIC_ALIGN_BYTES=0"]
        f += [f"-I{i}" for i in inc]
        f += [f"-I{LIB}/stub", f"-I{LIB}"]
        f += ["-isystem", "/usr/include/eigen3", "-isystem", "/usr/include/hdf5/serial"]
        f += [f"-D{d}" for d in defs]
        if san:
            f += self.SAN
        return f + list(extra)

    EDGE_INC = (f"{REPO}", f"{REPO}/src", "/opt/vp/deps/include")
    EDGEV_INC = (f"{REPO}/tools/edge_v", f"{REPO}/tools/edge_v/src", "/opt/vp/deps/include")
    CUT_INC = (f"{REPO}/tools/edge_cut", f"{REPO}/tools/edge_cut/src", "/opt/vp/deps/include")

    def edge_defs(self, el, eq, order, prec=64, cruns=1, rms=0):
        return [f"PP_T_ELEMENTS_{el}", f"PP_T_EQUATIONS_{eq}", f"PP_ORDER={order}", f"PP_PRECISION={prec}", f"PP_N_CRUNS={cruns}",
                f"PP_N_RELAXATION_MECHANISMS={rms}", "PP_T_KERNELS_VANILLA", "PP_HAS_HDF5"]

    def compile(self, src, flags, tag="", cc="g++"):
        if not os.path.isabs(src):
            src = f"{self.dir}/{src}"
        obj = f"{self.build}/{tag}{re.sub('[^A-Za-z0-9_.]', '_', src[1:])}.o"
        self.jobs.append((obj, [cc, "-c", src, "-o", obj] + flags))
        return obj

    def flush(self):
        def one(j):
            r = subprocess.run(j[1], capture_output=True, text=True)
            return j, r
        jobs, self.jobs = self.jobs, []
        seen, todo = set(), []
        for j in jobs:
            if j[0] not in seen:
                seen.add(j[0]); todo.append(j)
        with cf.ThreadPoolExecutor(NPROC) as ex:
            for j, r in ex.map(one, todo):
                if r.returncode:
                    raise CheckError("compile failed: " + " ".join(j[1]) + "\n" + r.stderr[-6000:])

    def link(self, name, objs, libs=(), san=True, extra=()):
        exe = f"{self.build}/{name}"
        cmd = ["g++", "-o", exe] + objs + ["-fopenmp"] + list(extra) + (self.SAN if san else []) + list(libs)
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            raise CheckError("link failed: " + " ".join(cmd) + "\n" + r.stderr[-6000:])
        return exe

    def vh_objs(self, san=True, tag=""):
        fl = self.flags(std="c++14", san=san)
        return [self.compile(f"{LIB}/vh.cpp", fl, tag), self.compile(f"{LIB}/vhlog.cpp", fl, tag)]

    HDF5 = ("/usr/lib/x86_64-linux-gnu/hdf5/serial/libhdf5_hl.so", "/usr/lib/x86_64-linux-gnu/hdf5/serial/libhdf5.so")


def read_live(path):
    try:
        d = open(path, "rb").read()
        n = struct.unpack_from("i", d, 0)[0]
        n = max(0, min(n, 4000))
        ch = struct.unpack_from(f"{n}i", d, 4)
        txt = d[4 + 16000:].split(b"\0")[0].decode(errors="replace")
        return list(ch), txt
    except Exception:
        return [], ""


def run_env(extra=None):
    e = dict(os.environ)
    e.update(OMP_NUM_THREADS="1", ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0", UBSAN_OPTIONS="halt_on_error=1:print_stacktrace=0")
    e.update(extra or {})
    return e


def crash_key(rc, err):
    m = re.search(r"VHLOG (.*)", err)
    if m:
        return "fatal", m.group(1)[:300]
    m = re.search(r"SUMMARY: AddressSanitizer: (.*)", err)
    if m:
        return "memory", m.group(1)[:300]
    m = re.search(r"runtime error: (.*)", err)
    if m:
        return "undefined", m.group(1)[:300]
    if rc == 98:
        return "hang", "the execution exceeded its CPU limit"
    m = re.search(r"Assertion .*", err)
    return "crash", (m.group(0)[:300] if m else f"exit code {rc}")


def run_vh(ctx, exe, name, shards=1, depth=2, args=(), budget=700, case_cpu=20, env=None, cwd=None):
    """runs a vh harness, sharded; returns merged result."""
    base = f"{ctx.build}/out_{name}"
    wd = cwd or f"{ctx.build}/wd_{name}"
    tier = ["--thorough"] if ctx.thorough else []

    def one(k):
        w = f"{wd}_{k}"
        shutil.rmtree(w, ignore_errors=True); os.makedirs(w)
        out, live = f"{base}_{k}.json", f"{base}_{k}.live"
        for p in (out, live):
            if os.path.exists(p): os.remove(p)
        cmd = [exe, "--out", out, "--live", live, "--shard", f"{k}/{shards}", "--depth", str(depth), "--budget", str(budget), "--case-cpu", str(case_cpu)] + tier + list(args)
        try:
            r = subprocess.run(cmd, capture_output=True, text=True, errors="replace", env=run_env(env), cwd=w, timeout=budget + 120)
            rc, err = r.returncode, r.stderr
        except subprocess.TimeoutExpired as ex:
            rc, err = -99, ""
        return k, rc, err, out, live, w

    res = dict(name=name, complete=True, evaluations=0, skipped=0, edges=0, distinct=0, nontrivial=0, distinct_nontrivial=0, counts={}, samples=[], violations=[])
    with cf.ThreadPoolExecutor(NPROC) as ex:
        for k, rc, err, out, live, w in ex.map(one, range(shards)):
            if rc == 0 and os.path.exists(out):
                d = json.load(open(out))
                for f in ("evaluations", "skipped", "edges", "distinct", "nontrivial", "distinct_nontrivial"):
                    res[f] += d[f]
                res["complete"] &= d["complete"]
                for c, v in d["counts"].items():
                    res["counts"][c] = res["counts"].get(c, 0) + v
                if len(res["samples"]) < 6:
                    res["samples"] += d["samples"][:2]
                for v in d["violations"]:
                    v.update(exe=exe, args=list(args), unit=name, wd=w, env=env or {})
                    res["violations"].append(v)
            elif rc == 97:
                raise CheckError(f"{name}: nondeterministic replay in shard {k}: {err[-500:]}")
            else:
                ch, txt = read_live(live)
                key, msg = crash_key(rc, err)
                res["complete"] = False
                res["violations"].append(dict(key=key, msg=msg, text=txt, choices=",".join(map(str, ch)), exe=exe, args=list(args), unit=name, wd=w, env=env or {}, crash=True))
                log(f"{name} shard {k}: rc={rc} {key} {msg}\n{err[-1500:]}")
    return res


def replay_vh(ctx, v):
    tier = ["--thorough"] if ctx.thorough else []
    cmd = [v["exe"], "--replay", v["choices"], "--case-cpu", "60"] + tier + v["args"]
    os.makedirs(v["wd"], exist_ok=True)
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, errors="replace", env=run_env(v.get("env")), cwd=v["wd"], timeout=200)
        rc, o = r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired:
        return v.get("key") == "hang", "timeout"
    if v.get("crash"):
        return rc not in (0, 97), o
    return rc == 1 and "REPRODUCED key=" + v["key"] in o, o


def run_eng(ctx, exe, name, configs, budget=300, jobs=NPROC, max_states=8e6, total=None):
    """explores every configuration (list of argument lists) with the controlled scheduler, in parallel; returns a merged unit."""
    res = dict(name=name, complete=True, evaluations=0, states=0, transitions=0, terminal=0, distinct_nontrivial=0, configurations=len(configs), capped=[], samples=[], violations=[])
    tstart = time.time()
    stop = [None]

    def one(ic):
        i, c = ic
        if stop[0] is not None and time.time() > stop[0]:
            return i, c, None, "", ""
        left = budget if total is None else min(budget, total - (time.time() - tstart))
        if left < 3:
            return i, c, None, "", ""
        out = f"{ctx.build}/{name}_{i}.rp"
        p = subprocess.Popen([exe] + c + [f"--budget={left}", f"--max-states={max_states}", f"--out={out}"], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", cwd=ctx.build)
        o, e, t0 = "", "", time.time()
        while True:
            try:
                o, e = p.communicate(timeout=1)
                break
            except subprocess.TimeoutExpired:
                if stop[0] is not None and time.time() > stop[0]:  # a violation was found elsewhere
                    p.kill(); p.communicate()
                    return i, c, None, "", ""
                if time.time() - t0 > left * 2 + 300:
                    p.kill(); p.communicate()
                    raise CheckError(f"{name}: engine doesn't end on {c}")
        if p.returncode == 1 and stop[0] is None:
            stop[0] = time.time() + 20
        return i, c, p.returncode, o, e

    with cf.ThreadPoolExecutor(jobs) as ex:
        for i, c, rc, o, e in ex.map(one, enumerate(configs)):
            if rc is None:
                res["complete"] = False; res["capped"].append(" ".join(c)); continue
            if rc not in (0, 1):
                raise CheckError(f"{name}: engine failed on {c}: rc={rc} {o[-300:]} {e[-1500:]}")
            d = json.loads(o.strip().splitlines()[-1])
            res["states"] += d["states"]; res["transitions"] += d["transitions"]; res["terminal"] += d["terminal"]
            res["evaluations"] += d["transitions"]; res["distinct_nontrivial"] += d["states"]
            if not d["complete"]:
                res["complete"] = False; res["capped"].append(" ".join(c))
            if "violation" in d:
                v = dict(key=re.sub(r"[0-9.,;()\[\]x-]+.*", "", d["violation"])[:60].strip(), msg=d["violation"], text=" ".join(c), unit=name, choices=d["decisions"], cmd=[exe] + c)
                rp = f"{ctx.build}/{name}_{i}.rp"
                oks = []
                if "during setup" in d["violation"] or "before the exploration" in d["violation"]:
                    for _ in range(2):
                        r2 = subprocess.run([exe] + c, capture_output=True, text=True, cwd=ctx.build, timeout=600)
                        oks.append(r2.returncode == 1 and d["violation"][:40] in json.loads(r2.stdout.strip().splitlines()[-1]).get("violation", ""))
                else:
                    for _ in range(2):
                        r2 = subprocess.run([exe] + c + [f"--replay={rp}"], capture_output=True, text=True, errors="replace", cwd=ctx.build, timeout=600)
                        oks.append(r2.returncode == 1 and "violation:" in r2.stdout)
                v["replayed"] = all(oks); v["replay_out"] = r2.stdout[-3000:]
                v["trace"] = r2.stdout[-6000:] if r2 else ""
                res["violations"].append(v); res["complete"] = False
            elif len(res["samples"]) < 5:
                res["samples"].append(f'{" ".join(c)}: {d["states"]} states, {d["transitions"]} transitions, depth {d["maxdepth"]}, {d["terminal"]} final states')
    return res


def load_known(pid):
    p = f"{VERIF}/known-findings.json"
    if not os.path.exists(p):
        return []
    return [f for f in json.load(open(p))["findings"] if f["property"] == pid and f.get("status") == "known"]


def main():
    pid, tier = sys.argv[1], sys.argv[2]
    os.chdir(VERIF)
    ctx = Ctx(pid, tier)
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    shutil.rmtree(ctx.build, ignore_errors=True)
    os.makedirs(ctx.build)
    os.makedirs(f"{VERIF}/evidence", exist_ok=True)
    os.makedirs(f"{VERIF}/replays", exist_ok=True)
    for f in glob.glob(f"{VERIF}/replays/{pid}-*"):
        os.remove(f)
    spec = importlib.util.spec_from_file_location("check", f"{VERIF}/checks/{pid}/check.py")
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    try:
        out = mod.check(ctx)
    except CheckError as e:
        print("ERROR", e)
        sys.exit(2)
    except mod_errors() as e:
        import traceback
        traceback.print_exc()
        print("ERROR", e)
        sys.exit(2)
    units = out["units"]
    known = load_known(pid)
    violations, kf = [], set()
    perkey = {}
    for u in units:
        for v in u["violations"]:
            ident = f'{v.get("unit","")}:{v["key"]}: {v["msg"]} | {v.get("text","")}'
            hit = [k for k in known if re.search(k["match"], ident, re.S)]
            if hit:
                kf.add(hit[0]["what"])
                continue
            perkey[(v.get("unit"), v["key"])] = perkey.get((v.get("unit"), v["key"]), 0) + 1
            if perkey[(v.get("unit"), v["key"])] > 2:
                continue
            violations.append(v)
    confirmed, unconfirmed = [], []
    for v in violations:
        if "replayed" in v:
            ok, o = v["replayed"], v.get("replay_out", "")
        else:
            ok, o = replay_vh(ctx, v)
            if ok:
                ok2, o2 = replay_vh(ctx, v)
                ok = ok and ok2
        if not ok:
            log("violation did not replay:", v["key"], v["msg"], o[-800:])
            unconfirmed.append(v)
            continue
        confirmed.append(v)
    if unconfirmed and not confirmed:
        for v in unconfirmed:
            print("ERROR violation did not replay:", v["key"], v["msg"])
        sys.exit(2)
    for w in sorted(kf):
        print(f"KNOWN-FINDING: property={pid} {w}")
    vout = []
    for i, v in enumerate(confirmed):
        p = f"{VERIF}/replays/{pid}-{i}.json"
        json.dump({k: v[k] for k in v if k not in ("replay_out",)}, open(p, "w"), indent=1)
        print(f"VIOLATION property={pid} replay={p}")
        print(f'  {v.get("unit","")} {v["key"]}: {v["msg"]}\n  case: {v.get("text","")[:1500]}')
        if "exe" in v:
            print(f'  replay: {v["exe"]} --replay "{v["choices"]}" {" ".join(v["args"])}')
        vout.append(dict(replay=p, key=v["key"], message=v["msg"]))
    cov = dict(states=sum(u.get("states", u.get("distinct", 0)) for u in units),
               transitions=sum(u.get("transitions", u.get("edges", 0)) for u in units),
               traces_validated_against_impl=sum(u.get("evaluations", 0) for u in units),
               distinct_nontrivial=sum(u.get("distinct_nontrivial", 0) for u in units),
               exhaustive=all(u["complete"] for u in units),
               rule=out.get("rule", ""),
               bounds=out.get("bounds", ""),
               samples=sum([[f'{u["name"]}: {s}' for s in u["samples"][:3]] for u in units], [])[:14],
               units=[{k: u[k] for k in u if k not in ("samples", "violations")} for u in units])
    ev = dict(property=pid, tier=tier, seed=seed, level=out.get("level", "model_checking"), coverage=cov, wall_s=round(time.time() - ctx.t0, 2),
              assumptions=out.get("assumptions", []), violations=len(vout))
    ev.update(known_findings=sorted(kf), violation_list=vout)
    json.dump(ev, open(f"{VERIF}/evidence/{pid}.json", "w"), indent=1)
    print(f'{pid} {tier}: states={cov["states"]} transitions={cov["transitions"]} executions={cov["traces_validated_against_impl"]} nontrivial={cov["distinct_nontrivial"]} '
          f'exhaustive={cov["exhaustive"]} violations={len(vout)} wall={ev["wall_s"]}s')
    if not confirmed and not cov["exhaustive"] and out.get("require_complete", True):
        incomplete = [u["name"] for u in units if not u["complete"] and not u["violations"]]
        if incomplete:
            log("capped units:", incomplete)
    if not confirmed and cov["distinct_nontrivial"] == 0:
        print("ERROR vacuous exploration")
        sys.exit(2)
    if "--keep" not in sys.argv and not confirmed:
        shutil.rmtree(ctx.build, ignore_errors=True)
    sys.exit(1 if confirmed else 0)


def mod_errors():
    return (OSError, KeyError, ValueError, subprocess.SubprocessError)


if __name__ == "__main__":
    import run
    run.main()
