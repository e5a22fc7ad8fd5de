"""Builds the time stepping harness: the program under test (main.cpp and everything it uses) with instrumented memory accesses,
stand-ins for mesh, configuration, kernels and files, and the controlled scheduler instead of the OpenMP (and MPI) runtime."""
import os, shutil, subprocess
import run as R
SRC = "main.cpp parallel/Shared.cpp parallel/LoadBalancing.cpp parallel/Distributed.cpp parallel/global.cpp time/Manager.cpp time/TimeGroupStatic.cpp io/Receivers.cpp mesh/EdgeV.cpp " \
      "data/Dynamic.cpp dg/Basis.cpp setups/Cpu.cpp io/logging.cpp data/EntityLayout.cpp impl/seismic/setups/Elasticity.cpp impl/seismic/setups/ViscoElasticity.cpp".split()
LANG = ["-std=c++14", "-O1", "-g1", "-w", "-fno-pie"]
def build(ctx, name="lts", mpi=False, adv=False, swe=False):
    b = f"{ctx.build}/{name}_b"
    shutil.copytree(ctx.repo + "/src", b + "/src")
    shutil.copytree(ctx.lib + "/lts/overlay", b + "/src", dirs_exist_ok=True)
    if adv:
        shutil.copytree(ctx.lib + "/lts/overlay_adv", b + "/src", dirs_exist_ok=True)
    if swe:
        shutil.copytree(ctx.lib + "/lts/overlay_swe", b + "/src", dirs_exist_ok=True)
    p = b + "/src/io/inc/setup_recv.inc"
    s = open(p).read()
    open(p, "w").write(s.replace("l_internal.m_vertexChars );", "l_internal.m_vertexChars, lts::S.bufSize );"))
    inst = LANG + ["-fopenmp", "-fsanitize=thread", "--param", "tsan-distinguish-volatile=1", "-ftrivial-auto-var-init=zero", "-U_FORTIFY_SOURCE", "-include", "lts/pre.h"] + \
        [f"-I{i}" for i in (b, b + "/src", ctx.lib + "/lts/stub", ctx.lib + "/stub", ctx.lib, ctx.repo, "/opt/vp/deps/include")] + ["-isystem", "/usr/include/eigen3", "-isystem", "/usr/include/hdf5/serial"] + \
        [f"-D{d}" for d in (ctx.edge_defs("TRIA3", "ADVECTION", 3) + ["LTS_ADV"] if adv else ctx.edge_defs("TRIA3", "SWE", 1) + ["LTS_SWE"] if swe else ctx.edge_defs("TRIA3", "SEISMIC", 2)) + ["PP_USE_OMP", "PP_USE_EASYLOGGING", 'PP_EDGE_VERSION="v"', "EIGEN_MAX_STATIC_ALIGN_BYTES=0"]]
    src = [x for x in SRC if not ((adv or swe) and x.startswith("impl/seismic"))]
    if mpi:
        inst += ["-DPP_USE_MPI"]; src += ["parallel/MpiRemix.cpp"]
    objs = [ctx.compile(f"{b}/src/{x}", inst, name + "_") for x in src] + [ctx.compile(ctx.lib + "/lts/mesh.cpp", inst, name + "_")]
    objs += [ctx.compile(ctx.lib + f"/lts/{x}.cpp", LANG + [f"-I{ctx.lib}"] + (["-DPP_USE_MPI"] if mpi else []) + (["-DLTS_ADV"] if adv else ["-DLTS_SWE"] if swe else []), name + "_") for x in ["lts", "driver", "globals"] + (["mpi"] if mpi else [])]
    objs += [ctx.compile(ctx.repo + "/submodules/FastGL/fastgl.cpp", LANG, name + "_")]
    ctx.jobs.append((f"{ctx.build}/libeng.so", ["g++", "-std=c++17", "-O2", "-fPIC", "-shared", "-fno-omit-frame-pointer", "-U_FORTIFY_SOURCE", "-w", f"-I{ctx.lib}", ctx.lib + "/eng/eng.cpp", "-o", f"{ctx.build}/libeng.so", "-ldl"]))
    ctx.flush()
    subprocess.run(["objcopy", "--redefine-sym", "main=edge_main", objs[0]], check=True)
    w = "".join(f",--wrap={x}" for x in "malloc calloc free realloc posix_memalign memcpy memmove memset".split())
    exe = f"{ctx.build}/{name}"
    r = subprocess.run(["g++", "-nostdlib++", "-no-pie", "-o", exe] + objs + ["-Wl,-z,now" + w, f"-Wl,-rpath,{ctx.build}", f"-L{ctx.build}", "-leng", "-lstdc++", "-lm"], capture_output=True, text=True)
    if r.returncode:
        raise R.CheckError("link failed\n" + r.stderr[-5000:])
    return exe
def cfg(**k):
    return [f"--{a}={v}" for a, v in k.items()]
