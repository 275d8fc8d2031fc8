"""P07 restart: runs resumed from the files of recorded runs, compared with the recorded states; upscaled restarts compared with the file."""
import sys, os, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from workloads import *
from outfiles import *

GRIDS = {2: [(1, 1), (2, 1), (1, 2), (3, 1), (1, 3), (2, 2), (3, 2), (2, 3), (4, 1), (1, 4)],
         3: [(1, 1, 1), (2, 1, 1), (1, 2, 1), (1, 1, 2), (2, 2, 1), (1, 2, 2), (2, 1, 2), (2, 2, 2), (3, 1, 2), (1, 3, 1), (1, 1, 3), (3, 2, 1)]}
TOL = 1e-11


def globalsize(rng, dim, mhd, up):
    """even global sizes with several process grids; one process may own 3 cells (MHD) or 2"""
    return [int(rng.choice([8, 12, 16, 20, 24] if dim == 2 else [6, 8, 12])) for _ in range(dim)]


def grids_for(N, dim, lo, even):
    return [g for g in GRIDS[dim] if all(a % b == 0 and a // b >= lo and (not even or (a // b) % 2 == 0) for a, b in zip(N, g))]


def base(ctx, solver, N, g, L, bc, o, hyd, oth, run, mpi):
    dim = dim_of(solver)
    return solver_ini(solver, [a // b for a, b in zip(N, g)], L, bc, problem="implode", hydro=hyd, other=oth, run=run, extra=dict(output=o, gravity=dict(static=False)), mpi=(tuple(g) + (1,) * (3 - dim)) if mpi else None)


def plan(ctx, builds, reps):
    rng = ctx.rng; out = []
    for solver in MUSCL:
        dim = dim_of(solver); mhd = "MHD" in solver; lo = 3 if mhd else 2
        for rep in range(reps):
            wm, rm = [(0, 0), (0, 1), (1, 0), (1, 1), (1, 1)][rep % 5]
            up = rng.random() < .3
            mode = str(rng.choice(["none", "ghost", "allghost"] if wm and rm else ["none", "ghost"]))
            if up and mode == "none": mode = "ghost"
            for t in range(1000):
                N = globalsize(rng, dim, mhd, up); NB = [2 * q for q in N] if up else N
                if int(np.prod(NB)) > 2600: continue
                A = grids_for(N, dim, lo, False) if wm else [(1,) * dim]
                B = grids_for(NB, dim, 2 * lo if up else lo, up) if rm else [(1,) * dim]
                if wm and rm and mode == "allghost": A = B = [g for g in A if g in B]
                if A and B and len(set(N)) > 1: break
            gA = A[int(rng.integers(len(A)))]; gB = B[int(rng.integers(len(B)))] if mode != "allghost" else gA
            L = extents(rng, dim); bc = [3] * 6
            for d in range(dim):
                if rng.random() < .5: bc[2 * d], bc[2 * d + 1] = int(rng.integers(1, 3)), int(rng.integers(1, 3))
            hyd = dict(cfl=float(rng.choice([.3, .5])), riemann=str(rng.choice(riemanns(solver))), slope_type=int(rng.integers(0, 3))); oth = dict(implementationVersion=int(rng.choice(impls(solver))))
            o = dict(hdf5_enabled=True, outputHdf5CompressionLevel=int(rng.integers(0, 10)), ghostIncluded=mode == "ghost", allghostIncluded=mode == "allghost", reassembleInFile=True, outputPrefix="out")
            if mode == "allghost" and rng.random() < .5: o["ghostIncluded"] = True
            every = rng.random() < .5
            tend = float(rng.uniform(.02, .12)) if not every else 1e10
            run = dict(tEnd=tend, nOutput=-1 if every else int(rng.integers(2, 6)))
            U = state(rng, solver, N, L, kind=str(rng.choice(["smooth", "blocks", "mixed"])))
            K = int(rng.integers(1, 6)) if every else 40
            cls = "%s:%s>%s:%s%s" % (solver, "x".join(map(str, gA)) if wm else "serial", "x".join(map(str, gB)) if rm else "serial", mode, ":upscale" if up else "")
            a = Case("%s-%d" % (cls, rep), base(ctx, solver, N, gA, L, bc, o, hyd, oth, run, wm), ["inject U", "dump s", "save", "step %d" % K, "save"], {"U": U}, np_=int(np.prod(gA)), exe=builds[wm].exe["hx"],
                     info=dict(cls=cls, solver=solver, dim=dim, mhd=mhd, wm=wm, rm=rm, up=up, mode=mode, N=N, NB=NB, gA=gA, gB=gB, L=L, bc=bc, o=o, hyd=hyd, oth=oth, run=run, pick=float(rng.random()), reset=rng.random() < .15, ob=dict(o, outputHdf5CompressionLevel=int(rng.integers(0, 10)))))
            out.append(a)
    return out


def h5files(d):
    return sorted(f for f in os.listdir(d) if f.endswith(".h5"))


def differ(A, B):
    """largest difference relative to the variable's scale"""
    return state_diff(A, B, A.shape[3])[0]


def resume(ctx, builds, cases):
    """stage A has run (directories kept): choose a file of each, resume from it, judge"""
    todo = []
    for a in cases:
        I = a.info
        recs = a.rec if I["wm"] else [a.rec]; I["A"] = assemble(recs, None, "s") if False else merge(recs)
        if not all(np.isfinite(S["U"]).all() for S in I["A"]): continue
        fs = h5files(a.dir)
        if not fs: ctx.violation("no-file:" + I["cls"], "the run left no file", a); continue
        k = min(int(I["pick"] * len(fs)), len(fs) - 1); I["k"] = k; I["nfiles"] = len(fs)
        if k == len(fs) - 1 and len(fs) > 1 and I["pick"] < .97: k = I["k"] = len(fs) - 2
        path = os.path.join(a.dir, fs[k])
        at, ds = read_h5(ctx, path); I["attr"] = at
        idx = [i for i, S in enumerate(I["A"]) if S["t"] == at["total time"]]
        if not idx: ctx.violation("file-time:" + I["cls"], "%s: time %r in %s is none of the times of the run" % (a.name, at["total time"], fs[k]), a); continue
        I["i"] = i = idx[0]
        run = dict(I["run"], restart_enabled=1, restart_filename=path, restart_upscale=I["up"])
        if I["reset"]: run["restart_reset_totaltime"] = True
        M = len(I["A"]) - 1 - i if not I["up"] and not I["reset"] else 1
        sc = ["dump r", "save"] + (["step %d" % M] if M else []) + ["save"]
        if I["up"]: sc = ["dump r"]
        b = Case("resumed-" + a.name, base(ctx, I["solver"], I["NB"], I["gB"], I["L"], I["bc"], I["ob"], I["hyd"], I["oth"], run, I["rm"]), sc, {}, np_=int(np.prod(I["gB"])), exe=builds[I["rm"]].exe["hx"], info=dict(I, a=a, M=M))
        todo.append(b)
    for mpi in (0, 1):
        for b in ctx.run([b for b in todo if b.info["rm"] == mpi], builds[mpi], mpi=bool(mpi), keep=True):
            judge(ctx, b)
            shutil.rmtree(b.dir, ignore_errors=True)
    for a in cases: shutil.rmtree(a.dir, ignore_errors=True)


def merge(recs):
    return [dict(S) for S in assemble(recs)]


def judge(ctx, b):
    I = b.info; a = I["a"]; A = I["A"]; i, k = I["i"], I["k"]; recs = b.rec if I["rm"] else [b.rec]
    B = merge(recs); R = B[0]; m0 = recs[0].metas[0]; bad = []
    ctx.observe((I["cls"], I["oth"]["implementationVersion"], i, tuple(I["bc"])), 1)
    for m in [r.metas[0] for r in recs]:
        if m["saved"] != k: bad.append(("number", "resumes with output number %d instead of %d" % (m["saved"], k)))
        if m["t"] != (0 if I["reset"] else A[i]["t"]): bad.append(("time", "resumes at time %r instead of %r" % (m["t"], A[i]["t"])))
    if I["up"]:
        C = A[i]["U"]; dim = I["dim"]; F = R["U"]; nv = C.shape[3]; f3 = [2] * dim + [1] * (3 - dim)
        n3 = list(I["N"]) + [1] * (3 - dim)
        G = F.reshape(n3[0], f3[0], n3[1], f3[1], n3[2], f3[2], nv)
        mean = G.mean(axis=(1, 3, 5))
        for v in range(nv):
            if v >= IA and v - IA < dim:
                d = v - IA; sl = [slice(None)] * 6; sl[2 * d + 1] = 0; M = G[tuple(sl) + (v,)]; ax = [[1, 3, 5], [1, 3, 5], [1, 3, 5]]
                keep = [q for q in (1, 3, 5) if q != 2 * d + 1]; M = M.mean(axis=tuple(q if q < 2 * d + 1 else q - 1 for q in keep))
            else: M = mean[..., v]
            e = np.abs(M - C[..., v]).max() / max(np.abs(C[..., v]).max(), 1e-300) if np.abs(C[..., v]).max() else np.abs(M).max(); ctx.stat_max("upscaled mean", e)
            if not e < 1e-13: bad.append(("upscale-%d" % v, "variable %d: coarse means differ by %.3g" % (v, e)))
        ctx.stats["upscaled"] = ctx.stats.get("upscaled", 0) + 1
    else:
        if R["U"].shape != A[i]["U"].shape or not np.array_equal(R["U"], A[i]["U"]): bad.append(("state", "the state read from output %d is not the state saved (difference %.3g)" % (k, differ(A[i]["U"], R["U"]) if R["U"].shape == A[i]["U"].shape else np.nan)))
        if not I["reset"]:
            S = B[1:]; ctx.stats["continued steps"] = ctx.stats.get("continued steps", 0) + len(S)
            if len(S) != I["M"]: bad.append(("steps", "%d steps instead of %d" % (len(S), I["M"])))
            for j, (x, y) in enumerate(zip(S, A[i + 1:])):
                e = differ(y["U"], x["U"]); et = max(abs(x["t"] - y["t"]) / abs(y["t"]), abs(x["dt"] - y["dt"]) / (abs(y["dt"]) + 1e-6 * abs(y["t"])))
                ctx.stat_max("continued state", e); ctx.stat_max("continued time", et); ctx.observe((I["cls"], "step", j))
                if not e < TOL: bad.append(("continued", "step %d after the restart: the solution differs by %.3g" % (j + 1, e))); break
                if not et < TOL: bad.append(("continued-time", "step %d after the restart: the time or time step differs by %.3g" % (j + 1, et))); break
            want = ["out_%07d.h5" % q for q in range(k, I["nfiles"])]; got = h5files(b.dir)
            if i == len(A) - 1 and got == ["out_%07d.h5" % k, "out_%07d.h5" % (k + 1)]: got = want   # resumed from the end: the end is written again
            late = I["run"]["nOutput"] > 0 and A[i]["t"] >= (k + 1) * float(np.float32(I["run"]["tEnd"])) / I["run"]["nOutput"] * (1 - 1e-9)   # a step passed several requested times
            if late: pass
            elif got != want: bad.append(("files", "the resumed run wrote %s instead of %s" % (got, want)))
            else:
                for f in want:
                    if f not in os.listdir(b.dir) or f not in os.listdir(a.dir): continue
                    x, y = read_h5(ctx, os.path.join(b.dir, f))[0], read_h5(ctx, os.path.join(a.dir, f))[0]
                    if abs(x["total time"] - y["total time"]) > TOL * abs(y["total time"]): bad.append(("files", "%s is at time %r instead of %r" % (f, x["total time"], y["total time"]))); break
                    if x["time step"] != y["time step"] or x["time step"] != int(f[4:11]): bad.append(("files", "%s carries output number %r, the uninterrupted run's %r" % (f, x["time step"], y["time step"]))); break
    for q, t in bad[:3]: ctx.violation("%s:%s" % (q, I["cls"]), "%s from output %d (step %d) nOutput=%d: %s" % (b.name, k, i, I["run"]["nOutput"], t), b)
    if not bad and len(ctx.samples) < 8: ctx.sample("%s: resumed at step %d of %d from output %d" % (b.name, i, len(A) - 1, k))


GRAV = ["rayleigh_taylor", "rising_bubble", "disk"]
PROBLEMS = {"Hydro_Muscl_2D": ["implode", "blast", "four_quadrant"] + GRAV, "Hydro_Muscl_3D": ["implode", "blast"] + GRAV, "MHD_Muscl_2D": ["orszag_tang", "blast", "implode", "rotor"], "MHD_Muscl_3D": ["orszag_tang", "blast", "implode"]}


def programs(ctx, builds, reps):
    """the real program, run to the end, then resumed in another directory"""
    rng = ctx.rng; A = {0: [], 1: []}
    for solver in MUSCL:
        dim = dim_of(solver)
        for rep in range(reps):
            mpi = rep % 2; g = (1,) * dim
            if mpi: g = [q for q in GRIDS[dim] if int(np.prod(q)) <= 4][int(rng.integers(1, 6))]
            n = shape(rng, dim, 5, 12 if dim == 2 else 7, 120); bc = [int(x) for x in rng.integers(2, 4, 3).repeat(2)]
            mode = str(rng.choice(["none", "ghost", "allghost"] if mpi else ["none", "ghost"])); nout = int(rng.integers(1, 7)) if rng.random() < .7 else -1
            o = dict(hdf5_enabled=True, vtk_enabled=False, outputPrefix="out", ghostIncluded=mode == "ghost", allghostIncluded=mode == "allghost", reassembleInFile=True)
            prob = str(rng.choice(PROBLEMS[solver])) if "MHD" in solver or rep >= 4 else GRAV[(rep // 2 + dim) % 3]
            ini = solver_ini(solver, n, None, bc, problem=prob, hydro=dict(cfl=.4, riemann=str(rng.choice(riemanns(solver)))), other=dict(implementationVersion=int(rng.choice(impls(solver)))),
                             run=dict(tEnd=float(rng.uniform(.02, .15)), nStepmax=150, nOutput=nout), extra=dict(output=o, gravity=dict(static=prob in GRAV[:2], point=prob == "disk", x=.5, y=.5, z=.5), rayleigh_taylor=dict(gx=.4, gy=-1.2, gz=.7), rising_bubble=dict(gx=.5, gy=-.9, gz=.3)), mpi=(tuple(g) + (1,) * (3 - dim)) if mpi else None)
            cls = "%s:%s:program:%s:%s" % (solver, "x".join(map(str, g)) if mpi else "serial", mode, prob)
            A[mpi].append(Case("%s-%d" % (cls, rep), ini, [], {}, np_=int(np.prod(g)), exe=builds[mpi].exe["main"], info=dict(cls=cls, mpi=mpi, nout=nout, pick=float(rng.random()))))
    for mpi in (0, 1):
        ctx.run_plain(A[mpi], bool(mpi), keep=True); Bs = []
        for a in A[mpi]:
            if a.rc != 0: ctx.violation("run-failed:" + a.info["cls"], "the program did not complete (%s)\n%s" % (a.rc, a.out[-800:]), a); continue
            fs = h5files(a.dir); E = [np.abs(read_h5(ctx, os.path.join(a.dir, f))[1]["energy"]).max() for f in fs]
            # a flow that does not reach its end time within the allowed steps, or gains energy, is not a run worth resuming
            if not max(E) < 10 * E[0] or not fs or read_h5(ctx, os.path.join(a.dir, fs[-1]))[0]["total time"] < float(np.float32(a.ini["run"]["tEnd"])) - 1e-12: ctx.stats["unstable flows left out"] = ctx.stats.get("unstable flows left out", 0) + 1; continue
            k = int(a.info["pick"] * (len(fs) - 1)) if len(fs) > 1 else 0; ini = {q: dict(v) for q, v in a.ini.items()}
            ini["run"].update(restart_enabled=1, restart_filename=os.path.join(a.dir, fs[k]))
            Bs.append(Case("resumed-" + a.name, ini, [], {}, np_=a.np, exe=a.exe, info=dict(a.info, a=a, k=k, fs=fs)))
        ctx.run_plain(Bs, bool(mpi), keep=True)
        for b in Bs:
            I = b.info; a = I["a"]; fs = I["fs"]; k = I["k"]
            if b.rc != 0: ctx.violation("run-failed:" + I["cls"], "the resumed program did not complete (%s)\n%s" % (b.rc, b.out[-800:]), b); continue
            got = h5files(b.dir); bad = None; tk = read_h5(ctx, os.path.join(a.dir, fs[k]))[0]["total time"]
            if I["nout"] > 0 and tk >= (k + 1) * float(np.float32(a.ini["run"]["tEnd"])) / I["nout"] * (1 - 1e-9): continue
            if got != fs[k:]: bad = "wrote %s instead of %s" % (got, fs[k:])
            else:
                for q, f in enumerate(got):
                    ax, dx = read_h5(ctx, os.path.join(a.dir, f)); bx, db = read_h5(ctx, os.path.join(b.dir, f)); ctx.observe((I["cls"], I["nout"], len(fs), k, q))
                    if not np.isfinite(dx["rho"]).all(): break
                    if abs(ax["total time"] - bx["total time"]) > TOL * abs(ax["total time"]): bad = "%s is at time %r instead of %r" % (f, bx["total time"], ax["total time"]); break
                    if ax["time step"] != bx["time step"]: bad = "%s carries output number %r instead of %r" % (f, bx["time step"], ax["time step"]); break
                    if sorted(dx) != sorted(db): bad = "%s has other variables" % f; break
                    sc = max(np.abs(dx[v]).max() for v in dx)
                    e = max(np.abs(dx[v] - db[v]).max() / sc if dx[v].shape == db[v].shape else np.inf for v in dx) if "none" in I["cls"] else 0
                    ctx.stat_max("program files", e)
                    if not e < TOL: bad = "%s differs by %.3g from the file of the uninterrupted run" % (f, e); break
            ctx.stats["programs resumed"] = ctx.stats.get("programs resumed", 0) + 1
            if bad: ctx.violation("program:" + I["cls"], "%s from output %d nOutput=%d: the resumed program %s" % (b.name, k, I["nout"], bad), b)
            shutil.rmtree(b.dir, ignore_errors=True)
        for a in A[mpi]: shutil.rmtree(a.dir, ignore_errors=True)


def run(ctx):
    ctx.rule = "one evaluation = one restart judged or one step after it compared; distinct = (solver, process grids of writer and reader, ghost layout, upscaling, variant, step, boundaries)"
    ctx.assumptions = ["restart with the same physical parameters", "files of one global array (reassembleInFile=true)", "flows that reach their end time without blowing up", "reader's process grid divides the file's grid; files with every ghost cell are read on the grid that wrote them"]
    builds = {0: Build(ctx, mains=("hx", "main")), 1: Build(ctx, mains=("hx", "main"), mpi=True, sdm=True)}
    cases = plan(ctx, builds, ctx.pick(40, 160))
    done = []
    for mpi in (0, 1): done += ctx.run([c for c in cases if c.info["wm"] == mpi], builds[mpi], mpi=bool(mpi), keep=True)
    resume(ctx, builds, done)
    programs(ctx, builds, ctx.pick(14, 50))
    ctx.min_evals = 400


if __name__ == "__main__": main("P07", run)
