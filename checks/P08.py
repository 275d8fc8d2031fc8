"""P08 output files: every file a run writes is read back by an independent reader and compared with the recorded state."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from workloads import *
from outfiles import *

GRIDS = {2: [(1, 1), (2, 1), (1, 2), (3, 1), (1, 3), (2, 2), (4, 1), (3, 2), (2, 3), (1, 4)],
         3: [(1, 1, 1), (2, 1, 1), (1, 2, 1), (1, 1, 2), (3, 1, 1), (1, 1, 3), (2, 2, 1), (1, 2, 2), (2, 1, 2), (2, 2, 2), (3, 2, 1), (1, 3, 2), (2, 1, 3)]}


def nsolver(solver):
    d = dim_of(solver)
    return 8 if "MHD" in solver else 2 + d


def out_names(solver, N=None):
    d = dim_of(solver) if N is None else None
    return NAMES[:8] if "MHD" in solver else NAMES[:4] if "2D" in solver else NAMES[:5]


def options(rng, mpi):
    o = dict(hdf5_enabled=True, vtk_enabled=True, outputVtkAscii=bool(rng.random() < .35), ghostIncluded=bool(rng.random() < .4),
             outputHdf5CompressionLevel=int(rng.integers(0, 10)), outputPrefix=str(rng.choice(["out", "run.1", "a_b-c", "test_2D"])), outputDir=str(rng.choice(["./", ".", "res", "res/"])))
    if mpi:
        o["allghostIncluded"] = bool(rng.random() < .35); o["reassembleInFile"] = bool(rng.random() < .6)
    if rng.random() < .1: o["hdf5_verbose"] = True
    if rng.random() < .15: o["vtk_enabled"] = False
    elif rng.random() < .15: o["hdf5_enabled"] = False
    return o


def make_cases(ctx, mpi):
    rng = ctx.rng; cases = []; reps = ctx.pick(80 if not mpi else 26, 300 if not mpi else 200)
    for solver in MUSCL:
        dim = dim_of(solver); mhd = "MHD" in solver; k0 = int(rng.integers(100))
        for rep in range(reps):
            g = (1,) * dim
            if mpi: g = GRIDS[dim][(k0 + rep) % len(GRIDS[dim])]
            n = shape(rng, dim, 4 if not mpi else 3, 11 if dim == 2 else 8, 500 if not mpi else 160)
            if not mpi and rng.random() < .15: n[int(rng.integers(dim))] = 1 if not mhd else 3
            if mhd: n = [max(3, q) for q in n]
            elif mpi: n = [max(2, q) for q in n]
            L = extents(rng, dim); N = [a * b for a, b in zip(n, g)]
            nv = 8 if mhd else 2 + dim
            U = cons_any(rng, N, dim, mhd); wide = rng.random() < .35   # saved as injected: any values will do
            if wide: U = 10 ** rng.uniform(-9, 9, U.shape) * rng.choice([-1, 1], U.shape) * (rng.random(U.shape) < .97)
            bc = [3] * 6
            for d in range(dim):
                if rng.random() < .6: bc[2 * d], bc[2 * d + 1] = int(rng.integers(1, 3)), int(rng.integers(1, 3))
            o = options(rng, mpi); steps = int(rng.integers(0, 4)); first = int(rng.integers(0, 3))
            if wide: steps = first = 0
            ini = solver_ini(solver, n, L, bc, problem="implode", hydro=dict(cfl=.3), other=dict(implementationVersion=int(rng.choice(impls(solver)))), extra=dict(output=o),
                             mpi=(tuple(g) + (1,) * (3 - dim)) if mpi else None)
            sc = ["inject U"] + ["stepq 1"] * first + ["save", "dumpfull a"] + ["stepq 1"] * steps + ["save", "dumpfull b"]
            cls = "%s:%s" % (solver, "mpi%s" % "x".join(map(str, g)) if mpi else "serial")
            c = Case("%s-%d" % (cls, rep), ini, sc, {"U": U}, np_=int(np.prod(g)), info=dict(cls=cls, solver=solver, dim=dim, mhd=mhd, n=n, g=g, L=L, o=o, mpi=mpi, its=(first, first + steps)))
            cases.append(c)
    return cases


def cons_any(rng, N, dim, mhd):
    sh = tuple(N) + (1,) * (3 - dim)
    U = np.zeros(sh + (8 if mhd else 2 + dim,))
    rho = rng.uniform(.5, 2, sh); U[..., ID] = rho; v = rng.uniform(-1, 1, sh + (3,)); p = rng.uniform(.5, 2, sh)
    for d in range(3 if mhd else dim): U[..., IU + d] = rho * v[..., d]
    E = p / .4 + .5 * sum(U[..., IU + d] ** 2 for d in range(3 if mhd else dim)) / rho
    if mhd:
        for d in range(3): U[..., IA + d] = .1 * rng.uniform(-1, 1, sh)
        E = E + .5
    U[..., IP] = E
    return U


def judge(ctx, c):
    """all complaints about the files of one execution"""
    I = c.info; o = I["o"]; dim, n, g, mpi = I["dim"], I["n"], I["g"], I["mpi"]; names = out_names(I["solver"])
    recs = c.rec if mpi else [c.rec]; bad = []; files = 0
    d = os.path.join(c.dir, o["outputDir"]); pre = o["outputPrefix"]; gw = 3 if I["mhd"] else 2
    n3 = list(n) + [1] * (3 - dim); g3 = list(g) + [1] * (3 - dim); w3 = [gw] * dim + [0] * (3 - dim)
    h = [(np.float32(I["L"][q][1]).astype(float) - float(np.float32(I["L"][q][0]))) / (n[q] * g[q]) for q in range(dim)] + [0] * (3 - dim)
    org = [float(np.float32(I["L"][q][0])) for q in range(dim)] + [0] * (3 - dim)
    pos = [r.mpi["pos"][:dim] for r in recs] if mpi else [[0] * dim]
    expect = set()
    for s, it in enumerate(I["its"]):
        S = [[q for q in r.states if q["tag"] == "ab"[s]][0] for r in recs]; full = [q["U"] for q in S]; t = S[0]["t"]
        inner = [f[tuple(slice(w, f.shape[k] - w) for k, w in enumerate(w3))] for f in full]
        G = np.full([n3[k] * g3[k] for k in range(3)] + [full[0].shape[3]], np.nan)
        for p, f in zip(pos, inner):
            p3 = list(p) + [0] * (3 - dim); G[tuple(slice(p3[k] * n3[k], (p3[k] + 1) * n3[k]) for k in range(3))] = f
        if o["hdf5_enabled"]:
            gi, ai, re_ = o["ghostIncluded"], mpi and o["allghostIncluded"], not mpi or o["reassembleInFile"]
            if not re_: F = np.concatenate(full if gi or ai else inner, axis=dim - 1)
            elif ai:
                m = [n3[k] + 2 * w3[k] for k in range(3)]; F = np.full([m[k] * g3[k] for k in range(3)] + [G.shape[3]], np.nan)
                for p, f in zip(pos, full):
                    p3 = list(p) + [0] * (3 - dim); F[tuple(slice(p3[k] * m[k], (p3[k] + 1) * m[k]) for k in range(3))] = f
            elif gi:
                F = np.full([n3[k] * g3[k] + 2 * w3[k] for k in range(3)] + [G.shape[3]], np.nan); amb = np.zeros(F.shape[:3], bool)
                for p, f in zip(pos, full):
                    p3 = list(p) + [0] * (3 - dim); sl = tuple(slice(p3[k] * n3[k], (p3[k] + 1) * n3[k] + 2 * w3[k]) for k in range(3))
                    F[sl] = f
                for p, f in zip(pos, inner):   # interior values have one owner
                    p3 = list(p) + [0] * (3 - dim); F[tuple(slice(p3[k] * n3[k] + w3[k], (p3[k] + 1) * n3[k] + w3[k]) for k in range(3))] = f
            else: F = G
            A = {"time step": s, "total time": t, "nx": n3[0], "ny": n3[1], "nz": n3[2]}
            if mpi: A.update({"mx": g3[0], "my": g3[1], "mz": g3[2]})
            fn = "%s_%07d.h5" % (pre, s); expect.add(fn); files += 1
            if not os.path.exists(os.path.join(d, fn)): bad.append(("h5", "no file " + fn))
            else: bad += [("h5", "%s: %s" % (fn, b)) for b in judge_h5(ctx, os.path.join(d, fn), F, names, A)]
        if o["vtk_enabled"]:
            ez = lambda a: [a, a + n3[2]] if dim == 3 else [0, 0]
            pieces = {}
            for r, (p, f) in enumerate(zip(pos, inner)):
                p3 = list(p) + [0] * (3 - dim)
                ext = [p3[0] * n[0], (p3[0] + 1) * n[0], p3[1] * n[1], (p3[1] + 1) * n[1]] + (ez(p3[2] * n3[2]))
                fn = "%s_time%07d_mpi%05d.vti" % (pre, s, r) if mpi else "%s_%07d.vti" % (pre, s)
                expect.add(fn); files += 1; pieces[fn] = ext
                if not os.path.exists(os.path.join(d, fn)): bad.append(("vti", "no file " + fn)); continue
                bad += [("vti", "%s: %s" % (fn, b)) for b in judge_vti(os.path.join(d, fn), f, names, ext, org, h, dim, o["outputVtkAscii"])]
            if mpi:
                fn = "%s_time%07d.pvti" % (pre, s); expect.add(fn); files += 1
                whole = [0, g[0] * n[0], 0, g[1] * n[1]] + ([0, g[2] * n[2]] if dim == 3 else [0, 0])
                if not os.path.exists(os.path.join(d, fn)): bad.append(("pvti", "no file " + fn))
                else: bad += [("pvti", "%s: %s" % (fn, b)) for b in judge_pvti(os.path.join(d, fn), names, whole, org, h, dim, pieces)]
    got = set(q for q in os.listdir(d) if q.startswith(pre) and q != "out.bin" and not q.startswith("out.bin"))
    if got != expect: bad.append(("files", "files %s, expected %s" % (sorted(got - expect), sorted(expect - got))))
    return bad, files


def prep(c):
    """the output directory has to exist"""
    d = os.path.join(c.dir, c.info["o"]["outputDir"]); os.makedirs(d, exist_ok=True)


def sdm_cases(ctx, mpi):
    rng = ctx.rng; cases = []; reps = ctx.pick(6, 40)
    for dim, N in SDM_KINDS:
        k0 = int(rng.integers(100))
        for rep in range(reps if dim == 2 else reps):
            g = (1,) * dim
            if mpi: g = GRIDS[dim][(k0 + rep) % len(GRIDS[dim])]
            n = shape(rng, dim, 1 if not mpi else 2, 6 if dim == 2 else 4, 30 if not mpi else 16, distinct=False); L = extents(rng, dim)
            NN = [a * b for a, b in zip(n, g)]
            U = sdm_state(rng, NN, L, dim, N, "noise", amp=.2, mach=.3)
            bc = [3] * 6
            for d in range(dim):
                if rng.random() < .6: bc[2 * d], bc[2 * d + 1] = int(rng.integers(1, 3)), int(rng.integers(1, 3))
            o = options(rng, mpi); o.update(hdf5_enabled=False, vtk_enabled=True)
            if rng.random() < .25: o["outputDateAndTime"] = True
            steps = int(rng.integers(0, 3)); first = int(rng.integers(0, 3))
            ini = solver_ini(sdm_name(dim, N), n, L, bc, problem="implode", hydro=dict(cfl=.2), extra=dict(output=o, sdm={str(rng.choice(INTEG)): True}), mpi=(tuple(g) + (1,) * (3 - dim)) if mpi else None)
            sc = ["inject U"] + ["stepq 1"] * first + ["save", "dump a"] + ["stepq 1"] * steps + ["save", "dump b"]
            cls = "SDM%dD-%d:%s" % (dim, N, "mpi%s" % "x".join(map(str, g)) if mpi else "serial")
            cases.append(Case("%s-%d" % (cls, rep), ini, sc, {"U": U}, np_=int(np.prod(g)), info=dict(cls=cls, solver=sdm_name(dim, N), dim=dim, N=N, n=n, g=g, L=L, o=o, mpi=mpi, its=(first, first + steps))))
    return cases


def judge_sdm(ctx, c):
    I = c.info; o = I["o"]; dim, n, g, mpi, N = I["dim"], I["n"], I["g"], I["mpi"], I["N"]
    recs = c.rec if mpi else [c.rec]; bad = []; files = 0; expect = set(); pre = o["outputPrefix"]
    d = os.path.join(c.dir, o["outputDir"]); names = NAMES[:2 + dim]
    n3 = list(n) + [1] * (3 - dim)
    L0 = [float(np.float32(I["L"][q][0])) for q in range(dim)]
    h = [(float(np.float32(I["L"][q][1])) - L0[q]) / (n[q] * g[q]) for q in range(dim)]
    pos = [r.mpi["pos"][:dim] for r in recs] if mpi else [[0] * dim]
    for s, it in enumerate(I["its"]):
        S = [[q for q in r.states if q["tag"] == "ab"[s]][0] for r in recs]; pieces = []
        for r, (p, q) in enumerate(zip(pos, S)):
            fn = "%s_time%07d_mpi%05d.vtu" % (pre, s, r) if mpi else "%s_%07d.vtu" % (pre, s)
            expect.add(fn); pieces.append(fn); files += 1
            if not os.path.exists(os.path.join(d, fn)): bad.append(("vtu", "no file " + fn)); continue
            bad += [("vtu", "%s: %s" % (fn, b)) for b in judge_vtu(os.path.join(d, fn), sdm_view(q["U"], dim, N), names, n3, [p[k] * n[k] for k in range(dim)], L0, h, sdm_nodes(N), dim, N, s, q["t"], o["outputVtkAscii"])]
        if mpi:
            fn = "%s_time%07d.pvtu" % (pre, s); expect.add(fn); files += 1
            if not os.path.exists(os.path.join(d, fn)): bad.append(("pvtu", "no file " + fn))
            else: bad += [("pvtu", "%s: %s" % (fn, b)) for b in judge_pvtu(os.path.join(d, fn), names, pieces)]
    got = set(q for q in os.listdir(d) if q.startswith(pre) and not q.startswith("out.bin"))
    if got != expect: bad.append(("files", "files %s, expected %s" % (sorted(got - expect), sorted(expect - got))))
    return bad, files


def run_group(ctx, cases, build, mpi, judge_):
    res = {}
    for c in cases: c.prep = prep

    def after(c):
        ok = c.rc == 0 and c.rec is not None and all(r.complete for r in (c.rec if mpi else [c.rec]))
        if ok: res[c.name] = judge_(ctx, c)
    for c in ctx.run(cases, build, mpi=mpi, after=after):
        bad, files = res[c.name]; o = c.info["o"]
        ctx.observe((c.info["cls"], tuple(sorted((k, str(v)) for k, v in o.items() if k not in ("outputPrefix", "outputDir", "outputHdf5CompressionLevel")))), files)
        ctx.stats["files"] = ctx.stats.get("files", 0) + files
        for kind, b in bad[:3]:
            ctx.violation("%s:%s" % (c.info["cls"].split(":")[0] + (":mpi" if mpi else ":serial"), kind), "%s, options %s: %s" % (c.name, o, b), c)
        if not bad: ctx.sample("%s %s: %d files agree with the recorded state" % (c.name, {k: v for k, v in o.items() if v is True}, files))


def main_runs(ctx, build, mpi, sdm=False):
    """the real program: its files hold the states of the steps they stand for, and the wrapper file lists them"""
    rng = ctx.rng; cases = []; traces = []
    for solver in MUSCL if not sdm else [sdm_name(d, N) for d, N in SDM_KINDS]:
        dim = dim_of(solver); k0 = int(rng.integers(100))
        for rep in range(ctx.pick(10 if not sdm else 4, 40 if not sdm else 20)):
            g = GRIDS[dim][(k0 + rep) % len(GRIDS[dim])] if mpi else (1,) * dim
            n = shape(rng, dim, 4 if not sdm else 2, (9 if dim == 2 else 6) if not sdm else 4, (200 if not mpi else 100) if not sdm else 20, distinct=not sdm); L = extents(rng, dim); o = options(rng, mpi)
            if sdm: o.update(hdf5_enabled=False, vtk_enabled=True)
            nout = int(rng.choice([-1, -3, -1, 1, 2, 3, 5, 12]))
            ini = solver_ini(solver, n, L, [1, 2, 1, 1, 2, 2], problem=str(rng.choice(["implode", "blast"])), run=dict(tEnd=float(10 ** rng.uniform(-2.5, -1)), nStepmax=int(rng.integers(1, 25)), nOutput=nout),
                             hydro=dict(cfl=.2 if sdm else .4), extra=dict(output=o, sdm=dict(limiter_enabled=True, positivity_enabled=True, ssprk3=True)) if sdm else dict(output=o), mpi=(tuple(g) + (1,) * (3 - dim)) if mpi else None)
            cls = "%s:%s:main" % (solver, "mpi" if mpi else "serial")
            c = Case("%s-%d" % (cls, rep), ini, [], {}, np_=int(np.prod(g)), exe=build.exe["main"], info=dict(cls=cls, solver=solver, dim=dim, n=n, g=g, L=L, o=o, mpi=mpi, nout=nout, N=0 if not sdm else int(solver.split("degree")[1])))
            c.prep = prep; cases.append(c); ini2 = {k: dict(v) for k, v in ini.items()}
            ini2["run"]["nOutput"] = 0; ini2["output"].update(hdf5_enabled=False, vtk_enabled=False)
            t = Case("trace-" + c.name, ini2, ["dump s", "step 1000"], {}, np_=c.np, info=dict(cls=cls)); c.trace = t; traces.append(t)
    done = set(map(id, ctx.run(traces, build, mpi=mpi)))
    cases = [c for c in cases if id(c.trace) in done]

    def after(c):
        if c.rc != 0: c.bad = None; return
        I = c.info; o = I["o"]; dim, n, g = I["dim"], I["n"], I["g"]; gw = 3 if "MHD" in I["solver"] else 2; pre = o["outputPrefix"]
        d = os.path.join(c.dir, o["outputDir"]); names = out_names(I["solver"]); recs = c.trace.rec if mpi else [c.trace.rec]; c.bad = []
        T = [s["t"] for s in recs[0].states]; w3 = [gw] * dim + [0] * (3 - dim); pos = [r.mpi["pos"][:dim] for r in recs] if mpi else [[0] * dim]; n3 = list(n) + [1] * (3 - dim)
        gi, ai, re_ = o["ghostIncluded"], mpi and o.get("allghostIncluded"), not mpi or o["reassembleInFile"]
        files = c.files = sorted(q for q in os.listdir(d) if q.startswith(pre + "_") and q.endswith(".h5"))
        for k, f in enumerate(files):   # the state of the step whose time the file carries
            A, D = read_h5(ctx, os.path.join(d, f))
            q = [i for i, t in enumerate(T) if t == A.get("total time")]
            if not q: c.bad.append("%s carries the time %r, which is not the time of a step" % (f, A.get("total time"))); continue
            if I["nout"] < 0 and q != [k]: c.bad.append("%s holds step %s" % (f, q)); continue
            for p, r in zip(pos, recs):
                U = r.states[q[0]]["U"]; sl = []
                for a in range(dim):
                    if not re_: s0 = (gw if gi or ai else 0)
                    elif ai: s0 = p[a] * (n[a] + 2 * gw) + gw
                    else: s0 = p[a] * n[a] + (gw if gi else 0)
                    sl.append([s0, n[a]])
                if not re_: sl[dim - 1][0] += (n[dim - 1] + (2 * gw if gi or ai else 0)) * recs.index(r)
                for v, nm in enumerate(names):
                    e = U[..., v].transpose(2, 1, 0); e = e if dim == 3 else e[0]
                    if nm not in D or not np.array_equal(D[nm][tuple(slice(x, x + y) for x, y in sl[::-1])], e, equal_nan=True): c.bad.append("%s: %s is not that of step %d" % (f, nm, q[0])); break
        vtk = sorted(q for q in os.listdir(d) if q.startswith(pre + "_") and q.endswith((".vti", ".vtu")))
        if I["nout"] < 0 and o["vtk_enabled"]:   # file k holds step k
            for k in range(len(T)):
                for r, rec in enumerate(recs):
                    ext = "vtu" if I["N"] else "vti"; fn = "%s_time%07d_mpi%05d.%s" % (pre, k, r, ext) if mpi else "%s_%07d.%s" % (pre, k, ext)
                    if fn not in vtk: c.bad.append("no file " + fn); continue
                    S = rec.states[k]; p = pos[r]; org = [float(I["L"][q][0]) for q in range(dim)]; h = [(I["L"][q][1] - I["L"][q][0]) / (n[q] * g[q]) for q in range(dim)]
                    if I["N"]: c.bad += [fn + ": " + x for x in judge_vtu(os.path.join(d, fn), sdm_view(S["U"], dim, I["N"]), NAMES[:2 + dim], n3, [p[a] * n[a] for a in range(dim)], org, h, sdm_nodes(I["N"]), dim, I["N"], k, S["t"], o["outputVtkAscii"])]
                    else:
                        e6 = sum([[p[a] * n[a], (p[a] + 1) * n[a]] for a in range(dim)], []) + [0, 0] * (3 - dim)
                        c.bad += [fn + ": " + x for x in judge_vti(os.path.join(d, fn), S["U"], names, e6, org, h, dim, o["outputVtkAscii"])]
        c.nvtk = len(vtk)
        if not o["hdf5_enabled"]: return
        w = 2 * gw if gi or ai else 0
        if not re_: sh = [n[k] + w for k in range(dim)]; sh[dim - 1] *= int(np.prod(g))
        elif ai: sh = [(n[k] + w) * g[k] for k in range(dim)]
        else: sh = [n[k] * g[k] + w for k in range(dim)]
        sh = sh[::-1]; p = os.path.join(d, pre + ".xmf")
        if not os.path.exists(p): c.bad.append("no wrapper file beside the HDF5 files"); return
        if files != ["%s_%07d.h5" % (pre, k) for k in range(len(files))] or not files: c.bad.append("file numbers " + str(files))
        A, D = read_h5(ctx, os.path.join(d, files[0]))
        if any(v.shape != tuple(sh) for v in D.values()): c.bad.append("dataset shapes %s instead of %s" % ([v.shape for v in D.values()], sh))
        c.bad += ["wrapper: " + x for x in judge_xmf(ctx, p, files, names, sh)]
    run_main(ctx, cases, mpi, after)
    for c in cases:
        if c.bad is None: ctx.violation("run-failed:" + c.info["cls"], "the program did not complete (%s)\n%s" % (c.rc, c.out[-800:]), c); continue
        ctx.observe((c.info["cls"], len(c.files), c.info["g"], c.info["o"]["ghostIncluded"]))
        for b in c.bad[:2]: ctx.violation(c.info["cls"], "%s, options %s nOutput %d: %s" % (c.name, c.info["o"], c.info["nout"], b), c)
        for k, v in (("wrapper files", int(c.info["o"]["hdf5_enabled"])), ("files of the real program", len(c.files) + c.nvtk)): ctx.stats[k] = ctx.stats.get(k, 0) + v


def run_main(ctx, cases, mpi, after):
    """run the real program (no recording)"""
    for c in cases: c.mpi = mpi; c.bad = None; c.files = []
    ctx.run_plain(cases, mpi, after)


def run(ctx):
    ctx.rule = "one evaluation = one output file read back and compared value by value with the recorded state; distinct = (solver, process grid, options)"
    ctx.assumptions = ["HDF5 output is enabled for the MUSCL solvers only (the SDM writer has none)", "text output has 6 significant digits", "the output directory exists"]
    b = Build(ctx, mains=("hx", "main")); run_group(ctx, make_cases(ctx, False), b, False, judge); main_runs(ctx, b, False)
    m = Build(ctx, mains=("hx", "main"), mpi=True, sdm=True)
    run_group(ctx, make_cases(ctx, True), m, True, judge); main_runs(ctx, m, True)
    run_group(ctx, sdm_cases(ctx, True), m, True, judge_sdm)
    main_runs(ctx, m, True, sdm=True)
    s = Build(ctx, mains=("hx", "main"), sdm=True); run_group(ctx, sdm_cases(ctx, False), s, False, judge_sdm); main_runs(ctx, s, False, sdm=True)
    ctx.min_evals = 1500


if __name__ == "__main__": main("P08", run)
