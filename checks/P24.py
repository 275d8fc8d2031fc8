"""P24 output schedule: files left by real runs against the recorded sequence of step times."""
import sys, os, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from workloads import *
from outfiles import *

GRIDS = {2: [(1, 1), (2, 1), (1, 2), (2, 2), (3, 1), (1, 3)], 3: [(1, 1, 1), (2, 1, 1), (1, 1, 2), (1, 2, 1), (2, 2, 1)]}


def cases_of(ctx, build, mpi, sdm):
    rng = ctx.rng; out = []
    for solver in MUSCL if not sdm else [sdm_name(d, N) for d, N in SDM_KINDS]:
        dim = dim_of(solver); k0 = int(rng.integers(100))
        for rep in range(ctx.pick((30 if not mpi else 10) if not sdm else 6, (120 if not mpi else 40) if not sdm else 20)):
            g = GRIDS[dim][(k0 + rep) % len(GRIDS[dim])] if mpi else (1,) * dim
            n = shape(rng, dim, 4 if not sdm else 2, (10 if dim == 2 else 6) if not sdm else 4, (150 if not mpi else 60) if not sdm else 16, distinct=not sdm)
            nout = [int(rng.integers(1, 9)), int(rng.integers(1, 4)), int(rng.integers(8, 40)), -1, int(-rng.integers(2, 5)), 0, int(rng.integers(1, 9)), 1][int(rng.integers(8))]
            o = dict(hdf5_enabled=bool(not sdm and rng.random() < .8), vtk_enabled=bool(sdm or rng.random() < .6), outputPrefix="out", outputDir=str(rng.choice(["./", "res"])), outputVtkAscii=bool(rng.random() < .3), ghostIncluded=bool(rng.random() < .3))
            if not o["hdf5_enabled"]: o["vtk_enabled"] = True
            tend = float(10 ** rng.uniform(-2, -.3)); cap = int(rng.choice([400, 400, int(rng.integers(1, 12)), int(rng.integers(12, 60))]))
            ini = solver_ini(solver, n, None, [int(rng.integers(1, 4))] * 2 + [int(rng.integers(1, 4))] * 2 + [int(rng.integers(1, 4))] * 2, problem=str(rng.choice(["implode", "blast"])), hydro=dict(cfl=float(rng.choice([.2, .4, .6])) if not sdm else .2),
                             run=dict(tEnd=tend, nStepmax=cap, nOutput=nout), extra=dict(output=o, sdm=dict(limiter_enabled=True, positivity_enabled=True, ssprk2=True)) if sdm else dict(output=o), mpi=(tuple(g) + (1,) * (3 - dim)) if mpi else None)
            cls = "%s:%s" % (solver, "mpi" if mpi else "serial")
            c = Case("%s-%d" % (cls, rep), ini, [], {}, np_=int(np.prod(g)), exe=build.exe["main"], info=dict(cls=cls, solver=solver, g=g, n=n, o=o, nout=nout, tend=float(np.float32(tend)), cap=cap, sdm=sdm))
            c.prep = lambda c: os.makedirs(os.path.join(c.dir, c.info["o"]["outputDir"]), exist_ok=True)
            ini2 = {k: dict(v) for k, v in ini.items()}; ini2["run"]["nOutput"] = 0; ini2["output"].update(hdf5_enabled=False, vtk_enabled=False)
            c.trace = Case("trace-" + c.name, ini2, ["stepq 1000000"], {}, np_=c.np, info=dict(cls=cls)); out.append(c)
    return out


def schedule(T, nout, tend):
    """indices of the steps to be written, for each the acceptable ones; None when some step passes several requested times"""
    N = len(T) - 1
    if nout == 0: return []
    if nout < 0: return [{k} for k in range(N + 1)]
    I = tend / nout; exp = [{0}]
    for k in range(1, nout):
        after = [i for i, t in enumerate(T) if t >= k * I * (1 - 1e-12)]
        if not after: break
        i = after[0]
        if i == N: break            # reached by the last step only: the final state
        ok = {i}
        if abs(T[i] - k * I) <= 1e-9 * I: ok.add(i + 1)   # equality up to rounding
        exp.append(ok)
    # the last requested time is the end of the run
    return exp + [{N}]


def look(ctx, c):
    """-> list of (times as read, or None) in number order and complaints"""
    I = c.info; d = os.path.join(c.dir, I["o"]["outputDir"]); bad = []; got = {}
    allf = os.listdir(d)
    for ext in ("h5", "vti", "vtu", "pvti", "pvtu"):
        f = sorted(q for q in allf if q.endswith("." + ext)); nums = {}
        for q in f:
            m = re.match(r"out_(?:time)?(\d{7})(?:_mpi(\d{5}))?\.%s$" % ext, q)
            if not m: bad.append("unexpected file " + q); continue
            nums.setdefault(int(m.group(1)), []).append(q)
        if f: got[ext] = nums
    want = set()
    if I["nout"] != 0:
        mp = c.mpi
        if I["o"]["hdf5_enabled"]: want.add("h5")
        if I["o"]["vtk_enabled"]: want |= ({"vtu", "pvtu"} if mp else {"vtu"}) if I["sdm"] else ({"vti", "pvti"} if mp else {"vti"})
    if set(got) != want: bad.append("kinds of files %s instead of %s" % (sorted(got), sorted(want)))
    times = None
    for ext, nums in got.items():
        if sorted(nums) != list(range(len(nums))): bad.append("%s files are numbered %s" % (ext, sorted(nums)))
        per = c.np if ext in ("vti", "vtu") and c.mpi else 1
        if any(len(v) != per for v in nums.values()): bad.append("%s: %s files per output" % (ext, sorted(set(map(len, nums.values())))))
    ns = set(len(v) for v in got.values())
    if len(ns) > 1: bad.append("different numbers of outputs: %s" % {k: len(v) for k, v in got.items()})
    count = max(ns) if ns else 0
    if "h5" in got:
        times = [read_h5(ctx, os.path.join(d, got["h5"][k][0]))[0].get("total time") for k in sorted(got["h5"])]
        steps = [read_h5(ctx, os.path.join(d, got["h5"][k][0]))[0].get("time step") for k in sorted(got["h5"])]
        if steps != sorted(got["h5"]): bad.append("step attributes %s" % steps)
    elif "vtu" in got: times = [float(read_vtk(os.path.join(d, got["vtu"][k][0]))[1]["TIME"][0]) for k in sorted(got["vtu"])]
    x = os.path.join(d, "out.xmf")
    if I["o"]["hdf5_enabled"] and I["nout"] != 0:
        if not os.path.exists(x): bad.append("no wrapper file")
        else:
            refs = re.findall(r"(\S+\.h5):/rho\s", open(x).read())
            if refs != ["out_%07d.h5" % k for k in range(count)]: bad.append("wrapper lists %s for %d outputs" % (refs[:12], count))
            if len(re.findall(r"<Time ", open(x).read())) != count: bad.append("wrapper has another number of times")
    return count, times, bad, "h5" in got


def judge(ctx, c):
    I = c.info; rec = c.trace.rec[0] if c.mpi else c.trace.rec; T = [m["t"] for m in rec.metas]; count, times, exact = c.count, c.times, c.exact
    bad = list(c.bad); nout = I["nout"]; D = np.diff(T)
    if not np.isfinite(T).all() or (len(D) and D.min() <= 0): return bad, "blown up"   # numbering and naming only
    if nout == 0:
        if count: bad.append("%d outputs although output is disabled" % count)
        return bad, "disabled"
    if not len(D): return bad, "no step"
    idx = None
    if times is not None:
        if any(b <= a for a, b in zip(times, times[1:])): bad.append("times do not increase: %s" % times[:12])
        near = [int(np.nanargmin(np.abs(np.array(T) - t))) for t in times]
        if any((T[i] != t) if exact else abs(T[i] - t) > 1e-5 * abs(t) for i, t in zip(near, times)): bad.append("output times %s are not times of steps" % times[:12])
        idx = near
        if exact is False and len(set(idx)) < len(idx): idx = None   # printed times do not tell the steps apart
    kind = "every step" if nout < 0 else "n"
    if nout > 0 and D.max() >= I["tend"] / nout:   # a step may pass several requested times: only order, first and last are judged
        kind = "coarse"
        if idx and (idx[0] != 0 or idx[-1] != len(T) - 1): bad.append("first or last output missing")
    else:
        exp = schedule(T, nout, I["tend"])
        if count != len(exp): bad.append("%d outputs instead of %d (steps %s, expected %s)" % (count, len(exp), idx, [sorted(e) for e in exp]))
        elif idx and any(i not in e for i, e in zip(idx, exp)): bad.append("outputs at steps %s, expected %s" % (idx, [sorted(e) for e in exp]))
    return bad, kind + (":capped" if len(T) - 1 == I["cap"] else "")


def group(ctx, build, mpi, sdm):
    cases = cases_of(ctx, build, mpi, sdm)
    done = set(map(id, ctx.run([c.trace for c in cases], build, mpi=mpi))); cases = [c for c in cases if id(c.trace) in done]

    def after(c):
        if c.rc == 0: c.count, c.times, c.bad, c.exact = look(ctx, c)
    ctx.run_plain(cases, mpi, after)
    for c in cases:
        I = c.info
        if c.rc != 0: ctx.violation("run-failed:" + I["cls"], "the program did not complete (%s)\n%s" % (c.rc, c.out[-800:]), c); continue
        bad, kind = judge(ctx, c); ctx.observe((I["cls"], kind, I["o"]["hdf5_enabled"], I["o"]["vtk_enabled"], c.count), max(1, c.count))
        for k in ("runs " + kind, "outputs"): ctx.stats[k] = ctx.stats.get(k, 0) + (c.count if k == "outputs" else 1)
        for b in bad[:2]: ctx.violation("%s:%s" % (I["cls"], kind), "%s nOutput=%d tEnd=%g nStepmax=%d output %s: %s" % (c.name, I["nout"], I["tend"], I["cap"], I["o"], b), c)
        if not bad and len(ctx.samples) < 6: ctx.sample("%s nOutput=%d: %d outputs at times %s" % (c.name, I["nout"], c.count, c.times and c.times[:5]))


def run(ctx):
    ctx.rule = "one evaluation = one output of a real run placed in the recorded sequence of step times; distinct = (solver, decomposition, kind of schedule, writers, number of outputs)"
    ctx.assumptions = ["a run makes at least one step", "the exact times are judged when every step is shorter than the output interval; otherwise order, numbering, first and last output"]
    group(ctx, Build(ctx, mains=("hx", "main")), False, False)
    group(ctx, Build(ctx, mains=("hx", "main"), mpi=True, sdm=True), True, False)
    group(ctx, Build(ctx, mains=("hx", "main"), sdm=True), False, True)
    group(ctx, Build(ctx, mains=("hx", "main"), mpi=True, sdm=True), True, True)
    ctx.min_evals = 600


if __name__ == "__main__": main("P24", run)
