"""P05 schedule independence: the same run under many virtual thread counts and iteration orders compared bitwise, real
OpenMP thread counts compared bitwise, and race detection by ThreadSanitizer."""
import sys, os, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from configs import *

ATOMIC_TOL = 1e-12


def draw_shape(rng, dim, solver, N, big):
    lo = min_size(solver, N)
    hi = (5 if dim == 2 else 3) if N else (14 if dim == 2 else 8)
    if big: hi = hi * 2
    return [int(x) for x in rng.integers(lo, hi + 1, dim)]


def variants(ctx, rng, k):
    """(tag, environment, threads) of the executions compared with the plain single-thread one"""
    out = [("asc", dict(HX_OMP="seq", HX_VNT=str(int(rng.integers(2, 9))), HX_OMPSEED="0")),
           ("desc", dict(HX_OMP="seq", HX_VNT=str(int(rng.choice([2, 5, 64, 500]))), HX_OMPSEED="1")),
           ("rnd", dict(HX_OMP="seq", HX_VNT=str(int(rng.choice([3, 16, 200, 500]))), HX_OMPSEED=str(int(rng.integers(2, 1 << 30)))))]
    if k % 4 == 0: out.append(("pt", dict(HX_OMP="pt", HX_VNT=str(int(rng.integers(2, 9))), HX_OMPSEED=str(int(rng.integers(2, 1 << 30))))))
    for _ in range(ctx.pick(1, 5)):
        out.append(("rnd%d" % _, dict(HX_OMP="seq", HX_VNT=str(int(rng.choice([7, 50, 500]))), HX_OMPSEED=str(int(rng.integers(2, 1 << 30))))))
    return out


def judge(ctx, ref, c, what):
    """bitwise comparison of two recordings (per rank)"""
    if c.rec is None or ref.rec is None: return
    A = ref.rec if isinstance(ref.rec, list) else [ref.rec]; B = c.rec if isinstance(c.rec, list) else [c.rec]
    if not all(r.complete for r in A + B): return
    I = ref.info; atomic = I["mhd"] and I["impl"] > 0; nv = 8 if I["mhd"] else 2 + I["dim"]
    if not all(np.isfinite(q["U"]).all() for r in A for q in r.states):
        ctx.stats["reference not finite"] = ctx.stats.get("reference not finite", 0) + 1
        return
    for r, (a, b) in enumerate(zip(A, B)):
        if len(a.states) != len(b.states) or len(a.metas) != len(b.metas):
            ctx.violation("steps:%s" % I["cls"], "%d states / %d steps with one thread, %d / %d with %s" % (len(a.states), len(a.metas), len(b.states), len(b.metas), what), c, I); return
        for x, y in zip(a.metas, b.metas):
            for k in ("t", "dt"):
                e = abs(x[k] - y[k]) / max(abs(x[k]), 1e-300) if x[k] != y[k] else 0.0
                ctx.stat_max("largest relative difference of %s%s" % (k, " (atomic variants)" if atomic else ""), e)
                if not e <= (ATOMIC_TOL if atomic else 0):
                    ctx.violation("%s:%s" % (k, I["cls"]), "%s=%r with one thread, %r with %s (iteration %d, process %d) %s" % (k, x[k], y[k], what, x["it"], r, I), c, I); return
        for x, y in zip(a.states, b.states):
            if x["tag"] == "f" and x["full"] and atomic: tolok = True
            same = np.array_equal(x["U"], y["U"])
            e, w = (0.0, 0) if same else state_diff(y["U"], x["U"], nv)
            ctx.stat_max("largest state difference%s" % (" (atomic variants)" if atomic else ""), e)
            g = c.rec[0].gomp if isinstance(c.rec, list) else c.rec.gomp
            ctx.observe((I["cls"], tuple(I["n"]), what.split()[0], x["it"], c.name))
            if not (same or (atomic and e <= ATOMIC_TOL)):
                d = np.abs(x["U"] - y["U"]); at = np.unravel_index(np.nanargmax(np.where(np.isfinite(d), d, 1e300)), d.shape)
                ctx.violation("state:%s" % I["cls"], "after step %d the state with %s differs from the one with a single thread by %.3g (variable %d, largest at %s, process %d): %s" % (x["it"], what, e, w, at[:3], r, I), c, I); return


def make(ctx, rng, sdm_kinds, reps, big=False, mpi=False, steps=3):
    for gi, (solver, N, impl, what) in enumerate(schedule(sdm_kinds, rng, *reps)):
        dim = 3 if "3D" in solver else 2
        m = (1, 1, 1)
        if mpi: m = [(2, 1, 1), (1, 2, 1), (2, 2, 1)][gi % 3] if dim == 2 else [(2, 1, 1), (1, 2, 1), (1, 1, 2), (2, 1, 2)][gi % 4]
        loc = draw_shape(rng, dim, solver, N, big)
        n = [loc[d] * m[d] for d in range(dim)]
        ini, head, arrays, info = config(rng, solver, N, impl, what, n)
        yield gi, ini(loc, m if mpi else None), head + ["dump i", "step %d" % steps, "dumpfull f"], arrays, info, m


def orders(ctx, build, sdm_kinds, mpi):
    rng = ctx.rng; groups = []; cases = []
    reps = ctx.pick((25, 8, 8, 4, 8), (150, 30, 60, 15, 40)) if not mpi else ctx.pick((2, 1, 2, 1, 1), (12, 4, 12, 3, 6))
    for gi, ini, script, arrays, info, m in make(ctx, rng, sdm_kinds, reps, mpi=mpi, steps=ctx.pick(3, 5)):
        np_ = int(np.prod(m))
        def mk(tag, env): return Case("%s%d-%s" % ("m" if mpi else "s", gi, tag), ini, script, arrays, np_=np_, env=env, info=info, timeout=60)
        g = [mk("one", dict(HX_OMP="seq", HX_VNT="1", HX_OMPSEED="0"))]
        vs = variants(ctx, rng, gi)
        if mpi: vs = vs[1:3]
        g += [mk(t, e) for t, e in vs]
        groups.append(g); cases += g
    for c in cases: c.mpi = mpi
    for c in cases: c.exe = build.exe["hxg"]
    ctx.run(cases, build, mpi=mpi)
    reg = 0
    for g in groups:
        for c in g[1:]:
            e = c.env
            judge(ctx, g[0], c, "%s virtual threads (%s, order seed %s)" % (e["HX_VNT"], e["HX_OMP"], e["HX_OMPSEED"]))
            r = c.rec[0] if isinstance(c.rec, list) and c.rec else c.rec
            if r is not None and r.gomp:
                reg += r.gomp["regions"]
                if r.gomp["conc"] != int(e["HX_VNT"]): raise CheckError("the replaced runtime was not used")
    k = "parallel regions executed with a chosen order" + (" (MPI)" if mpi else "")
    ctx.stats[k] = ctx.stats.get(k, 0) + reg


def real(ctx, build, sdm_kinds):
    rng = ctx.rng; groups = []; flat = {}
    for gi, ini, script, arrays, info, m in make(ctx, rng, sdm_kinds, ctx.pick((1, 0, 1, 0, 1), (6, 2, 4, 1, 2)), big=True):
        th = [1, 8] + [int(rng.integers(2, 8))]
        g = [Case("r%d-%d" % (gi, t), ini, script, arrays, info=info, threads=t, timeout=60) for t in th]
        groups.append(g)
        for c in g: flat.setdefault(c.threads, []).append(c)
    for t in sorted(flat): ctx.run(flat[t], build)
    for g in groups:
        for c in g[1:]: judge(ctx, g[0], c, "%d OpenMP threads" % c.threads)


def atomic_only(r):
    """the report names the initial plain read of the library's own compare-and-swap loop against another of its atomics"""
    tops = re.findall(r"(?:Read|Write|read|write|Atomic read|Atomic write|atomic read|atomic write) of size \d+ at .*?\n\s+#0 (.*)", r)
    return len(tops) >= 2 and all("desul::" in t or "Kokkos::atomic" in t or "Kokkos::Impl::atomic" in t or "__tsan_atomic" in t for t in tops)


def races(ctx, build, sdm_kinds, mpi=False):
    rng = ctx.rng; cases = []
    reps = ctx.pick((8, 4, 5, 3, 4), (40, 12, 25, 8, 15))
    for gi, ini, script, arrays, info, m in make(ctx, rng, sdm_kinds, reps, steps=2):
        nt = int(rng.integers(6, 17))
        cases.append(Case("t%d" % gi, ini, script[:-1] + ["dumpfull f"], arrays, info=info, timeout=120,
                          env=dict(HX_OMP="pt", HX_VNT=str(nt), HX_OMPSEED=str(int(rng.integers(2, 1 << 30))),
                                   TSAN_OPTIONS="halt_on_error=0:exitcode=66:history_size=4:report_thread_leaks=0:second_deadlock_stack=0")))
    for c in cases: c.exe = build.exe["hxg"]
    ctx.run(cases, build, check_rc=False)
    reg = 0
    for c in cases:
        out = c.out or ""
        reports = [r for r in out.split("WARNING: ThreadSanitizer: ")[1:] if not atomic_only(r)]
        if reports:
            r = reports[0]
            f = re.findall(r"#\d+ (.*?) (?:/\S*/)?([\w\.]+):(\d+)", r)
            site = next(("%s:%s" % (b, l) for a, b, l in f if "Kokkos" not in b and b not in ("gomp.inc", "Generic.hpp")), "?")
            ctx.violation("race:%s" % site, "data race reported in %s (%s): %s" % (site, c.info["cls"], r[:1500]), c, "".join(reports)[:20000])
        elif c.rc not in (0, 66) or c.rec is None or not c.rec.complete:
            if c.rc != "skipped": ctx.violation("run-failed:%s" % c.info["cls"], "the run under the race detector ended with %s: %s" % (c.rc, out[-800:]), c)
            continue
        if c.rec is not None and c.rec.gomp: reg += c.rec.gomp["regions"]
        ctx.observe(("tsan", c.info["cls"], tuple(c.info["n"])))
    ctx.stats["parallel regions watched by the race detector"] = ctx.stats.get("parallel regions watched by the race detector", 0) + reg


def run(ctx):
    rng = ctx.rng
    ctx.rule = ("virtual OpenMP runtime (1..500 virtual threads, ascending/descending/random order of the chunks, or POSIX threads) and the real one (1..8 threads): "
                "states, ghost cells, t and dt of every step bitwise equal to the single-thread run (MHD variants 1 and 2, which accumulate atomically: within %g); "
                "ThreadSanitizer build with 6..16 POSIX threads per region: no data race reported" % ATOMIC_TOL)
    ctx.assumptions = ["The random Kelvin-Helmholtz perturbation is left out (one generator per thread)",
                       "Iterations of one Kokkos tile are executed in order by one thread, as in the real back end"]
    k2 = [(2, n) for n in range(1, 7)]; k3 = [(3, n) for n in (2, 3, 4)]
    kinds = SDM_KINDS if not ctx.quick else [k2[i] for i in sorted(rng.choice(6, 3, replace=False))] + [k3[i] for i in sorted(rng.choice(3, 2, replace=False))]
    b = Build(ctx, mains=("hx", "hxg"), sdm=True, sdm_kinds=kinds, opt="-O1")
    orders(ctx, b, kinds, False)
    ctx.note("orders (serial)")
    real(ctx, b, kinds)
    ctx.note("real threads")
    tk = kinds if not ctx.quick else [k2[int(rng.integers(1, 4))], k3[int(rng.integers(0, 2))]]
    bt = Build(ctx, sdm=True, sdm_kinds=tk, mains=("hxg",), san="tsan", opt="-O0")
    races(ctx, bt, tk)
    ctx.note("race detection")
    mk = kinds if not ctx.quick else [tk[0], tk[1]]
    bm = Build(ctx, mains=("hxg",), mpi=True, sdm=True, sdm_kinds=mk, opt="-O1")
    orders(ctx, bm, mk, True)
    ctx.note("orders (MPI)")


if __name__ == "__main__":
    main("P05", run)
