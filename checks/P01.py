"""P01 conservation: offline conservation checker over recorded state histories."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from workloads import *

NAMES = {ID: "mass", IP: "energy", IU: "momentum-x", IV: "momentum-y", IW: "momentum-z", IA: "Bx", IB: "By", IC: "Bz"}
INTEG = ["forward_euler", "ssprk2", "ssprk3", "ssprk54"]


def muscl_cases(ctx):
    rng = ctx.rng; cases = []
    reps = ctx.pick(10, 60)
    for solver in MUSCL:
        dim = dim_of(solver)
        for impl in impls(solver):
            for rs in riemanns(solver):
                for rep in range(reps):
                    n = shape(rng, dim, 4, 16 if dim == 2 else 9, 500)
                    if rep == 4: n = [int(x) for x in (rng.integers(30, 70, 2) if dim == 2 else rng.integers(10, 20, 3))]
                    L = extents(rng, dim)
                    kind = str(rng.choice(["smooth", "blocks", "random", "mixed"]))
                    st = int(rng.choice([0, 1, 2]))
                    gamma = float(rng.choice([1.4, 1.25, 1.5, 1.6666]))
                    bc = [3] * 6
                    if "Hydro" in solver and rep % 3 == 1:  # walls along some or all axes
                        for d in range(dim):
                            if rep % 2 or rng.random() < 0.5: bc[2 * d] = bc[2 * d + 1] = 1
                    ext = rep % 5 == 3
                    U = state(rng, solver, n, L, kind, gamma=gamma, drho=3.0 if ext else 0.35, dp=3.0 if ext else 0.35, mach=3.0 if ext else 0.5,
                              bamp=float(rng.choice([0.01, 0.5, 2.0])) if ext else 0.5)
                    ini = solver_ini(solver, n, L, bc, hydro=dict(riemann=rs, slope_type=st, gamma0=gamma, cfl=float(rng.choice([0.2, 0.3, 0.4])),
                                     **dict(dict(smallr=1e-8, smallc=1e-8), **cutoffs(rng, U))), other=dict(implementationVersion=impl))
                    ns = int(rng.integers(3, 8)) if rep != 5 else 120
                    cases.append(Case("%s-i%d-%s-%d" % (solver, impl, rs, rep), ini, ["inject U0.bin", "dump s", "step %d" % ns], {"U0.bin": U},
                                      info=dict(cls="%s:impl%d:%s" % (solver, impl, rs), solver=solver, dim=dim, bc=bc, kind=kind + ("+extreme" if ext else ""), st=st, n=n)))
    return cases


def sdm_cases(ctx):
    rng = ctx.rng; cases = []
    for dim, N in SDM_KINDS:
        for integ in INTEG:
            for opt in ("plain", "limited", "positivity", "both"):
                for rep in range(ctx.pick(2, 10)):
                    n = shape(rng, dim, 3, 8 if dim == 2 else 5, 60); L = extents(rng, dim)
                    kind = str(rng.choice(["smooth", "noise", "step"]))
                    U = sdm_state(rng, n, L, dim, N, kind, amp=0.3 if opt != "positivity" else 1.0)
                    sd = {integ: True}
                    if opt in ("limited", "both"): sd.update(limiter_enabled=True, M_TVB=float(rng.choice([0.0, 0.05, 40.0])))
                    if opt in ("positivity", "both"): sd.update(positivity_enabled=True)
                    rs = RIEMANN_H[(rep + INTEG.index(integ) + N) % 4] if rng.random() < 0.5 else str(rng.choice(RIEMANN_H))
                    ini = solver_ini(sdm_name(dim, N), n, L, [3] * 6, hydro=dict(cfl=0.1 if opt != "positivity" else 0.02, riemann=rs), extra=dict(sdm=sd))
                    cases.append(Case("sdm%d-%d-%s-%s-%d" % (dim, N, integ, opt, rep), ini, ["inject U", "dump s", "step %d" % (3 if rep or kind != "smooth" else 24)], {"U": U},
                                      info=dict(cls="SDM_%dD_%d:%s:%s" % (dim, N, integ, opt), solver="SDM", dim=dim, N=N, bc=[3] * 6, kind=kind, st=rs, n=n)))
    return cases


def mpi_cases(ctx, sdm=False):
    rng = ctx.rng; cases = []
    for rep in range(ctx.pick(8, 40)):
        solver = MUSCL[rep % 4]; dim = dim_of(solver)
        m = [(2, 1, 1), (1, 2, 1), (2, 2, 1), (3, 1, 1)] if dim == 2 else [(1, 1, 2), (2, 1, 1), (2, 1, 2), (1, 2, 2)]
        m = m[(rep // 4) % 4]
        n = shape(rng, dim, 4, 9, 300); L = extents(rng, dim)
        N = [n[d] * m[d] for d in range(dim)]
        impl = int(rng.choice(impls(solver))); rs = str(rng.choice(riemanns(solver)))
        U = state(rng, solver, N, L, "mixed", drho=0.35, dp=0.35, mach=0.5)
        ini = solver_ini(solver, n, L, [3] * 6, hydro=dict(riemann=rs, slope_type=int(rng.choice([1, 2]))), other=dict(implementationVersion=impl), mpi=m)
        cases.append(Case("mpi-%s-%d" % (solver, rep), ini, ["inject U", "dump s", "step %d" % (4 if rep % 4 != rep // 4 % 4 else 40)], {"U": U}, np_=m[0] * m[1] * m[2],
                          info=dict(cls="mpi:%s:impl%d:%s" % (solver, impl, rs), solver=solver, dim=dim, bc=[3] * 6, kind="mixed", st=0, n=n, m=m)))
    return cases


def check(ctx, c, s):
    i = c.info; mhd = "MHD" in i["solver"]; dim = i["dim"]
    if len(s) < 2: return
    sdm = i["solver"] == "SDM"
    A = [sdm_average(q["U"], dim, i["N"]) if sdm else q["U"] for q in s]
    U0 = A[0]
    walls = [i["bc"][2 * d] == 1 for d in range(dim)]
    comps = [ID, IP] + [IU + d for d in range(3 if mhd else dim)]
    if mhd: comps += [IA, IB, IC]
    if any(walls): comps = [ID, IP]
    nx = U0[..., 0].size
    for k in range(1, len(s)):
        U = A[k]
        if not np.isfinite(U).all():
            ctx.stats["inconclusive_nonfinite"] = ctx.stats.get("inconclusive_nonfinite", 0) + 1
            return
        for v in comps:
            scale = np.abs(U[..., v]).sum() + np.abs(U0[..., v]).sum()
            if v >= IU: scale = max(scale, nx * np.sqrt(np.abs(U0[..., ID]).mean() * np.abs(U0[..., IP]).mean()))
            if sdm: scale *= max(1.0, np.abs(s[k]["U"]).max() / np.abs(U).max())
            err = abs(U[..., v].sum() - U0[..., v].sum()) / scale
            ctx.observe((c.name, v)); ctx.stat_max("max_rel_drift_" + ("sdm" if sdm else "muscl"), err)
            if err > 1e-11:
                ctx.violation("%s:%s%s" % (i["cls"], NAMES[v], ":walls" if any(walls) else ""),
                              "total %s drifted by %.3e (relative) after %d steps, grid %s %s %s" % (NAMES[v], err, k, i["n"], i["kind"], i["st"]), c)


def run(ctx):
    ctx.rule = ("random admissible states (smooth/blocks/random/mixed/extreme) x solver x implementation x Riemann solver x slope type x integrator x limiter options x grid "
                "x process grid; an evaluation is one conserved total compared after one step; distinct = (run, component)")
    ctx.assumptions = ["box sums are formed in double precision; drift up to 1e-11 of the gross content counts as rounding"]
    b = Build(ctx)
    cases = muscl_cases(ctx)
    for c in ctx.run(cases, b): check(ctx, c, c.rec.states)
    bs = Build(ctx, sdm=True)
    sc = sdm_cases(ctx)
    for c in ctx.run(sc, bs): check(ctx, c, c.rec.states)
    bm = Build(ctx, mpi=True)
    mc = mpi_cases(ctx)
    for c in ctx.run(mc, bm, mpi=True): check(ctx, c, assemble(c.rec))
    for q in (cases[0], cases[-1], sc[0], sc[-1], mc[0]): ctx.sample(q.name + " " + str(q.info))
    ctx.stats["runs"] = len(cases) + len(sc) + len(mc)
    ctx.min_evals = 3000


if __name__ == "__main__": main("P01", run)
