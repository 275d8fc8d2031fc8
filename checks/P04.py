"""P04 implementation variants: paired runs of the same problem, compared state by state."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from workloads import *


def groups(ctx):
    rng = ctx.rng; out = []
    for solver in MUSCL:
        dim = dim_of(solver); mhd = "MHD" in solver
        for rs in riemanns(solver):
            for rep in range(ctx.pick(144, 800)):
                n = shape(rng, dim, 4, 16 if dim == 2 else 8, 400); L = extents(rng, dim, aniso=rep % 4 != 0)
                if rep % 12 == 7: n = [int(x) for x in (rng.integers(30, 60, 2) if dim == 2 else rng.integers(10, 16, 3))]
                kind = str(rng.choice(["smooth", "blocks", "random", "mixed"])) if rep % 24 != 12 else "smooth"; gamma = float(rng.choice([1.4, 1.25, 1.5, 1.6666]))
                ext = rep % 5 == 3
                U = state(rng, solver, n, L, kind, gamma=gamma, drho=2.0 if ext else 0.4, dp=2.0 if ext else 0.4, mach=2.0 if ext else 0.6, bamp=float(rng.choice([0.05, 0.5])))
                if rep % 6 == 5:  # density/pressure only along one axis, still gas
                    sh = U.shape; ax = int(rng.integers(0, dim))
                    U = np.take(U, [0], axis=ax); U = np.repeat(U, sh[ax], axis=ax) if not mhd else state(rng, solver, n, L, kind, gamma=gamma)
                bc = [3] * 6
                if rep % 2:
                    for d in range(dim):
                        if rng.random() < 0.7: bc[2 * d], bc[2 * d + 1] = int(rng.integers(1, 3)), int(rng.integers(1, 3))
                st = int(rng.choice([0, 1, 2]))
                arr = {"U": U}; extra = {}; script = ["inject U"]; grav = False
                if not mhd and rep % 3 == 2:
                    grav = True; extra["gravity"] = dict(static=True)
                    sh = tuple([q + 4 for q in n] + [1] * (3 - dim))
                    arr["G"] = rng.uniform(-1, 1, dim) + 0.3 * rng.uniform(-1, 1, sh + (dim,)) * rng.choice([0, 1]); script.append("gravity G")
                script += ["dump s", "step %d" % (int(rng.integers(2, 5)) if rep % 24 != 12 or kind != "smooth" else 25)]
                g = []; fl = {}
                if rep % 8 == 6: fl = cutoffs(rng, U, 1.0)
                for impl in impls(solver):
                    ini = solver_ini(solver, n, L, bc, hydro=dict(riemann=rs, slope_type=st, gamma0=gamma, cfl=float([0.2, 0.3, 0.4][rep % 3]), **fl), other=dict(implementationVersion=impl), extra=extra)
                    g.append(Case("%s-%s-%d-i%d" % (solver, rs, rep, impl), ini, script, arr,
                                  info=dict(cls="%s:%s%s" % (solver, rs, ":gravity" if grav else ""), solver=solver, dim=dim, impl=impl, n=n, L=L, bc=bc, kind=kind + ("+extreme" if ext else "") + ("+cutoff" if fl else ""), st=st, gamma=gamma)))
                out.append(g)
    return out


def run(ctx):
    ctx.rule = "paired runs differing only in the implementation variant, over solver x Riemann solver x slope x BC x gravity x (an)isotropic grid x state; an evaluation is one state after one step compared between two variants"
    ctx.assumptions = ["differences up to 1e-10 of the variable's scale after at most 4 steps count as rounding"]
    b = Build(ctx); G = groups(ctx)
    ctx.run([c for g in G for c in g], b)
    for g in G:
        g = [c for c in g if c.rc == 0 and c.rec is not None]
        if len(g) < 2: continue
        a = g[0]; sa = a.rec.states
        nv = sa[0]["U"].shape[3]
        for o in g[1:]:
            so = o.rec.states
            for k in range(1, min(len(sa), len(so))):
                A, B = sa[k]["U"], so[k]["U"]
                if not (np.isfinite(A).all() and np.isfinite(B).all()):
                    if np.isfinite(A).all() != np.isfinite(B).all():
                        ctx.stats["finite_in_one_only"] = ctx.stats.get("finite_in_one_only", 0) + 1
                    break
                edt = abs(sa[k]["dt"] - so[k]["dt"]) / sa[k]["dt"]
                e = 0; w = 0
                for v in range(nv):
                    sc = np.abs(A[..., v]).max()
                    if v >= IU: sc = max(sc, np.sqrt(np.abs(A[..., ID]).max() * np.abs(A[..., IP]).max()) if v < IA else np.sqrt(np.abs(A[..., IP]).max()))
                    q = np.abs(A[..., v] - B[..., v]).max() / sc
                    if q > e: e, w = q, v
                ctx.observe((a.name, o.info["impl"], k)); ctx.stat_max("max_difference", e); ctx.stat_max("max_dt_difference", edt)
                if e > 1e-10 or edt > 1e-10:
                    ctx.violation("%s:impl%d-vs-impl%d" % (a.info["cls"], a.info["impl"], o.info["impl"]),
                                  "after %d step(s) variable %d differs by %.3e (relative to its scale), dt by %.3e; %s" % (k, w, e, edt, a.info), o); break
    for g in (G[0], G[-1]): ctx.sample(g[0].name + " " + str(g[0].info))
    ctx.stats["runs"] = sum(len(g) for g in G)
    ctx.min_evals = 300


if __name__ == "__main__": main("P04", run)
