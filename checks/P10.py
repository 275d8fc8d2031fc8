"""P10 no preferred direction: paired runs of a problem and its permuted / mirrored / shifted image."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from sym import *


def pads(n, dim): return list(n) + [1] * (3 - dim)


def pair(ctx, name, solver, dim, mhd, N, n, L, bc, U, S, hyd, other, extra, steps, info, G=None):
    """two cases: original and image"""
    out = []
    for k in (0, 1):
        T = S if k else Sym(dim)
        n2, L2, b2 = T.lst(n), T.lst(L), T.bc(bc)
        arr = {"U": T.apply(U, mhd, N)}; script = ["inject U"]
        if G is not None:
            arr["G"] = grav_apply(T, G, dim); script.append("gravity G")
        script += ["dump s", "step %d" % steps]
        ini = solver_ini(solver, n2, L2, b2, hydro=hyd, other=other, extra=extra)
        i = dict(info); i.update(sym=S, dim=dim, mhd=mhd, N=N, n=n, L=L, bc=bc, nv=8 if mhd else 2 + dim)
        out.append(Case(name + ("-img" if k else ""), ini, script, arr, info=i))
    return out


def grav_apply(T, G, dim):
    """gravity field [x][y][z][dim] with ghosts (no shift)"""
    V = np.transpose(G, list(T.perm) + list(range(dim, 3)) + [3])[..., list(T.perm)].copy()
    for d in T.flips:
        V = np.flip(V, axis=d).copy(); V[..., d] *= -1
    return V


def groups(ctx):
    rng = ctx.rng; out = []
    for solver in MUSCL:
        dim = dim_of(solver); mhd = "MHD" in solver
        for impl in impls(solver):
            for rs in riemanns(solver):
                for st in (0, 1, 2):
                    for rep in range(ctx.pick(18, 100)):
                        n = shape(rng, dim, 4, 14 if dim == 2 else 8, 330); L = extents(rng, dim, aniso=rep % 4 != 0); gamma = float(rng.choice([1.4, 1.25, 1.6666]))
                        kind = ["smooth", "blocks", "random", "mixed"][int(rng.integers(4))] if rep != 4 else "smooth"; ext = rep % 5 == 3
                        U = state(rng, solver, n, L, kind, gamma=gamma, drho=1.5 if ext else 0.4, dp=1.5 if ext else 0.4, mach=2.0 if ext else 0.6, bamp=float(rng.choice([0.05, 0.5])))
                        bc = [3] * 6
                        if rep % 2:
                            for d in range(dim):
                                if rng.random() < 0.7: bc[2 * d], bc[2 * d + 1] = int(rng.integers(1, 3)), int(rng.integers(1, 3))
                        per = [bc[2 * d] == 3 for d in range(dim)]
                        G = None; extra = {}
                        sh_ok = per
                        if not mhd and rep % 5 == 2:
                            extra["gravity"] = dict(static=True); sh = tuple(pads([q + 4 for q in n], dim))
                            if rng.random() < 0.5: G = rng.uniform(-1, 1, dim) + 0.3 * rng.uniform(-1, 1, sh + (dim,)); sh_ok = [False] * dim
                            else: G = rng.uniform(-1, 1, dim) * np.ones(sh + (dim,))
                        # pure generators first, then compositions
                        if rep == 0: S = Sym(dim, [1, 0] if dim == 2 else [[1, 2, 0], [2, 0, 1]][int(rng.integers(2))])
                        elif rep == 1: S = Sym(dim, flips=[q for q in [int(rng.integers(dim))] if per[q] or not mhd], shifts=None)
                        else: S = random_sym(rng, dim, n, [p or not mhd for p in per], sh_ok)
                        if rep == 1 and not S.flips: S = random_sym(rng, dim, n, [p or not mhd for p in per], sh_ok)
                        if G is not None: S = Sym(dim, S.perm, S.flips, S.shifts)
                        hyd = dict(riemann=rs, slope_type=st, gamma0=gamma, cfl=float(rng.choice([0.2, 0.35])), **cutoffs(rng, U))
                        info = dict(cls="%s:i%d:%s%s" % (solver, impl, rs, ":gravity" if G is not None else ""), st=st, kind=kind + ("+ext" if ext else ""), gamma=gamma)
                        out.append(pair(ctx, "%s-i%d-%s-%d-%d" % (solver, impl, rs, st, rep), solver, dim, mhd, 0, n, L, bc, U, S, hyd, dict(implementationVersion=impl), extra, 3 if rep != 4 else 16, info, G))
    return out


def sdm_groups(ctx):
    rng = ctx.rng; out = []
    for dim, N in SDM_KINDS:
        for li, lim in enumerate(LIM):
            for rep in range(ctx.pick(20, 120)):
                n = shape(rng, dim, 3, 7 if dim == 2 else 4, 40); L = extents(rng, dim, aniso=rep % 4 != 0); gamma = float(rng.choice([1.4, 1.6666]))
                kind = ["smooth", "noise", "step"][int(rng.integers(3))]
                U = sdm_state(rng, n, L, dim, N, kind, gamma=gamma, mach=float(rng.choice([0.5, 1.5])), amp=float(rng.choice([0.2, 0.5])))
                bc = [3] * 6
                if rep % 2:
                    for d in range(dim):
                        if rng.random() < 0.7: bc[2 * d], bc[2 * d + 1] = int(rng.integers(1, 3)), int(rng.integers(1, 3))
                per = [bc[2 * d] == 3 for d in range(dim)]
                S = random_sym(rng, dim, n, [True] * dim, per)
                sd = dict(lim); integ = INTEG[int(rng.integers(4))]; sd[integ] = True
                if "limiter_enabled" in lim: sd["M_TVB"] = float(rng.choice([0.0, 5.0])); sd["limiter_characteristics_enabled"] = bool(rng.integers(2))
                rs = RIEMANN_H[int(rng.integers(4))]
                info = dict(cls="SDM_%dD_N%d:%s" % (dim, N, "+".join(sorted(k.split("_")[0] for k in lim)) or "plain"), integ=integ, rs=rs, sd=sd, kind=kind)
                out.append(pair(ctx, "sdm%d%d-%d-%d" % (dim, N, li, rep), sdm_name(dim, N), dim, False, N, n, L, bc, U, S, dict(riemann=rs, gamma0=gamma, cfl=0.2), None, dict(sdm=sd), 2, info))
    return out


def judge(ctx, g):
    a, b = g
    if a.rc != 0 or b.rc != 0 or a.rec is None or b.rec is None: return
    i = a.info; S = i["sym"]; sa, sb = a.rec.states, b.rec.states
    for k in range(1, min(len(sa), len(sb))):
        A, B = S.apply(sa[k]["U"], i["mhd"], i["N"]), sb[k]["U"]
        if not np.isfinite(A).all() or not np.isfinite(B).all():
            ctx.stats["non-finite (not judged)"] = ctx.stats.get("non-finite (not judged)", 0) + 1; break
        e, w = state_diff(A, B, i["nv"]); edt = abs(sa[k]["dt"] - sb[k]["dt"]) / sa[k]["dt"]
        ctx.observe((a.name, k)); ctx.stat_max("max_difference_" + ("sdm" if i["N"] else "muscl"), e); ctx.stat_max("max_dt_difference", edt)
        if e > 1e-10 or edt > 1e-10:
            ctx.violation(i["cls"], "image run differs after %d step(s): variable %d by %.3e (relative to its scale), dt by %.3e; %s; %s" % (k, w, e, edt, S, {q: v for q, v in i.items() if q != "sym"}), b, extra="symmetry %s\noriginal ini:\n%s" % (S, a.ini)); break


def run(ctx):
    ctx.rule = "paired runs of random problems and their images under random axis permutations, mirrors and cyclic shifts; an evaluation is the full state after one step compared with the transformed state of the original run"
    ctx.assumptions = ["differences up to 1e-10 of the variable's scale after at most 16 steps count as rounding", "mirroring of MHD only along periodic axes (face fields are stored on left faces only)"]
    b = Build(ctx); bs = Build(ctx, sdm=True)
    m, s = groups(ctx), sdm_groups(ctx)
    ctx.run([c for g in m for c in g], b); ctx.run([c for g in s for c in g], bs)
    for g in m + s: judge(ctx, g)
    for g in (m[0], m[-1], s[-1]): ctx.sample(g[0].name + " " + str(g[0].info["sym"]) + " " + g[0].info["cls"])
    ctx.stats["runs"] = 2 * (len(m) + len(s)); ctx.min_evals = 500


if __name__ == "__main__": main("P10", run)
