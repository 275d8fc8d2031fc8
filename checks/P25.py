"""P25 no preferred units: paired runs of a problem written in two systems of units."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from workloads import *


class Units:
    """powers of two (density: of four) for length, density and velocity; the others follow"""

    def __init__(self, a=0, b=0, c=0): self.a, self.b, self.c = 2.0 ** a, 4.0 ** b, 2.0 ** c

    def __str__(self): return "length x %g, density x %g, velocity x %g" % (self.a, self.b, self.c)

    def state(self, U, mhd, N, dim):
        V = sdm_view(U, dim, N).copy() if N else U.copy(); nv = V.shape[3]
        V[:, :, :, ID] *= self.b; V[:, :, :, IP] *= self.b * self.c ** 2
        for k in range(IU, IA if mhd else nv): V[:, :, :, k] *= self.b * self.c
        if mhd:
            for k in range(IA, 8): V[:, :, :, k] *= np.sqrt(self.b) * self.c
        return V.reshape(V.shape[:3] + (-1,))

    def extents(self, L): return [(x * self.a, y * self.a) for x, y in L]
    def time(self): return self.a / self.c
    def grav(self): return self.c ** 2 / self.a


def units(rng, rep):
    k = rep % 5
    big = int(rng.integers(1, 13)) * (1 if rng.random() < .5 else -1)
    if k == 0: return Units(a=big)
    if k == 1: return Units(b=big // 2 or 1)
    if k == 2: return Units(c=big)
    return Units(*[int(rng.integers(-9, 10)), int(rng.integers(-5, 6)), int(rng.integers(-9, 10))])


def pair(ctx, name, solver, dim, mhd, N, n, L, bc, U, T, hyd, other, extra, steps, info, G=None):
    out = []
    for k in (0, 1):
        q = T if k else Units(); arr = {"U": q.state(U, mhd, N, dim)}; script = ["inject U"]
        if G is not None:
            arr["G"] = G * q.grav(); script.append("gravity G")
        script += ["dump s", "step %d" % steps]
        ex = {s: dict(v) for s, v in extra.items()}
        h = dict(hyd, smallr=float(np.float32(hyd.get("smallr", 1e-10))) * q.b, smallc=float(np.float32(hyd.get("smallc", 1e-10))) * q.c)
        ini = solver_ini(solver, n, q.extents(L), bc, hydro=h, other=other, run=dict(tEnd=1e25), extra=ex)
        i = dict(info); i.update(units=T, dim=dim, mhd=mhd, N=N, n=n, L=L, bc=bc, nv=8 if mhd else 2 + dim)
        out.append(Case(name + ("-img" if k else ""), ini, script, arr, info=i))
    return out


def rnd_bc(rng, dim):
    bc = [3] * 6
    for d in range(dim):
        if rng.random() < .5: bc[2 * d], bc[2 * d + 1] = int(rng.integers(1, 3)), int(rng.integers(1, 3))
    return bc


def groups(ctx):
    rng = ctx.rng; out = []
    for solver in MUSCL:
        dim = dim_of(solver); mhd = "MHD" in solver
        for impl in impls(solver):
            for rs in riemanns(solver):
                for rep in range(ctx.pick(40, 300)):
                    n = shape(rng, dim, 4, 14 if dim == 2 else 8, 330); L = extents(rng, dim); gamma = float(rng.choice([1.4, 1.25, 1.6666]))
                    kind = str(rng.choice(["smooth", "blocks", "random", "mixed"])); ext = rng.random() < .25
                    U = state(rng, solver, n, L, kind, gamma=gamma, drho=1.5 if ext else 0.4, dp=1.5 if ext else 0.4, mach=2.0 if ext else 0.6, bamp=float(rng.choice([0.05, 0.5])))
                    G = None; extra = {}; T = units(rng, rep)
                    if not mhd and rng.random() < .3:
                        extra["gravity"] = dict(static=True); sh = tuple([q + 4 for q in n] + [1] * (3 - dim))
                        G = rng.uniform(-1, 1, dim) + 0.3 * rng.uniform(-1, 1, sh + (dim,))
                    hyd = dict(riemann=rs, slope_type=int(rep // 5 % 3), gamma0=gamma, cfl=float(rng.choice([0.2, 0.35])))
                    hyd.update(cutoffs(rng, U, .2))
                    info = dict(cls="%s:i%d:%s%s" % (solver, impl, rs, ":gravity" if G is not None else ""), hyd=hyd, kind=kind + ("+ext" if ext else ""))
                    out.append(pair(ctx, "%s-i%d-%s-%d" % (solver, impl, rs, rep), solver, dim, mhd, 0, n, L, rnd_bc(rng, dim), U, T, hyd, dict(implementationVersion=impl), extra, 3 if rng.random() < .85 else 15, info, G))
    return out


def sdm_groups(ctx):
    rng = ctx.rng; out = []
    for dim, N in SDM_KINDS:
        for li, lim in enumerate(LIM):
            for rep in range(ctx.pick(20, 120)):
                n = shape(rng, dim, 3, 7 if dim == 2 else 4, 40); L = extents(rng, dim); gamma = float(rng.choice([1.4, 1.6666]))
                kind = str(rng.choice(["smooth", "noise", "step"]))
                # gentle enough to stay away from the fixed cut-offs (pressure 1e-7, positivity 1e-13) in both systems of units
                U = sdm_state(rng, n, L, dim, N, kind, gamma=gamma, mach=float(rng.choice([0.3, 0.8])), amp=0.25 if kind == "smooth" else 0.12)
                T = units(rng, rep)
                while T.b * T.c ** 2 < 2.0 ** -8: T = units(rng, rep)
                sd = dict(lim); integ = INTEG[int(rng.integers(4))]; sd[integ] = True
                if "limiter_enabled" in lim:
                    # the constant of the limiter's criterion is compared with differences of every variable: other than zero only with a pure change of length
                    sd["M_TVB"] = float(rng.choice([0.05, 0.5, 40.0])) if T.b == T.c == 1 else 0.0; sd["limiter_characteristics_enabled"] = bool(rng.integers(2))
                rs = RIEMANN_H[int(rng.integers(4))]
                info = dict(cls="SDM_%dD_N%d:%s" % (dim, N, "+".join(sorted(k.split("_")[0] for k in lim)) or "plain"), integ=integ, rs=rs, sd=sd, kind=kind)
                out.append(pair(ctx, "sdm%d%d-%d-%d" % (dim, N, li, rep), sdm_name(dim, N), dim, False, N, n, L, rnd_bc(rng, dim), U, T, dict(riemann=rs, gamma0=gamma, cfl=0.2), None, dict(sdm=sd), 2, info))
    return out


def judge(ctx, g):
    a, b = g
    if a.rc != 0 or b.rc != 0 or a.rec is None or b.rec is None: return
    i = a.info; T = i["units"]; sa, sb = a.rec.states, b.rec.states
    for k in range(1, min(len(sa), len(sb))):
        A, B = T.state(sa[k]["U"], i["mhd"], i["N"], i["dim"]), sb[k]["U"]
        if not np.isfinite(A).all() or not np.isfinite(B).all():
            ctx.stats["non-finite (not judged)"] = ctx.stats.get("non-finite (not judged)", 0) + 1; break
        e, w = state_diff(A, B, i["nv"]); edt = abs(sa[k]["dt"] * T.time() - sb[k]["dt"]) / (sa[k]["dt"] * T.time())
        ctx.observe((a.name, k)); ctx.stat_max("max_difference_" + ("sdm" if i["N"] else "muscl"), e); ctx.stat_max("max_dt_difference", edt)
        if e > 1e-10 or edt > 1e-10:
            ctx.violation(i["cls"], "in other units (%s) the run differs after %d step(s): variable %d by %.3e (relative to its scale), dt by %.3e; %s" % (T, k, w, e, edt, {q: v for q, v in i.items() if q != "units"}), b, extra="original ini:\n%s" % (a.ini,)); break


def run(ctx):
    ctx.rule = "paired runs of random problems and of the same problems written in other units of length, density and velocity; an evaluation is the full state after one step compared with the rescaled state of the original run"
    ctx.assumptions = ["cut-off parameters (smallr, smallc) and the limiter constant are rescaled with the units", "differences up to 1e-10 of the variable's scale after at most 15 steps count as rounding"]
    b = Build(ctx); bs = Build(ctx, sdm=True)
    m, s = groups(ctx), sdm_groups(ctx)
    ctx.run([c for g in m for c in g], b); ctx.run([c for g in s for c in g], bs)
    for g in m + s: judge(ctx, g)
    for g in (m[0], m[-1], s[-1]): ctx.sample(g[0].name + " " + str(g[0].info["units"]) + " " + g[0].info["cls"])
    ctx.stats["runs"] = 2 * (len(m) + len(s)); ctx.min_evals = 500


if __name__ == "__main__": main("P25", run)
