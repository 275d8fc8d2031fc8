"""P02 solenoidal field: online divergence monitor over recorded MHD histories."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from workloads import *

MHD = ["MHD_Muscl_2D", "MHD_Muscl_3D"]
PROBLEMS = ["blast", "implode", "orszag_tang", "kelvin_helmholtz", "rotor", "field_loop", "wave"]


def muscl(ctx):
    rng = ctx.rng; cases = []
    for solver in MHD:
        dim = dim_of(solver)
        for impl in impls(solver):
            for rs in riemanns(solver):
                for rep in range(ctx.pick(30, 150)):
                    n = shape(rng, dim, 4, 16 if dim == 2 else 8, 450)
                    if rep % 11 == 7: n = [int(x) for x in (rng.integers(20, 60, 2) if dim == 2 else rng.integers(8, 18, 3))]
                    L = extents(rng, dim); kind = str(rng.choice(["smooth", "blocks", "random", "mixed"])); gamma = float(rng.choice([1.4, 1.25, 1.6666]))
                    ext = rep % 5 == 3
                    U = state(rng, solver, n, L, kind, gamma=gamma, drho=1.5 if ext else 0.35, dp=1.5 if ext else 0.35, mach=2.0 if ext else 0.6,
                              bamp=float(rng.choice([0.02, 0.5, 2.0])) if ext else float(rng.choice([0.1, 0.5])))
                    free = True
                    if rep % 6 == 4:  # any staggered field: its divergence, not zero, must not change either
                        U[..., IA:IC + 1] += 0.05 * rng.uniform(-1, 1, U.shape[:3] + (3,)); free = False
                    bc = [3] * 6
                    if rep % 2:
                        for d in range(dim):
                            if rng.random() < 0.7: bc[2 * d], bc[2 * d + 1] = int(rng.integers(1, 3)), int(rng.integers(1, 3))
                    ini = solver_ini(solver, n, L, bc, hydro=dict(riemann=rs, slope_type=int(rng.choice([0, 1, 2])), gamma0=gamma, cfl=float(rng.choice([0.2, 0.3, 0.4]))),
                                     other=dict(implementationVersion=impl))
                    ns = int(rng.integers(2, 6)) if rep != 5 else 120
                    cases.append(Case("%s-i%d-%s-%d" % (solver, impl, rs, rep), ini, ["inject U", "dump s", "step %d" % ns], {"U": U},
                                      info=dict(cls="%s:impl%d:%s" % (solver, impl, rs), dim=dim, bc=bc, n=n, L=L, kind=kind, free=free)))
    return cases


def problems(ctx):
    rng = ctx.rng; cases = []
    for solver in MHD:
        dim = dim_of(solver)
        for pb in PROBLEMS:
            for rep in range(ctx.pick(6, 30)):
                n = shape(rng, dim, 5, 24 if dim == 2 else 12, 600); L = extents(rng, dim)
                if rep == 0: L = [(0.0, 1.0)] * dim
                if pb == "wave": L = [(0.0, 3.0), (0.0, 1.5), (0.0, 1.5)][:dim]
                if pb == "field_loop": L = [(-1.0, 1.0), (-0.5, 0.5), (-0.5, 0.5)][:dim]
                ex = {}
                r = lambda a, b: float(np.float32(rng.uniform(a, b)))
                if pb == "implode":
                    B = [r(-1, 1), r(-1, 1), r(-1, 1)]
                    ex["implode"] = {k + s: B["xyz".index(k[1])] for k in ("Bx_", "By_", "Bz_") for s in ("outer", "inner")}
                if pb == "blast": ex["blast"] = dict(radius=r(0.05, 0.3), pressure_in=r(1, 10), pressure_out=r(0.1, 1))
                if pb == "orszag_tang": ex["OrszagTang"] = dict(kt=float(rng.choice([0.0, 1.0])))
                if pb == "rotor": ex["rotor"] = dict(b0=r(0.1, 2), r0=r(0.1, 0.2), r1=r(0.2, 0.3))
                if pb == "field_loop": ex["FieldLoop"] = dict(radius=r(0.2, 0.45), amplitude=r(0.01, 1), density_in=r(1, 2))
                if pb == "wave": ex["wave"] = dict(type=int(rng.integers(0, 4)), amplitude=float(rng.choice([1e-6, 0.01])))
                impl = rep % 3
                ini = solver_ini(solver, n, L, [3] * 6, problem=pb, hydro=dict(riemann=riemanns(solver)[rep % 3], gamma0=1.6666), other=dict(implementationVersion=impl), extra=ex)
                cases.append(Case("%s-%s-%d" % (solver, pb, rep), ini, ["dump s", "step 3"],
                                  info=dict(cls="%s:problem:%s" % (solver, pb), dim=dim, bc=[3] * 6, n=n, L=L, kind=pb, free=True, ex=ex, init=True)))
    return cases


def mpi(ctx):
    rng = ctx.rng; cases = []
    for rep in range(ctx.pick(12, 60)):
        solver = MHD[rep % 2]; dim = dim_of(solver)
        m = ([(2, 1, 1), (1, 2, 1), (2, 2, 1), (3, 1, 1)] if dim == 2 else [(1, 1, 2), (2, 1, 1), (2, 1, 2), (1, 2, 2)])[(rep // 2) % 4]
        n = shape(rng, dim, 4, 9, 300); L = extents(rng, dim); N = [n[d] * m[d] for d in range(dim)]
        impl = int(rng.choice(impls(solver))); rs = str(rng.choice(riemanns(solver)))
        bc = [3] * 6
        if rep % 3 == 1:
            d = int(rng.integers(0, dim)); bc[2 * d], bc[2 * d + 1] = int(rng.integers(1, 3)), int(rng.integers(1, 3))
        U = state(rng, solver, N, L, "mixed", drho=0.35, dp=0.35, mach=0.5)
        ini = solver_ini(solver, n, L, bc, hydro=dict(riemann=rs, slope_type=int(rng.choice([1, 2]))), other=dict(implementationVersion=impl), mpi=m)
        cases.append(Case("mpi-%s-%d" % (solver, rep), ini, ["inject U", "dump s", "step 4"], {"U": U}, np_=m[0] * m[1] * m[2],
                          info=dict(cls="mpi:%s:impl%d:%s" % (solver, impl, rs), dim=dim, bc=bc, n=n, L=L, kind="mixed", free=True, m=m)))
    return cases


def div(U, L, dim, bc):
    """divergence of the cells that the statement covers: all along periodic axes, all but the last layers otherwise"""
    n = U.shape[:3]; r = 0
    for d in range(dim):
        dx = (L[d][1] - L[d][0]) / n[d]
        r = r + (np.roll(U[..., IA + d], -1, d) - U[..., IA + d]) / dx
    sl = [slice(None)] * 3
    for d in range(dim):
        if bc[2 * d] != 3 or bc[2 * d + 1] != 3: sl[d] = slice(1, n[d] - 1)
    return r[tuple(sl)]


def check(ctx, c, s, step=True):
    i = c.info; dim = i["dim"]
    if not s: return
    n = s[0]["U"].shape[:3]
    h = min((i["L"][d][1] - i["L"][d][0]) / n[d] for d in range(dim))
    bm = 0
    d0 = None
    for k, q in enumerate(s):
        U = q["U"]
        if not np.isfinite(U).all():
            ctx.stats["inconclusive_nonfinite"] = ctx.stats.get("inconclusive_nonfinite", 0) + 1; return
        bm = max(bm, np.abs(U[..., IA:IA + dim]).max())
        em = bm + np.abs(U[..., IU:IW + 1]).max() / max(U[..., ID].min(), 1e-30) * bm * q["dt"] / h * 1e-3
        D = div(U, i["L"], dim, i["bc"])
        if D.size == 0: return
        sc = max(em, 1e-30) / h
        if i.get("init") and k == 0:
            # a problem need not be periodic: judge cells whose faces lie inside the box
            D0 = div(U, i["L"], dim, [2] * 6) if True else D
            e = np.abs(D0).max() / sc if D0.size else 0
            ctx.observe((c.name, "init")); ctx.stat_max("max_initial_div", e)
            if e > 1e-11: ctx.violation(i["cls"] + ":initial", "initial divergence %.3e (relative to |B|/dx); %s" % (e, i), c); return
        if k == 0: d0 = D; continue
        e = np.abs(D - d0).max() / sc
        ctx.observe((c.name, k)); ctx.stat_max("max_div_change", e)
        if e > 1e-11:
            w = np.unravel_index(np.argmax(np.abs(D - d0)), D.shape)
            ctx.violation(i["cls"] + (":walls" if any(b != 3 for b in i["bc"][:2 * dim]) else ""),
                          "divergence changed by %.3e (relative to |B|/dx) after %d step(s) near cell %s; %s" % (e, k, w, i), c); return


def upscale(ctx, b, bm):
    """write a file at a coarse grid, restart with twice the cells, look at the field that results"""
    rng = ctx.rng; first = []
    for rep in range(ctx.pick(24, 100)):
        solver = MHD[rep % 2]; dim = dim_of(solver); par = rep % 6 >= 4
        n = shape(rng, dim, 4, 10 if dim == 2 else 6, 220); L = extents(rng, dim)
        m = [1, 1, 1]
        if par: m = [2, 1, 1] if rep % 4 < 2 else [1, 2, 1]
        N = [n[d] * m[d] for d in range(dim)]
        U = state(rng, solver, N, L, "mixed", drho=0.35, dp=0.35, mach=0.5)
        ns = int(rng.integers(0, 4))
        ini = solver_ini(solver, n, L, [3] * 6, other=dict(implementationVersion=rep % 3), mpi=m if par else None,
                         extra=dict(output=dict(hdf5_enabled="true", ghostIncluded="true", outputVtkAscii="false")))
        c = Case("coarse-%d" % rep, ini, ["inject U", "bnd", "step %d" % ns, "dump s", "save"], {"U": U}, np_=m[0] * m[1],
                 info=dict(cls="upscale:%s%s" % (solver, ":mpi" if par else ""), dim=dim, bc=[3] * 6, n=n, L=L, m=m, par=par, kind="upscale", solver=solver, ns=ns))
        first.append(c)
    for par, bb in ((False, b), (True, bm)):
        cs = [c for c in first if c.info["par"] == par]
        good = ctx.run(cs, bb, mpi=par, keep=True)
        second = []
        for c in good:
            i = c.info; ini = {k: dict(v) for k, v in c.ini.items()}
            for d in range(i["dim"]): ini["mesh"]["n" + "xyz"[d]] = 2 * i["n"][d]
            f = os.path.join(c.dir, "out_0000000.h5")
            if not os.path.exists(f): ctx.violation(i["cls"] + ":nofile", "no file was written: %s" % os.listdir(c.dir), c); continue
            ini["run"].update(restart_enabled="true", restart_upscale="true", restart_filename=f)
            q = Case("fine-" + c.name, ini, ["dump s", "step 2"], np_=c.np, info=dict(i, init=False)); q.coarse = c
            second.append(q)
        for q in ctx.run(second, bb, mpi=par):
            i = q.info; dim = i["dim"]
            s = assemble(q.rec) if par else q.rec.states
            cs = (assemble(q.coarse.rec) if par else q.coarse.rec.states)[-1]["U"]
            U = s[0]["U"]; sc = np.abs(U[..., IA:IA + dim]).max() / min((i["L"][d][1] - i["L"][d][0]) / U.shape[d] for d in range(dim))
            e = np.abs(div(U, i["L"], dim, i["bc"])).max() / sc
            ctx.observe((q.name, "upscaled")); ctx.stat_max("max_upscaled_div", e)
            if not e < 1e-11: ctx.violation(i["cls"] + ":upscaled-div", "divergence %.3e after a restart with doubled resolution; %s" % (e, i), q)
            check(ctx, q, s)


def run(ctx):
    ctx.rule = "random/problem states x implementation x Riemann solver x slope x BC x grid x process grid; an evaluation is the divergence of all covered cells after one step"
    ctx.assumptions = ["a change of div B up to 1e-11 of |B|/dx counts as rounding"]
    b = Build(ctx); bm = Build(ctx, mpi=True)
    cs = muscl(ctx) + problems(ctx)
    for c in ctx.run(cs, b): check(ctx, c, c.rec.states)
    mc = mpi(ctx)
    for c in ctx.run(mc, bm, mpi=True): check(ctx, c, assemble(c.rec))
    upscale(ctx, b, bm)
    for q in (cs[0], cs[-1], mc[0]): ctx.sample(q.name + " " + str(q.info))
    ctx.min_evals = 1500


if __name__ == "__main__": main("P02", run)
