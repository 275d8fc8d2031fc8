"""P09 uniform states and moving contacts: deviation monitor over recorded state histories."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from workloads import *

INTEG = ["forward_euler", "ssprk2", "ssprk3", "ssprk54"]


def rand_uniform(rng, dim, mhd):
    rho = 10 ** rng.uniform(-2, 2); p = 10 ** rng.uniform(-2, 2); cs = np.sqrt(1.4 * p / rho)
    v = rng.uniform(-1, 1, 3) * cs * rng.choice([0.0, 0.1, 1.0, 3.0])
    if rng.random() < 0.5: v = v * (rng.random(3) < 0.5)
    b = rng.uniform(-1, 1, 3) * np.sqrt(p) * rng.choice([0.0, 0.1, 1.0, 2.0])
    if rng.random() < 0.5: b = b * (rng.random(3) < 0.5)
    if rng.random() < 0.25:   # field along one axis, often with Alfven speed = sound speed
        b = np.zeros(3); b[int(rng.integers(3))] = np.sqrt(p) * rng.choice([np.sqrt(1.4), np.sqrt(1.25), np.sqrt(float(np.float32(1.6666))), 0.5, 3.0]) * rng.choice([-1, 1])
    if not mhd: v[dim:] = 0
    return rho, p, v, b


def muscl_cases(ctx):
    rng = ctx.rng; cases = []
    for solver in MUSCL:
        dim = dim_of(solver); mhd = "MHD" in solver
        for impl in impls(solver):
            for rs in riemanns(solver):
                for rep in range(ctx.pick(14, 80)):
                    n = shape(rng, dim, 4, 12 if dim == 2 else 8, 300); L = extents(rng, dim)
                    gamma = float(rng.choice([1.4, 1.25, 1.6666]))
                    rho, p, v, b = rand_uniform(rng, dim, mhd)
                    U = np.zeros(tuple(n) + (1,) * (3 - dim) + (8 if mhd else 2 + dim,))
                    U[..., ID] = rho; U[..., IP] = p / (gamma - 1) + 0.5 * rho * (v ** 2).sum() + (0.5 * (b ** 2).sum() if mhd else 0)
                    for d in range(3 if mhd else dim): U[..., IU + d] = rho * v[d]
                    if mhd: U[..., IA], U[..., IB], U[..., IC] = b
                    bc = [3] * 6
                    for d in range(dim):
                        if rng.random() < 0.4: bc[2 * d] = bc[2 * d + 1] = 2
                    ini = solver_ini(solver, n, L, bc, hydro=dict(riemann=rs, slope_type=int(rng.integers(0, 3)), gamma0=gamma, cfl=float(rng.choice([0.3, 0.6, 0.8]))),
                                     other=dict(implementationVersion=impl))
                    cases.append(Case("%s-i%d-%s-%d" % (solver, impl, rs, rep), ini, ["inject U", "dump s", "step %d" % (4 if rep else 30)], {"U": U},
                                      info=dict(cls="%s:impl%d:%s" % (solver, impl, rs), dim=dim, mhd=mhd, n=n, bc=bc, v=list(map(float, v)), b=list(map(float, b)), what="uniform")))
    return cases


def sdm_cases(ctx):
    rng = ctx.rng; cases = []
    for dim, N in SDM_KINDS:
        for integ in INTEG:
            for opt in ("plain", "limited", "positivity", "both"):
                for rep in range(ctx.pick(3, 15)):
                    n = shape(rng, dim, 3, 7 if dim == 2 else 5, 50); L = extents(rng, dim); gamma = float(rng.choice([1.4, 1.25, 1.6666]))
                    rho, p, v, b = rand_uniform(rng, dim, False)
                    V = [rho, p / (gamma - 1) + 0.5 * rho * (v ** 2).sum()] + [rho * v[d] for d in range(dim)]
                    U = np.zeros(tuple(n) + (1,) * (3 - dim) + (2 + dim, N ** dim)); U[:] = np.array(V)[:, None]
                    U = U.reshape(U.shape[:3] + (-1,))
                    sd = {integ: True}
                    if opt in ("limited", "both"): sd.update(limiter_enabled=True, M_TVB=float(rng.choice([0.0, 1.0])))
                    if opt in ("positivity", "both"): sd.update(positivity_enabled=True)
                    bc = [3] * 6
                    for d in range(dim):
                        if rng.random() < 0.4: bc[2 * d] = bc[2 * d + 1] = 2
                    rs = str(rng.choice(RIEMANN_H))
                    ini = solver_ini(sdm_name(dim, N), n, L, bc, hydro=dict(cfl=0.1, riemann=rs, gamma0=gamma), extra=dict(sdm=sd))
                    cases.append(Case("sdm%d-%d-%s-%s-%d" % (dim, N, integ, opt, rep), ini, ["inject U", "dump s", "step 3"], {"U": U},
                                      info=dict(cls="SDM_%dD_%d:%s:%s" % (dim, N, integ, opt), dim=dim, N=N, mhd=False, n=n, bc=bc, v=list(map(float, v)), what="uniform")))
    return cases


def contact_cases(ctx):
    rng = ctx.rng; cases = []
    for solver in MUSCL[:2]:
        dim = dim_of(solver)
        for impl in (0, 1):
            for rs in ("hllc", "approx"):
                for ax in range(dim):
                    for rep in range(ctx.pick(5, 30)):
                        n = shape(rng, dim, 4, 7, 200); n[ax] = int(rng.integers(8, 20)); L = extents(rng, dim)
                        gamma = float(rng.choice([1.4, 1.25, 1.6666]))
                        p = 10 ** rng.uniform(-1, 1); vel = rng.uniform(-2, 2) * rng.choice([0, 1, 1])
                        prof = 10 ** rng.uniform(-1, 1, n[ax]) if rep % 2 else np.where(np.arange(n[ax]) < n[ax] // 2, 5.0, 0.3)
                        sh = [1, 1, 1]; sh[ax] = n[ax]
                        rho = np.broadcast_to(prof.reshape(sh), tuple(n) + (1,) * (3 - dim))
                        W = dict(rho=rho, p=np.full(rho.shape, p)); 
                        for d in range(3): W["uvw"[d]] = np.full(rho.shape, vel if d == ax else 0.0)
                        U = cons_hydro(W, gamma, dim)
                        ini = solver_ini(solver, n, L, [3] * 6, hydro=dict(riemann=rs, slope_type=int(rng.integers(0, 3)), gamma0=gamma, cfl=0.4, niter_riemann=20, smallc=1e-8, smallr=1e-8), other=dict(implementationVersion=impl))
                        cases.append(Case("contact-%s-i%d-%s-%d-%d" % (solver, impl, rs, ax, rep), ini, ["inject U", "dump s", "step 6"], {"U": U},
                                          info=dict(cls="contact:%s:impl%d:%s:axis%d" % (solver, impl, rs, ax), dim=dim, what="contact", p=p, vel=vel, ax=ax, gamma=gamma, n=n)))
    return cases


def check(ctx, c):
    s = c.rec.states; i = c.info; dim = i["dim"]
    if i["what"] == "uniform":
        U0 = s[0]["U"]; nv = 8 if i["mhd"] else 2 + dim
        sdm = "N" in i
        u = U0.reshape(U0.shape[:3] + (nv, -1))[0, 0, 0, :, 0]
        rho, E = u[ID], u[IP]
        for k in range(1, len(s)):
            U = s[k]["U"].reshape(U0.shape[:3] + (nv, -1))
            for v in range(nv):
                sc = abs(u[v])
                if v >= IU: sc = max(sc, np.sqrt(rho * E) if v < IA else np.sqrt(E))
                e = np.abs(U[..., v, :] - u[v]).max() / sc
                ctx.observe((c.name, v)); ctx.stat_max("max_dev_uniform_" + ("sdm" if sdm else "muscl"), e if np.isfinite(e) else 1e300)
                if not e < (1e-9 if sdm else 1e-11 * max(1, k / 4)):
                    ctx.violation("%s:var%d" % (i["cls"], v), "uniform state changed by %.3e (relative) in variable %d after %d steps; %s" % (e, v, k, i), c); return
    else:
        for k in range(1, len(s)):
            W = prim_from_cons_hydro(s[k]["U"], i["gamma"], dim)
            cs = np.sqrt(i["gamma"] * i["p"] / W["rho"].max()) + abs(i["vel"])
            ep = np.abs(W["p"] - i["p"]).max() / (i["p"] + W["rho"].max() * i["vel"] ** 2)
            ev = max(np.abs(W["uvw"[d]] - (i["vel"] if d == i["ax"] else 0)).max() / cs for d in range(dim))
            ctx.observe((c.name, k), 2); ctx.stat_max("max_dev_contact", max(ep, ev))
            if not (ep < 1e-9 and ev < 1e-9):
                ctx.violation("%s" % i["cls"], "moving contact: pressure deviates by %.3e, velocity by %.3e after %d steps; %s" % (ep, ev, k, i), c); return


def run(ctx):
    ctx.rule = "random uniform states over 4 decades (still/subsonic/supersonic, zero components) and random density profiles carried at constant speed; an evaluation is one variable compared over the whole grid after one step"
    b = Build(ctx); bs = Build(ctx, sdm=True)
    m, q, s = muscl_cases(ctx), contact_cases(ctx), sdm_cases(ctx)
    for c in ctx.run(m + q, b) + ctx.run(s, bs): check(ctx, c)
    for c in (m[0], m[-1], q[0], s[0], s[-1]): ctx.sample(c.name + " " + str(c.info))
    ctx.stats["runs"] = len(m) + len(q) + len(s)
    ctx.min_evals = 2000


if __name__ == "__main__": main("P09", run)
