"""P12 time step and run control: online values of t, dt and iteration against a reference computed from the recorded state."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from workloads import *

INTEG = ["forward_euler", "ssprk2", "ssprk3", "ssprk54"]


def ref_invdt(U, solver, dim, gamma, dx, N=None, grav=None, cfl=None, rightB=None):
    """largest summed signal speed over cell size"""
    if "MHD" in solver:
        rho = U[..., ID]; v = [U[..., IU + d] / rho for d in range(3)]
        b = [0.5 * (U[..., IA + d] + rightB[d]) if d < dim else U[..., IA + d] for d in range(3)]
        b2 = sum(x * x for x in b)
        p = (gamma - 1) * (U[..., IP] - 0.5 * b2 - 0.5 * rho * sum(x * x for x in v))
        c2 = gamma * p / rho; d2 = 0.5 * (b2 / rho + c2)
        s = 0
        for d in range(dim):
            s = s + (np.sqrt(d2 + np.sqrt(np.maximum(d2 * d2 - c2 * b[d] ** 2 / rho, 0))) + np.abs(v[d])) / dx[d]
        return s
    if N: 
        V = sdm_view(U, dim, N); g = lambda q: V[:, :, :, q]
    else: g = lambda q: U[..., q]
    rho = g(ID); v = [g(IU + d) / rho for d in range(dim)]
    p = (gamma - 1) * (g(IP) - 0.5 * rho * sum(x * x for x in v))
    c = np.sqrt(np.maximum(gamma * p / rho, 0))
    if grav is not None:
        h = min(dx[:dim]); vel = sum(c + np.abs(x) for x in v)
        k = np.maximum(sum(np.abs(grav[d]) for d in range(dim)) * cfl * h / vel ** 2, 1e-4)
        return vel * k / (np.sqrt(1 + 2 * k) - 1) / h
    return sum((c + np.abs(v[d])) / dx[d] for d in range(dim))


def place_hot(rng, U, dim, n, nb):
    """make one random cell (often on an edge or corner) carry by far the fastest signal, by its speed of sound or by one velocity component"""
    idx = tuple(int(rng.choice([0, m - 1, rng.integers(0, m)])) for m in n[:dim]) + (0,) * (3 - dim)
    how = int(rng.integers(0, dim + 1))
    if nb is None:
        u = U[idx]
        if how == 0: u[IP] *= 30
        else: u[IU + how - 1] += u[ID] * 6; u[IP] += u[ID] * 50
    else:
        N = nb; V = U.reshape(U.shape[:3] + (2 + dim, -1)); q = int(rng.integers(0, N ** dim))
        if how == 0: V[idx][IP, q] *= 30
        else: V[idx][IU + how - 1, q] += V[idx][ID, q] * 6; V[idx][IP, q] += V[idx][ID, q] * 50
    return idx


def cases(ctx, mpi=False, sdm=False):
    rng = ctx.rng; out = []
    kinds = [("SDM", d, N) for d, N in SDM_KINDS] if sdm else [(s, dim_of(s), None) for s in MUSCL]
    for solver, dim, N in kinds:
        for rep in range(ctx.pick(10 if mpi else 40, 60 if mpi else 240)):
            m = (1, 1, 1)
            if mpi: m = ([(2, 1, 1), (1, 2, 1), (2, 2, 1), (4, 1, 1), (1, 3, 1)] if dim == 2 else [(1, 1, 2), (2, 1, 1), (1, 2, 1), (2, 2, 1), (1, 2, 2), (2, 2, 2)])[int(rng.integers(0, 5))]
            n = shape(rng, dim, 3 if not mpi else 4, 12 if dim == 2 else 6, 60 if N else 200); L = extents(rng, dim)
            G = [n[d] * m[d] for d in range(dim)]
            gamma = float(rng.choice([1.5, 1.25, 1.375])); cfl = float(rng.choice([0.25, 0.125, 0.375, 0.5]))
            sd = {}; rescale = False; integ = ""
            if N:
                integ = INTEG[rep % 4]; cfl = float(rng.choice([0.0625, 0.03125])); rescale = rng.random() < 0.5
                sd = {integ: True, "rescale_dt_enabled": rescale}
                U = sdm_state(rng, G, L, dim, N, "smooth", gamma=gamma)
            else:
                U = state(rng, solver, G, L, "mixed", gamma=gamma, drho=0.3, dp=0.3, mach=0.4)
            hot = place_hot(rng, U, dim, G, N) if rng.random() < 0.8 else None
            bc = [3] * 6
            if rng.random() < 0.5 and not ("MHD" in solver):
                for d in range(dim):
                    if rng.random() < 0.5: bc[2 * d] = bc[2 * d + 1] = int(rng.integers(1, 3))
            grav = None; script = ["inject U"]; arr = {"U": U}; extra = {"sdm": sd} if N else {}
            if "Hydro" in solver and not N and not mpi and rep % 4 == 3:
                extra["gravity"] = dict(static=True)
                gg = rng.uniform(-3, 3, dim) * rng.choice([0.01, 1, 30])
                sh = [q + 4 for q in n] + [1] * (3 - dim)
                arr["G"] = np.broadcast_to(gg, tuple(sh) + (dim,)).copy(); script.append("gravity G"); grav = gg
            ini = solver_ini(N and sdm_name(dim, N) or solver, n, L, bc, hydro=dict(gamma0=gamma, cfl=cfl, slope_type=int(rng.integers(1, 3)), riemann=str(rng.choice(riemanns("MHD" if "MHD" in solver else "Hydro")))),
                             other=dict(implementationVersion=int(rng.choice(impls(solver))) if not N else 0), extra=extra, mpi=m if mpi else None)
            mode = rep % 3
            nstep = 3
            script.append("dump s")
            if rng.random() < 0.3: ini["run"]["tCurrent"] = float(rng.choice([0.5, 2.25, 1000.0, 0.0009765625]))
            if mode == 0: nstep = 3 if rep % 12 != 6 else 40; script += ["step %d" % nstep, "meta"]
            elif mode == 1:  # land on an end time
                script += ["step 1", "tend %.17g" % (10 ** rng.uniform(-4, -1.5)), "step 5", "meta"]
            else:
                ini["run"]["nStepmax"] = int(rng.integers(1, 5)); script += ["step 9", "meta"]
            out.append(Case("%s-%s-%d" % (solver, "%d-%d" % (dim, N) if N else "", rep), ini, script, arr, np_=m[0] * m[1] * m[2],
                            info=dict(cls="%s%s%s%s" % ("mpi:" if mpi else "", solver if not N else "SDM_%dD_%d" % (dim, N), ":gravity" if grav is not None else "", ":rescale" if rescale else ""),
                                      solver=solver, dim=dim, N=N, gamma=gamma, cfl=cfl, rescale=rescale and integ in ("ssprk3", "ssprk54") and N >= 2, hot=hot, n=n, L=L, bc=bc, grav=None if grav is None else list(map(float, grav)), mode=mode, integ=integ, m=m,
                                      nmax=ini["run"]["nStepmax"], nstep=nstep, tcur=ini["run"].get("tCurrent", 0.0))))
    return out


def right_faces(U, dim, bc):
    r = []
    for d in range(3):
        if d >= dim: r.append(None); continue
        r.append(np.roll(U[..., IA + d], -1, d))
    return r


def check(ctx, c, mpi):
    i = c.info; dim = i["dim"]
    S = assemble(c.rec) if mpi else c.rec.states
    recs = c.rec if mpi else [c.rec]
    dx = [(i["L"][d][1] - i["L"][d][0]) / (i["n"][d] * i["m"][d]) for d in range(dim)]
    M = recs[0].metas
    for r in recs[1:]:
        if [(q["t"], q["dt"], q["it"]) for q in r.metas] != [(q["t"], q["dt"], q["it"]) for q in M]:
            ctx.violation(i["cls"] + ":ranks-disagree", "processes disagree on t, dt or step number", c)
    tend = 1e10
    # meta 0 is right after construction; metas 1.. follow the steps (and one final 'meta')
    st = 0
    steps = M[1:-1]
    if i["mode"] == 1 and len(steps) > 1: tends = [1e10] + [steps[-1]["tend"]] * (len(steps) - 1)
    else: tends = [m["tend"] for m in steps]
    if M[0]["t"] != i["tcur"] or M[0]["it"] != 0: ctx.violation(i["cls"] + ":start", "the run starts at t=%.17g, step %d; the parameter file says %.17g" % (M[0]["t"], M[0]["it"], i["tcur"]), c)
    prev = (M[0]["t"], M[0]["it"])
    for k, m in enumerate(steps):
        s0 = S[k]; U = s0["U"]
        if not np.isfinite(U).all(): return
        if i["N"]:    # unlimited runs may overshoot into the absolute cut-offs of the spectral-difference equations; from there on nothing is specified
            V = sdm_view(U, dim, i["N"]); r = V[:, :, :, ID]
            if r.min() <= 1e-6 or ((i["gamma"] - 1) * (V[:, :, :, IP] - .5 * sum(V[:, :, :, IU + d] ** 2 for d in range(dim)) / np.maximum(r, 1e-300))).min() <= 1e-6:
                ctx.stats["reached a cut-off (not judged further)"] = ctx.stats.get("reached a cut-off (not judged further)", 0) + 1; return
        inv = ref_invdt(U, i["solver"], dim, i["gamma"], dx, i["N"], i["grav"], i["cfl"], right_faces(U, dim, i["bc"]) if "MHD" in i["solver"] else None)
        ref = i["cfl"] / np.max(inv) / (i["N"] or 1)
        if i["rescale"]: ref = ref ** ((i["N"] + 1.0) / 3.0)
        if not np.isfinite(ref): return
        t0 = prev[0]; exp = ref if t0 + ref <= tends[k] else tends[k] - t0
        e = abs(m["dt"] - exp) / exp if exp > 0 else abs(m["dt"] - exp)
        ctx.observe((c.name, k, exp < ref), 3); ctx.stat_max("max_rel_dt_error", e)
        if not e < 1e-9:
            ctx.violation(i["cls"] + (":clip" if exp < ref else ":dt"), "step %d used dt=%.17g, stability limit gives %.17g (rel. diff %.3e); %s" % (k, m["dt"], exp, e, i), c); return
        if m["t"] != t0 + m["dt"] or m["it"] != prev[1] + 1 or not (m["t"] > t0 or m["dt"] == 0):
            ctx.violation(i["cls"] + ":advance", "t %.17g -> %.17g with dt %.17g, step number %d -> %d" % (t0, m["t"], m["dt"], prev[1], m["it"]), c); return
        if m["t"] > tends[k] * (1 + 1e-15) or m["it"] > i["nmax"]:
            ctx.violation(i["cls"] + ":overrun", "t=%.17g > tEnd=%.17g or step %d > %d" % (m["t"], tends[k], m["it"], i["nmax"]), c); return
        fin = m["t"] >= tends[k] - 1e-13 * max(1, abs(tends[k])) or m["it"] >= i["nmax"]
        if bool(m["fin"]) != fin:
            ctx.violation(i["cls"] + ":finished", "finished=%d at t=%.17g tEnd=%.17g step %d of %d" % (m["fin"], m["t"], tends[k], m["it"], i["nmax"]), c); return
        prev = (m["t"], m["it"])
    want = i["nstep"] if i["mode"] == 0 else min(9, i["nmax"]) if i["mode"] == 2 else None
    if want is not None and len(steps) != want:
        ctx.violation(i["cls"] + ":count", "%d steps were taken, expected %d" % (len(steps), want), c)


def run(ctx):
    ctx.rule = "random states with the fastest signal planted in a random (often edge/corner) cell and component x solver x BC x CFL x gravity x dt-rescaling x process grid, with and without end-time/step-limit cuts; an evaluation is one dt / t / iteration comparison"
    b = Build(ctx); bs = Build(ctx, sdm=True); bm = Build(ctx, mpi=True, sdm=True)
    a = cases(ctx); s = cases(ctx, sdm=True); m = cases(ctx, mpi=True)
    ms = [c for c in cases(ctx, mpi=True, sdm=True) if (c.info["dim"], c.info["N"]) in ((2, 1), (2, 3), (2, 6), (3, 2), (3, 4))]
    for c in ctx.run(a, b): check(ctx, c, False)
    for c in ctx.run(s, bs): check(ctx, c, False)
    for c in ctx.run(m + ms, bm, mpi=True): check(ctx, c, True)
    for c in (a[0], a[-1], s[0], m[0]): ctx.sample(c.name + " " + str(c.info))
    ctx.stats["runs"] = len(a) + len(s) + len(m) + len(ms)
    ctx.min_evals = 500


if __name__ == "__main__": main("P12", run)
