"""P21 gravity: exact momentum, energy and mass budgets per step, free fall, face predictor, gravity fields of the built-in problems."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from workloads import *


def gfield(rng, kind, n, dim, L, amp):
    """[nx][ny][nz][dim]"""
    g = np.zeros(tuple(n) + (1,) * (3 - len(n)) + (dim,)); n3 = g.shape[:3]
    dirs = [d for d in range(dim) if rng.random() < 0.7] or [int(rng.integers(dim))]
    for d in dirs:
        a = amp * rng.uniform(0.3, 1) * rng.choice([-1, 1])
        if kind == "uniform": g[..., d] = a
        elif kind == "smooth": g[..., d] = fourier(rng, n3, dim, a)
        else: g[..., d] = a * rng.uniform(-1, 1, size=n3)
    return g


def pad(g, gw, dim):
    for d in range(dim):
        w = [(0, 0)] * 4; w[d] = (gw, gw)
        g = np.pad(g, w, mode="wrap")
    return g


def hllf(wl, wr, d, gamma, which, dim):
    """HLL / LLF flux in direction d of primitive states (rho, p, v...)"""
    def cons(w):
        u = [w[0], w[1] / (gamma - 1) + 0.5 * w[0] * sum(v * v for v in w[2:])] + [w[0] * v for v in w[2:]]
        return u
    def flux(w, u):
        vn = w[2 + d]; f = [x * vn for x in u]; f[1] = f[1] + w[1] * vn; f[2 + d] = f[2 + d] + w[1]
        return f
    ul, ur = cons(wl), cons(wr); fl, fr = flux(wl, ul), flux(wr, ur)
    cl, cr = np.sqrt(gamma * wl[1] / wl[0]), np.sqrt(gamma * wr[1] / wr[0])
    if which == "llf":
        c = np.maximum(np.abs(wl[2 + d]) + cl, np.abs(wr[2 + d]) + cr)
        return [0.5 * (a + b) - 0.5 * c * (q - p) for a, b, p, q in zip(fl, fr, ul, ur)]
    sl = np.minimum(np.minimum(wl[2 + d], wr[2 + d]) - np.maximum(cl, cr), 0); sr = np.maximum(np.maximum(wl[2 + d], wr[2 + d]) + np.maximum(cl, cr), 0)
    return [(sr * a - sl * b + sr * sl * (q - p)) / (sr - sl) for a, b, p, q in zip(fl, fr, ul, ur)]


def cases(ctx):
    rng = ctx.rng; out = []
    for solver in MUSCL[:2]:
        dim = dim_of(solver)
        for impl in (0, 1):
            for what in ("budget", "fall", "predictor"):
                for rep in range(ctx.pick(120 if what == "budget" else 50, 600)):
                    n = shape(rng, dim, 4, 12 if dim == 2 else 7, 200); L = extents(rng, dim); gamma = float(rng.choice([1.5, 1.375, 1.25]))
                    rs = str(rng.choice(RIEMANN_H)) if what != "predictor" else str(rng.choice(["hll", "llf"]))
                    gk = ["uniform", "smooth", "random"][int(rng.integers(3))] if what != "fall" else "uniform"
                    amp = float(10 ** rng.uniform(-2, 0.7))
                    g = gfield(rng, gk, n, dim, L, amp); gi = pad(g, 2, dim)
                    kind = ["smooth", "blocks", "random", "mixed"][int(rng.integers(4))]
                    if what == "budget": U = state(rng, solver, n, L, kind, gamma=gamma)
                    else:
                        W = prim_hydro(rng, "smooth", tuple(list(n) + [1] * (3 - dim)), dim, drho=0, dp=0); sp = rng.random() < 0.3
                        for d in range(dim): W["uvw"[d]] = np.full_like(W["rho"], 0.0 if sp else rng.uniform(-1, 1))
                        U = cons_hydro(W, gamma, dim)
                    point = bool(rng.integers(2))
                    ini = solver_ini(solver, n, L, [3] * 6, problem="implode", hydro=dict(gamma0=gamma, cfl=0.3, slope_type=int(rng.integers(0, 3)), riemann=rs, smallr=1e-8, smallc=1e-4),
                                     other=dict(implementationVersion=impl), extra={"gravity": {"point" if point else "static": True}})
                    N = 4 if what == "fall" else 3 if what == "budget" else 1
                    info = dict(what=what, solver=solver, impl=impl, rs=rs, g=gk, kind=kind, dim=dim, n=n, L=L, gamma=gamma, gv=g)
                    out.append(Case("%s-%s-%d-%d" % (what, solver, impl, rep), ini, ["inject u.bin", "gravity g.bin", "dump i", "step %d" % N], {"u.bin": U, "g.bin": gi}, info=info))
    # gravity field prescribed by the built-in problems
    for solver in MUSCL[:2]:
        dim = dim_of(solver)
        for prob in ("rayleigh_taylor", "rising_bubble", "disk"):
            for rep in range(ctx.pick(8, 40)):
                n = shape(rng, dim, 4, 9, 300); L = extents(rng, dim)
                gv = [float(rng.integers(-8, 9)) / 8 for _ in range(3)]
                ext = {"gravity": {("point" if prob == "disk" else "static"): True}}
                if prob == "disk": ext["gravity"].update(x=gv[0], y=gv[1], z=gv[2], G=float(rng.choice([0.5, 1, 2])), M=float(rng.choice([0.25, 1, 3])), soften=float(rng.choice([0.125, 0.25])))
                else: ext[prob] = dict(gx=gv[0], gy=gv[1], gz=gv[2])
                if prob == "disk": ext["disk"] = dict(xc=0, yc=0, zc=0)
                ini = solver_ini(solver, n, L, [2] * 6, problem=prob, extra=ext, other=dict(implementationVersion=rep % 2))
                out.append(Case("field-%s-%s-%d" % (prob, solver, rep), ini, ["dumpgrav g", "dump i", "step 1", "dumpgrav g"], info=dict(what="field", solver=solver, prob=prob, n=n, L=L, dim=dim, gvec=gv, grav=ext["gravity"])))
    return out


def judge(ctx, c):
    I = c.info; dim = I["dim"]; S = c.rec.states
    if I["what"] == "field":
        G = [s for s in S if s["tag"] == "g"]; gw = G[0]["gw"]
        ctx.observe(("field", I["prob"], I["solver"], c.name))
        if I["prob"] == "disk":
            q = I["grav"]; X = []
            for d in range(dim):
                h = (I["L"][d][1] - I["L"][d][0]) / I["n"][d]; x = I["L"][d][0] + (np.arange(-gw, I["n"][d] + gw) + 0.5) * h
                sh = [1, 1, 1]; sh[d] = -1; X.append(x.reshape(sh) - q["xyz"[d]])
            r = np.sqrt(sum(x * x for x in X) + q["soften"] ** 2 + (q["z"] ** 2 if dim == 2 else 0))
            ref = np.stack([np.broadcast_to(-q["G"] * q["M"] * x / r ** 3, r.shape) for x in X], axis=-1)
        else: ref = np.broadcast_to(np.array(I["gvec"][:dim]), G[0]["U"].shape)
        for s in G:
            e = np.abs(s["U"] - ref).max() / max(np.abs(ref).max(), 1e-9); ctx.stat_max("gravity field deviation", e)
            if not e <= 1e-6: ctx.violation("field:%s:%dD" % (I["prob"], dim), "gravity field of %s differs from the prescribed one by %.3g: %s" % (I["prob"], e, I), c, I)
        return
    gamma = I["gamma"]; g = I["gv"]; cls = "%s:i%d" % (I["solver"], I["impl"])
    if not np.isfinite(S[0]["U"]).all(): return
    dx = [(I["L"][d][1] - I["L"][d][0]) / I["n"][d] for d in range(dim)]
    for a, b in zip(S, S[1:]):
        A, B, dt = a["U"], b["U"], b["dt"]
        if not np.isfinite(B).all() or (A[..., ID] < 1e-6).any() or (B[..., ID] < 1e-6).any(): ctx.stats["skipped steps (floors)"] = ctx.stats.get("skipped steps (floors)", 0) + 1; break
        r0, r1 = A[..., ID], B[..., ID]
        src = 0.5 * dt * g * (r0 + r1)[..., None]; m1 = B[..., IU:IU + dim]; m0 = A[..., IU:IU + dim]; pre = m1 - src
        cs = np.sqrt(gamma * np.abs(A[..., IP]).max() / r0.min()); msc = r0.max() * cs + np.abs(m0).max(); cells = r0.size
        ctx.observe((I["what"], cls, I["rs"], I["g"], c.name, b["it"]))
        e = abs(r1.sum() - r0.sum()) / (r0.max() * cells); ctx.stat_max("mass budget", e)
        if not e <= 1e-12: ctx.violation("mass:" + cls, "total mass changes by %.3g per cell with gravity: %s" % (e, c.name), c)
        for d in range(dim):
            e = abs(m1[..., d].sum() - m0[..., d].sum() - src[..., d].sum()) / (msc * cells); ctx.stat_max("momentum budget", e)
            if not e <= 1e-12: ctx.violation("momentum:%s:%s" % (cls, "xyz"[d]), "momentum %s changes by %.16g in a step, dt times mean weighted acceleration is %.16g: %s" % ("xyz"[d], m1[..., d].sum() - m0[..., d].sum(), src[..., d].sum(), c.name), c)
        dE = (((m1 ** 2).sum(-1) - (pre ** 2).sum(-1)) / (2 * r1)).sum()
        e = abs(B[..., IP].sum() - A[..., IP].sum() - dE) / ((np.abs(A[..., IP]).max() + np.abs(dE) / cells) * cells); ctx.stat_max("energy budget", e)
        if not e <= 1e-12: ctx.violation("energy:" + cls, "total energy changes by %.16g, kinetic-energy change from gravity is %.16g: %s" % (B[..., IP].sum() - A[..., IP].sum(), dE, c.name), c)
        v0 = m0 / r0[..., None]; v1 = m1 / r1[..., None]
        p0 = (gamma - 1) * (A[..., IP] - 0.5 * r0 * (v0 ** 2).sum(-1)); p1 = (gamma - 1) * (B[..., IP] - 0.5 * r1 * (v1 ** 2).sum(-1))
        if I["what"] == "fall":
            vs = cs + np.abs(v1).max()
            for nm, x, y, sc in [("density", r1, r0, r0.max()), ("pressure", p1, p0, p0.max() + r0.max() * vs ** 2)] + [("velocity " + "xyz"[d], v1[..., d], v0[..., d] + dt * g[..., d], vs) for d in range(dim)]:
                e = np.abs(x - y).max() / sc; ctx.stat_max("free fall deviation", e)
                if not e <= 1e-11: ctx.violation("fall:%s:%s" % (cls, nm), "%s of a uniform falling gas deviates by %.3g after step %d: %s" % (nm, e, b["it"], c.name), c)
        if I["what"] == "predictor" and a["it"] == 0:
            W = [r0, p0] + [v0[..., d] + 0.5 * dt * g[..., d] for d in range(dim)]
            R = [r0.copy(), A[..., IP].copy()] + [m0[..., d].copy() for d in range(dim)]
            for d in range(dim):
                F = hllf([np.roll(w, 1, d) for w in W], W, d, gamma, I["rs"], dim)
                for v in range(2 + dim): R[v] += dt / dx[d] * (F[v] - np.roll(F[v], -1, d))
            rn = R[0]; mp = np.stack(R[2:], -1); mn = mp + 0.5 * dt * g * (r0 + rn)[..., None]
            R[1] = R[1] + ((mn ** 2).sum(-1) - (mp ** 2).sum(-1)) / (2 * rn)
            R[2:] = [mn[..., d] for d in range(dim)]
            for v in range(2 + dim):
                e = np.abs(B[..., v] - R[v]).max() / (np.abs(A[..., v]).max() + (msc if v > 1 else 0)); ctx.stat_max("predictor reference deviation", e)
                if not e <= 1e-11: ctx.violation("predictor:%s:v%d" % (cls, v), "first step of a uniform gas in a non-uniform field: variable %d differs from the reference with half-step accelerated face states by %.3g: %s" % (v, e, c.name), c); break


def run(ctx):
    ctx.rule = "one evaluation of the mass, momentum and energy budgets of a step with gravity (plus free fall, first-step reference, or prescribed-field comparison); distinct by workload, solver, variant, Riemann solver, field kind and step"
    ctx.assumptions += ["periodic gravity field and box for the budgets", "no density floor active"]
    b = Build(ctx)
    C = cases(ctx)
    for c in ctx.run(C, b): judge(ctx, c)
    for c in (C[0], C[-1]): ctx.sample(c.name)
    ctx.stats["runs"] = len(C); ctx.min_evals = 400


if __name__ == "__main__": main("P21", run)
