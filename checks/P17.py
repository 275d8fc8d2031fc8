"""P17 spectral-difference operators: polynomial exactness of every operator, textbook behaviour of every integrator."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from workloads import *
from numpy.polynomial import polynomial as P

GAUSS = {1: [], 2: [0.0]}


def flux_nodes(N): return np.concatenate([[0.0], 0.5 * (1 + np.sort(np.polynomial.legendre.leggauss(N - 1)[0])) if N > 1 else [], [1.0]])


def polyval(Cf, xs):
    """Cf[..., a, b, c] coefficients of x^a y^b z^c at the tensor grid xs=(x,y,z) -> [..., z, y, x]"""
    V = [np.vander(np.atleast_1d(x), Cf.shape[-3 + d], increasing=True) for d, x in enumerate(xs)]
    return np.einsum("...abc,xa,yb,zc->...zyx", Cf, V[0], V[1], V[2])


def pder(Cf, d):
    ax = Cf.ndim - 3 + d; n = Cf.shape[ax]
    if n == 1: return np.zeros_like(Cf)
    sh = [1] * Cf.ndim; sh[ax] = n - 1
    return np.take(Cf, np.arange(1, n), ax) * np.arange(1, n).reshape(sh)


def rand_poly(rng, cells, nv, dims, dim, vel=None):
    """random polynomial per cell and variable; density (variable 0) positive on the cell"""
    dims = list(dims) + [1] * (3 - len(dims))
    C = rng.normal(size=tuple(cells) + (nv,) + tuple(dims))
    C[..., 0, :, :, :] *= 0.1; C[..., 0, 0, 0, 0] = 1 + np.abs(C[..., 0, :, :, :]).sum(axis=(-1, -2, -3))
    return C


FE, R2, R3 = [1, 1], [1, 1, .5], [1, 1, .5, 1 / 6]


def stab54():
    a = [(1, 0, 0.391752226571890), (0.444370493651235, 0.555629506348765, 0.368410593050371), (0.620101851488403, 0.379898148511597, 0.251891774271694), (0.178079954393132, 0.821920045606868, 0.544974750228521)]
    z = np.array([0, 1.0]); one = np.array([1.0]); u = [one]
    for c0, c1, c2 in a: u.append(P.polyadd(c0 * one, P.polyadd(c1 * u[-1] if c1 else [0], c2 * P.polymul(z, u[-1]))))
    r = P.polyadd(0.517231671970585 * u[2], P.polyadd(0.096059710526147 * u[3], 0.063692468666290 * P.polymul(z, u[3])))
    return P.polyadd(r, P.polyadd(0.386708617503269 * u[4], 0.226007483236906 * P.polymul(z, u[4])))


STAB = {"forward_euler": np.array(FE, float), "ssprk2": np.array(R2), "ssprk3": np.array(R3), "ssprk54": stab54()}


def op_cases(ctx):
    rng = ctx.rng; out = []
    for dim, N in SDM_KINDS:
        for rep in range(ctx.pick(12, 60)):
            nv = dim + 2; n = shape(rng, dim, 2, 5 if dim == 2 else 3, 100); L = extents(rng, dim); gw = 1
            full = [q + 2 * gw for q in n] + [1] * (3 - dim)
            Pc = rand_poly(rng, full, nv, [N] * dim, dim); sx = sdm_nodes(N); fx = flux_nodes(N)
            nodes = [sx] * dim + [np.array([0.0])] * (3 - dim)
            U = polyval(Pc, nodes).reshape(tuple(full) + (-1,))
            arr = dict(u=U); script = ["injectfull u", "sd avg avg"]; exp = {}
            w = fejer(N)
            avgv = np.array([1.0 / (a + 1) for a in range(N)]); one = np.array([1.0])
            I = [avgv] * dim + [one] * (3 - dim)
            exp["avg"] = ("cell average", np.einsum("...abc,a,b,c->...", Pc, I[0], I[1], I[2]))
            # velocity fields: rho u = rho * (polynomial); the velocity is what is interpolated
            Vc = rand_poly(rng, full, dim, [N] * dim, dim); V = polyval(Vc, nodes)
            Uv = polyval(Pc, nodes).copy(); Uv[..., 2:, :, :, :] = Uv[..., 0:1, :, :, :] * V
            arr["uv"] = Uv.reshape(tuple(full) + (-1,))
            for d in range(dim):
                h = (L[d][1] - L[d][0]) / n[d]
                fn = list(nodes); fn[d] = fx
                script.append("sd s2f %d 0 sf%d" % (d, d)); exp["sf%d" % d] = ("interpolation to the flux points along " + "xyz"[d], polyval(Pc, fn).reshape(tuple(full) + (-1,)))
                D = pder(Pc, d); J = [np.array([1.0 / (a + 1) for a in range(D.shape[-3 + q])]) for q in range(3)]
                script.append("sd grad %d 0 gr%d" % (d, d)); exp["gr%d" % d] = ("average gradient along " + "xyz"[d], np.einsum("...abc,a,b,c->...", D, J[0], J[1], J[2]))
                dd = [N] * dim; dd[d] = N + 1
                Fc = rand_poly(rng, full, nv, dd, dim); arr["f%d" % d] = np.zeros(tuple(full) + (nv, 1 if dim == 2 else N, N, N + 1))
                F = polyval(Fc, fn).reshape(tuple(full) + (-1,)); arr["f%d" % d] = F
                script.append("sd injflux f%d" % d)
                base = polyval(Pc, nodes); der = polyval(pder(Fc, d), nodes) / h; sol = polyval(Fc, nodes)
                for m, (nm, e) in enumerate([("flux derivative", base + der), ("flux interpolation to the solution points", base + sol), ("negative flux derivative", base - der), ("negative flux interpolation", base - sol), ("regular flux interpolation", sol)]):
                    script.append("sd f2s %d %d f%dm%d" % (d, m, d, m)); exp["f%dm%d" % (d, m)] = (nm + " along " + "xyz"[d], e.reshape(tuple(full) + (-1,)))
            script.append("injectfull uv")
            for d in range(dim):
                h = (L[d][1] - L[d][0]) / n[d]; fn = list(nodes); fn[d] = fx
                script.append("sd vels2f %d 0 vf%d" % (d, d))
                e = polyval(Vc, fn); exp["vf%d" % d] = ("velocity interpolation along " + "xyz"[d], e.reshape(tuple(full) + (-1,)))
                exp["vf%dg" % d] = ("velocity gradient along " + "xyz"[d], (polyval(pder(Vc, d), nodes) / h).reshape(tuple(full) + (-1,)))
            solver = sdm_name(dim, N)
            ini = solver_ini(solver, n, L, [int(rng.choice([1, 2, 3]))] * 6, extra=dict(sdm=dict(ssprk2=True, limiter_enabled=True, positivity_enabled=True)))
            out.append(Case("o%d_%s" % (len(out), solver), ini, script, arr, info=dict(cls="op:%s" % solver, dim=dim, N=N, n=n, L=L, exp=exp, full=full), timeout=60))
    return out


def judge_op(ctx, c):
    if c.rec is None: return
    I = c.info; dim, N = I["dim"], I["N"]; got = {s["tag"]: s["U"] for s in c.rec.states}
    g = 1; inn = tuple([slice(g, -g)] * dim)
    short = {k: I[k] for k in ("cls", "n", "L")}
    for tag, (what, e) in I["exp"].items():
        if tag not in got: continue
        a = got[tag]; e = e.reshape(e.shape[:3] + (-1,))[inn]; a = a[inn][..., :e.shape[-1]]
        lim = 1e-11 * max(1, np.abs(e).max()) * N
        d = np.abs(a - e).max(); ctx.observe((c.name, tag), e.size); ctx.stat_max("max operator error", d / max(1, np.abs(e).max()))
        if not d <= lim:
            at = np.unravel_index(np.argmax(np.abs(a - e)), e.shape)
            ctx.violation("%s:%s" % (I["cls"], what), "%s is not exact for a polynomial of its degree: error %.3g at %s (got %.9g, exact %.9g) %s" % (what, d, at, a[at], e[at], short), c)


def rk_cases(ctx):
    rng = ctx.rng; out = []
    for dim, N in SDM_KINDS:
        solver = sdm_name(dim, N)
        for integ in INTEG:
            for rep in range(ctx.pick(9, 40)):
                n = shape(rng, dim, 3, 5 if dim == 2 else 3, 30); L = extents(rng, dim)
                lin = rep % 3 == 0; sd = {"forward_euler": integ == "forward_euler", "ssprk2": integ == "ssprk2", "ssprk3": integ == "ssprk3", "ssprk54": integ == "ssprk54"}
                gamma = 1.4
                if lin:
                    X = sdm_coords(n, L, dim, N); vel = rng.uniform(-1, 1, 3); rho = 1 + .3 * rng.uniform(-1, 1, size=X[0].shape); p = rng.uniform(.5, 2)
                    U = sdm_pack([rho, p / (gamma - 1) + .5 * rho * sum(vel[d] ** 2 for d in range(dim))] + [rho * vel[d] for d in range(dim)])
                    ini = solver_ini(solver, n, L, [3] * 6, hydro=dict(riemann="hllc", gamma0=gamma, cfl=float(rng.uniform(.1, .6))), extra=dict(sdm=sd))
                    script = ["inject u", "op dt", "sd powers %d" % (len(STAB[integ]) - 1), "inject u", "step 1"]
                else:
                    U = sdm_state(rng, n, L, dim, N, kind=["smooth", "step"][rep % 2], amp=.4); sd.update(LIM[int(rng.integers(4))]); sd["M_TVB"] = float(rng.choice([0, .01, 1, 40]))
                    ini = solver_ini(solver, n, L, [int(q) for q in np.repeat(rng.choice([1, 2, 3], 3), 2)], hydro=dict(riemann=str(rng.choice(RIEMANN_H)), cfl=float(rng.uniform(.1, .5))), extra=dict(sdm=sd))
                    script = ["inject u", "op dt", "sd refstep " + integ, "dump ref", "inject u", "step 1"]
                out.append(Case("r%d_%s_%s" % (len(out), solver, integ), ini, script, dict(u=U), info=dict(cls="rk:%s:%s" % (solver, integ), lin=lin, dim=dim, N=N, integ=integ, n=n, sd=sd), timeout=60))
    return out


def judge_rk(ctx, c):
    if c.rec is None: return
    I = c.info; st = {s["tag"]: s for s in c.rec.states}
    if "s" not in st: return
    dim, N = I["dim"], I["N"]; nv = dim + 2; got = st["s"]["U"]
    if I["lin"]:
        nn = N ** dim; inn = tuple([slice(1, -1)] * dim); A = STAB[I["integ"]]; dt = st["s"]["dt"]
        rho = got[..., :nn]; pw = [st["pow%d" % m]["U"][inn] for m in range(len(A))]
        mean = (c.arrays["u"][..., :nn] - pw[0]).mean()
        want = mean + sum(A[m] * dt ** m * pw[m] for m in range(len(A)))
        sc = max(np.abs(A[m] * dt ** m * pw[m]).max() for m in range(len(A)))
        d = np.abs(rho - want).max(); ctx.observe((c.name, "stab"), rho.size); ctx.stat_max("max deviation from the stability polynomial", d / sc)
        ctx.stat_max("largest |z^s v| / |v| seen", max(np.abs(dt ** m * pw[m]).max() for m in range(len(A))) / np.abs(pw[0]).max())
        if not d <= 1e-9 * max(1, sc): ctx.violation("stab:" + I["cls"], "one step differs by %.3g from the stability polynomial of %s applied to the semi-discrete operator %s" % (d, I["integ"], {k: I[k] for k in ("cls", "n")}), c)
    else:
        e, w = state_diff(st["ref"]["U"], got, nv); ctx.observe((c.name, "ref"), got.size); ctx.stat_max("max deviation from the textbook integrator", e)
        if not e <= 1e-10: ctx.violation("step:" + I["cls"], "one step differs by %.3g (variable %d) from the textbook integrator on the same semi-discrete operator %s" % (e, w, {k: I[k] for k in ("cls", "n", "sd")}), c)


def run(ctx):
    ctx.rule = "values of one operator (or one time step) compared with the exact polynomial (textbook integrator / stability polynomial); distinct by degree, dimension, operator, direction, grid and data"
    ctx.assumptions += ["average gradient: judged for polynomials of the element's degree, in reference coordinates", "integrator references use the code's own flux divergence, judged by the other properties",
                        "with limiting the reference integrator limits every stage where the flux divergence is evaluated"]
    b = Build(ctx, mains=("sd",), sdm=True)
    ops = op_cases(ctx); rks = rk_cases(ctx)
    for c in ops + rks: c.exe = b.exe["sd"]
    ctx.run(ops + rks, b)
    for c in ops: judge_op(ctx, c)
    for c in rks: judge_rk(ctx, c)
    for c in (ops[0], ops[-1], rks[0], rks[-1]): ctx.sample("%s %s" % (c.info["cls"], c.info["n"]))
    ctx.stats["operator runs"] = len(ops); ctx.stats["integrator runs"] = len(rks); ctx.min_evals = 1000


if __name__ == "__main__": main("P17", run)
