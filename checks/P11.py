"""P11 positivity correction of the spectral-difference solver: admissible flux-point states, averages kept, admissible cells untouched."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from workloads import *


def flux_nodes(N): return np.concatenate([[0.0], 0.5 * (1 + np.sort(np.polynomial.legendre.leggauss(N - 1)[0])) if N > 1 else [], [1.0]])


def interp(N): return np.linalg.solve(np.vander(sdm_nodes(N), N, increasing=True).T, np.vander(flux_nodes(N), N, increasing=True).T).T


def flux_values(U, dim, N):
    """per direction: values at the flux points [nx][ny][nz][var][...]"""
    V = sdm_view(U, dim, N); M = interp(N)
    e = ["abcvzyx,fx->abcvzyf", "abcvzyx,fy->abcvzfx", "abcvzyx,fz->abcvfyx"]
    return [np.einsum(e[d], V, M) for d in range(dim)]


def scale_of(U, dim, N): return np.abs(sdm_view(U, dim, N)).max(axis=(4, 5, 6))  # [nx][ny][nz][var]


def admissible(U, dim, N, gamma, sc):
    """(smallest density, its rounding tolerance), (smallest pressure margin) per cell: p + tolerance over all flux points"""
    rmin = np.inf; pmin = np.inf; pm = np.inf; sc = np.maximum(sc, np.abs(sdm_view(U, dim, N)).max(axis=(4, 5, 6)))
    eps = 2e-14 * sc[..., None, None, None]  # includes the Lebesgue constant of the node sets (below 8)
    for F in flux_values(U, dim, N):
        r = F[:, :, :, 0]; E = F[:, :, :, 1]; m = [F[:, :, :, 2 + k] for k in range(dim)]; m2 = sum(q * q for q in m)
        with np.errstate(all="ignore"):
            p = (gamma - 1) * (E - .5 * m2 / r)
            tol = (gamma - 1) * (eps[:, :, :, 1] + sum(np.abs(m[k] / r) * eps[:, :, :, 2 + k] for k in range(dim)) + .5 * m2 / r ** 2 * eps[:, :, :, 0])
        rmin = np.minimum(rmin, r.min(axis=(3, 4, 5)))
        q = np.where(r > 0, p + tol, -np.inf); q = np.where(np.isnan(q), -np.inf, q)
        pm = np.minimum(pm, q.min(axis=(3, 4, 5))); pmin = np.minimum(pmin, np.where(r > 0, p, -np.inf).min(axis=(3, 4, 5)))
    return rmin, eps[:, :, :, 0, 0, 0, 0], pmin, pm


def state(rng, n, dim, N, gamma, smallr):
    """cells of every kind: admissible, density or pressure below the floor, in one or all directions, mild or extreme"""
    N3 = list(n) + [1] * (3 - dim); K = (1, N, N) if dim == 2 else (N, N, N); sh = tuple(N3)
    ru = lambda a, b: rng.uniform(a, b, size=sh); lo = lambda a, b: 10 ** ru(a, b)
    strong = rng.random(sh) < .5
    rho = np.where(strong, lo(-3, 1), ru(.5, 2)); rho = np.maximum(rho, 5 * smallr); p = np.where(strong, lo(-6, 1), ru(.5, 2))
    c = np.sqrt(gamma * p / rho); mach = np.where(rng.random(sh) < .3, lo(0, 1.5), ru(0, 1)); dr = rng.normal(size=(dim,) + sh); dr /= np.sqrt((dr ** 2).sum(0))
    vel = dr * mach * c; A = np.stack([rho, p / (gamma - 1) + .5 * rho * (vel ** 2).sum(0)] + [rho * vel[k] for k in range(dim)], axis=-1)
    w = fejer(N)

    def dev():
        """zero-average nodal deviation of unit size, per cell a random dependence"""
        z = rng.normal(size=sh + K)
        one = rng.random(sh) < .3  # a single solution point stands out
        pk = np.zeros(sh + (K[0] * N * N,)); i = rng.integers(pk.shape[-1], size=sh); np.put_along_axis(pk, i[..., None], rng.choice([-1, 1], size=sh)[..., None] * 1.0, -1)
        z = np.where(one[..., None, None, None], pk.reshape(z.shape), z)
        ax = rng.integers(0, dim + 1, size=sh)  # dependence on a single coordinate
        for d in range(dim):
            k = 5 - d; z1 = np.broadcast_to(np.take(z, [0], axis=k if False else k), z.shape) if False else z
            sel = [slice(None)] * 6
            for q in range(3, 6):
                if q != k: sel[q] = slice(0, 1)
            z = np.where((ax == d)[..., None, None, None], np.broadcast_to(z1[tuple(sel)], z.shape), z)
        if dim == 2: av = np.einsum("abczyx,y,x->abc", z, w, w)
        else: av = np.einsum("abczyx,z,y,x->abc", z, w, w, w)
        z = z - av[..., None, None, None]; m = np.abs(z).max(axis=(3, 4, 5), keepdims=True)
        return np.where(m > 0, z / np.where(m > 0, m, 1), 0)
    D = np.stack([dev() for v in range(dim + 2)], axis=3)
    # amplitude relative to the average; every combination of quiet and violent variables
    amp = np.stack([np.where(rng.random(sh) < .45, np.where(rng.random(sh) < .2, 0, lo(-9, -2)), lo(-1.5, .7)) for v in range(dim + 2)], axis=-1)
    sc = A.copy(); sc[..., 2:] = np.sqrt(rho * (A[..., 1]))[..., None]
    quiet = rng.random(sh) < .2; amp = np.where(quiet[..., None], .02 * amp / (amp + 1), amp)
    return (A[..., None, None, None] + (amp * sc)[..., None, None, None] * D).reshape(sh + (-1,))


def cases(ctx):
    rng = ctx.rng; out = []
    for dim, N in SDM_KINDS:
        if N == 1: continue
        for mode in ("op", "op", "fdiv", "limit", "twice"):
            for rep in range(ctx.pick(24, 150)):
                n = shape(rng, dim, 3, 8 if dim == 2 else 5, 60); L = extents(rng, dim); gamma = float(np.float32(rng.choice([1.4, 5 / 3, 1.2, 2.0]))); smallr = float(np.float32(10.0 ** rng.choice([-10, -10, -7, -4])))
                U = state(rng, n, dim, N, gamma, smallr); arr = dict(u=U)
                script = ["inject u", "bnd", "dump a"]
                if mode == "op": script += ["op pre", "op pos", "dump b"]
                elif mode == "twice":
                    arr["v"] = state(rng, n, dim, N, gamma, smallr); script = ["inject v", "bnd", "op fdiv"] + script + ["op fdiv", "dumpfull f", "dump b"]
                else: script += ["op fdiv", "dumpfull f", "dump b"]
                lim = mode == "limit" or (mode == "twice" and bool(rng.integers(2)))
                integ = INTEG[int(rng.integers(4))]; sdm = dict(limiter_enabled=lim, positivity_enabled=True, M_TVB=float(rng.choice([0, .1, 40])))
                sdm[integ] = True
                ini = solver_ini(sdm_name(dim, N), n, L, [int(q) for q in np.repeat(rng.choice([1, 2, 3], 3), 2)], hydro=dict(gamma0=gamma, smallr=smallr), extra=dict(sdm=sdm))
                out.append(Case("c%d_%dD_%d_%s" % (len(out), dim, N, mode), ini, script, arr, info=dict(cls="%dD:N%d:%s" % (dim, N, mode), dim=dim, N=N, n=n, gamma=gamma, smallr=smallr, lim=lim, mode=mode), timeout=60))
    return out


def where(q, at): return "cell %s: %.6g" % (tuple(int(x) for x in at), q[at])


def judge(ctx, c):
    if c.rec is None: return
    st = {s["tag"]: s["U"] for s in c.rec.states}
    if "b" not in st: return
    I = c.info; dim, N, g = I["dim"], I["N"], I["gamma"]; a, b = st["a"], st["b"]; sc = scale_of(a, dim, N)
    r0, er, p0, q0 = admissible(a, dim, N, g, sc)
    trouble_r = r0 < I["smallr"]; trouble_p = ~trouble_r & (p0 < 1e-12)
    r, er, p, pm = admissible(b, dim, N, g, sc)
    ctx.observe((c.name, "flux points"), r.size * N ** (dim - 1) * (N + 1) * dim)
    S = ctx.stats
    for k, m in (("cells with density below the floor", trouble_r), ("cells with pressure below the floor", trouble_p), ("cells admissible before", ~trouble_r & ~trouble_p)): S[k] = S.get(k, 0) + int(m.sum())
    bad = ~(r >= I["smallr"] * (1 - 1e-9) - er)
    if bad.any():
        at = np.unravel_index(np.argmin(np.where(np.isnan(r), -np.inf, r)), r.shape)
        ctx.violation("density:" + I["cls"], "density below the floor at a flux point after the correction, %s (before %.6g) %s" % (where(r, at), r0[at], I), c)
    bad = ~(pm > 0)
    if bad.any():
        at = tuple(np.argwhere(bad)[0])
        ctx.violation("pressure:" + I["cls"], "pressure not positive at a flux point after the correction in %d of %d cells, %s (before %.6g, energy scale %.3g) %s" % (bad.sum(), bad.size, where(p, at), p0[at], sc[at][1], I), c)
    S["smallest pressure margin / energy after the correction"] = min(S.get("smallest pressure margin / energy after the correction", 1e9), float((p / sc[..., 1]).min()))
    A, B = sdm_average(a, dim, N), sdm_average(b, dim, N); d = np.abs(A - B) / sc
    ctx.observe((c.name, "average"), A.size); d = np.where(sc > 0, d, np.abs(A - B)); ctx.stat_max("max change of a cell average", d.max())
    if not d.max() <= 1e-12:
        at = np.unravel_index(np.argmax(d), d.shape)
        ctx.violation("average:" + I["cls"], "the average of variable %d in cell %s changed from %.15g to %.15g (scale %.3g) %s" % (at[3], tuple(int(x) for x in at[:3]), A[at], B[at], sc[at], I), c)
    if not I["lim"]:
        # clearly admissible before: nothing may change
        with np.errstate(all="ignore"): ok = (r0 > I["smallr"] + er) & (2 * p0 - q0 > 1.1e-12)
        dv = (np.abs(sdm_view(a, dim, N) - sdm_view(b, dim, N)).max(axis=(4, 5, 6)) / np.maximum(sc, 1e-300)).max(-1)
        ctx.observe((c.name, "untouched"), int(ok.sum())); S["untouched cells judged"] = S.get("untouched cells judged", 0) + int(ok.sum())
        if ok.any() and not dv[ok].max() <= 1e-14:
            ctx.violation("untouched:" + I["cls"], "an admissible cell was changed by %.3g (relative) %s" % (dv[ok].max(), I), c)
    if "f" in st:
        # ghost cells behind the faces are admissible as well when the fluxes are evaluated
        F = st["f"]
        for d in range(dim):
            for side in (0, F.shape[d] - 1):
                sl = [slice(1, -1)] * dim + [slice(None)] * (3 - dim); sl[d] = slice(side, side + 1); G = F[tuple(sl)]
                gs = np.broadcast_to(sc.max(axis=(0, 1, 2)), G.shape[:3] + (dim + 2,)); gr, ge, gp, gm = admissible(G, dim, N, g, gs)
                ctx.observe((c.name, "ghost", d, side), gr.size)
                if not ((gr >= I["smallr"] * (1 - 1e-9) - ge).all() and (gm > 0).all()):
                    ctx.violation("ghost:" + I["cls"], "a ghost cell behind face %d/%d is not admissible when the fluxes are evaluated (min rho %.3g, min p %.3g) %s" % (d, side > 0, gr.min(), gp.min(), I), c)


def run(ctx):
    ctx.rule = "one flux point, cell average, untouched cell or ghost cell judged after the correction; distinct by case and law"
    ctx.assumptions += ["every cell average has positive pressure and a density above the configured floor smallr", "positivity is judged up to the rounding of interpolating the corrected data to the flux points"]
    b = Build(ctx, sdm=True); cs = cases(ctx); ctx.run(cs, b)
    for c in cs: judge(ctx, c)
    for c in cs[:: max(1, len(cs) // 6)]: ctx.sample("%s %s" % (c.info["cls"], c.info["n"]))
    ctx.stats["runs"] = len(cs); ctx.min_evals = 10000
    if min(ctx.stats.get("cells with density below the floor", 0), ctx.stats.get("cells with pressure below the floor", 0), ctx.stats.get("untouched cells judged", 0)) < 100 and not ctx.viol: raise CheckError("workload did not exercise the correction")


if __name__ == "__main__": main("P11", run)
