"""P23 slope limiting: SDM limiter against the documented characteristic minmod procedure; MUSCL density advection range."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from workloads import *


def edges(N):
    """values at 0 and 1 of the interpolant through the solution points"""
    V = np.vander(sdm_nodes(N), N, increasing=True)
    return np.linalg.solve(V.T, np.vander([1.0], N, increasing=True)[0]) - np.linalg.solve(V.T, np.vander([0.0], N, increasing=True)[0])


def avg_grad(U, dim, N, d):
    """cell average of the derivative along reference coordinate d, [..., var]"""
    V = sdm_view(U, dim, N); w = fejer(N); e = edges(N)
    wz, wy, wx = [e if d == q else w for q in (2, 1, 0)]
    if dim == 2: return np.einsum("abcvzyx,y,x->abcv", V, wy, wx)
    return np.einsum("abcvzyx,z,y,x->abcv", V, wz, wy, wx)


def right_matrix(q, dim, d, gamma):
    """documented right eigenvectors (columns) for conservative order rho, E, mx, my(, mz); q [..., var]"""
    rho = q[..., 0]; v = [q[..., 2 + k] / rho for k in range(dim)]; V2 = sum(k * k for k in v)
    p = (gamma - 1) * (q[..., 1] - .5 * rho * V2); c = np.sqrt(gamma * p / rho); H = .5 * V2 + c * c / (gamma - 1)
    R = np.zeros(rho.shape + (dim + 2, dim + 2)); t = [k for k in range(dim) if k != d]
    for col, s in ((0, -1), (dim + 1, 1)):
        R[..., 0, col] = 1; R[..., 1, col] = H + s * v[d] * c
        for k in range(dim): R[..., 2 + k, col] = v[k] + (s * c if k == d else 0)
    R[..., 0, 1] = 1; R[..., 1, 1] = V2 / 2
    for k in range(dim): R[..., 2 + k, 1] = v[k]
    for n, k in enumerate(t): R[..., 2 + k, 2 + n] = 1; R[..., 1, 2 + n] = v[k]
    return R


def reference(F, dim, N, M, gamma):
    """F full array (ghosts filled). -> (expected interior data, flagged, ambiguous) for the interior cells"""
    inn = tuple([slice(1, -1)] * dim); A = sdm_average(F, dim, N); A0 = A[inn]
    if dim == 2: A0 = A0
    tot = 0; amb = np.zeros(A0.shape[:3], bool); new = []
    for d in range(dim):
        lo = list(inn); hi = list(inn); lo[d] = slice(0, -2); hi[d] = slice(2, None)
        R = right_matrix(A0, dim, d, gamma); Li = np.linalg.inv(R)
        t = lambda x: np.einsum("...ij,...j->...i", Li, x)
        g = t(avg_grad(F, dim, N, d)[inn]); l = t(A0 - A[tuple(lo)]); r = t(A[tuple(hi)] - A0)
        mm = np.where((g * l > 0) & (l * r > 0), np.sign(g) * np.minimum(np.abs(g), np.minimum(np.abs(l), np.abs(r))), 0)
        amb |= (np.abs(np.abs(g) - M) < 1e-9 * (1 + M)).any(-1)
        n = np.where(np.abs(g) < M, g, mm); tot = tot + np.abs(n - g).sum(-1) / (dim + 2)
        new.append(np.einsum("...ij,...j->...i", R, n))
    amb |= (tot > 1e-12) & (tot < 1e-8)
    flagged = tot > 1e-10
    x = sdm_nodes(N) - .5; sh = A0.shape + ((1, N, N) if dim == 2 else (N, N, N))
    E = np.broadcast_to(A0[..., None, None, None], sh).copy()
    for d in range(dim):
        s = [1, 1, 1]; s[2 - d] = N; E += new[d][..., None, None, None] * x.reshape(s)
    return E, flagged, amb


def sdm_cases(ctx):
    rng = ctx.rng; out = []
    for dim, N in SDM_KINDS:
        solver = sdm_name(dim, N)
        for kind in ("linear", "smooth", "noise", "step", "vary", "vary"):
            for rep in range(ctx.pick(9, 50)):
                n = shape(rng, dim, 3, 6 if dim == 2 else 4, 60); L = extents(rng, dim); gamma = float(np.float32(rng.choice([1.4, 5 / 3, 1.2])))
                full = [q + 2 for q in n] + [1] * (3 - dim); Lf = [(L[d][0] - (L[d][1] - L[d][0]) / n[d], L[d][1] + (L[d][1] - L[d][0]) / n[d]) for d in range(dim)]
                M = float(rng.choice([0, 0, .02, .1, .5, 40, 1e10]))
                if kind == "linear":
                    X = sdm_coords(full[:dim], Lf, dim, N); T = [(X[d] - Lf[d][0]) / (Lf[d][1] - Lf[d][0]) - .5 for d in range(dim)]
                    q = rng.uniform(-.6, .6, (dim + 2, dim))
                    U = sdm_pack([(2.0 if v == 0 else 6.0 if v == 1 else 0.3) + sum(q[v, d] * T[d] for d in range(dim)) for v in range(dim + 2)])
                    arr = dict(u=U); script = ["injectfull u"]
                else:
                    if kind == "vary":  # every cell with its own roughness
                        U = sdm_state(rng, n, L, dim, N, "smooth", gamma, amp=.3)
                        V = sdm_view(U, dim, N); a = 10 ** rng.uniform(-3, -.7, size=V.shape[:3] + (1, 1, 1, 1))
                        V = V * (1 + a * rng.uniform(-1, 1, size=V.shape)); V[:, :, :, 1] += .5 * np.abs(V[:, :, :, 1]); U = V.reshape(U.shape)
                    else: U = sdm_state(rng, n, L, dim, N, kind, gamma, amp=float(rng.choice([.02, .2, .6])))
                    arr = dict(u=U); script = ["inject u", "bnd"]
                pos = bool(rng.integers(2)) if kind != "linear" else False
                script += ["dumpfull a", "op pre", "op limit", "dump b"]
                ini = solver_ini(solver, n, L, [int(q) for q in np.repeat(rng.choice([1, 2, 3], 3), 2)], hydro=dict(gamma0=gamma),
                                 extra=dict(sdm=dict(limiter_enabled=True, M_TVB=M, ssprk2=True, positivity_enabled=pos)))
                out.append(Case("l%d_%s_%s" % (len(out), solver, kind), ini, script, arr, info=dict(cls="sdm:%s:%s" % (solver, kind), dim=dim, N=N, n=n, L=L, gamma=gamma, M=float(np.float32(M)), kind=kind), timeout=60))
    return out


def judge_sdm(ctx, c):
    if c.rec is None: return
    st = {s["tag"]: s["U"] for s in c.rec.states}
    if "b" not in st: return
    I = c.info; dim, N = I["dim"], I["N"]; inn = tuple([slice(1, -1)] * dim); F = st["a"]; a = F[inn]; b = st["b"]
    sc = np.maximum(np.abs(sdm_view(a, dim, N)).max(axis=(0, 1, 2, 4, 5, 6)), 1e-3)
    A, B = sdm_average(a, dim, N), sdm_average(b, dim, N)
    d = (np.abs(A - B) / sc).max(); ctx.observe((c.name, "avg"), A.size); ctx.stat_max("max change of a cell average", d)
    if not d <= 1e-11:
        at = np.unravel_index(np.argmax(np.abs(A - B) / sc), A.shape)
        ctx.violation("average:" + I["cls"], "the limiter changed the average of variable %d in cell %s from %.15g to %.15g %s" % (at[3], at[:3], A[at], B[at], I), c)
    dv = (np.abs(sdm_view(b, dim, N) - sdm_view(a, dim, N)) / sc[None, None, None, :, None, None, None]).max(axis=(3, 4, 5, 6))
    if I["kind"] == "linear" or I["M"] > 1e9:
        if not dv.max() <= 1e-11:
            ctx.violation("untouched:" + I["cls"], "%s was changed by %.3g in cell %s %s" % ("linear data" if I["kind"] == "linear" else "data below the threshold", dv.max(), np.unravel_index(np.argmax(dv), dv.shape), I), c)
        ctx.observe((c.name, "untouched"), dv.size); ctx.stats["untouched cells"] = ctx.stats.get("untouched cells", 0) + dv.size
        return
    E, flag, amb = reference(F, dim, N, I["M"], I["gamma"])
    keep = ~flag & ~amb; lim = flag & ~amb
    ctx.stats["cells kept"] = ctx.stats.get("cells kept", 0) + int(keep.sum()); ctx.stats["cells limited"] = ctx.stats.get("cells limited", 0) + int(lim.sum()); ctx.stats["cells not judged"] = ctx.stats.get("cells not judged", 0) + int(amb.sum())
    ctx.observe((c.name, "criterion"), int(keep.sum() + lim.sum()))
    if keep.any() and not dv[keep].max() <= 1e-11:
        ctx.violation("untouched:" + I["cls"], "a cell that satisfies the smoothness criterion was changed by %.3g %s" % (dv[keep].max(), I), c)
    e = (np.abs(sdm_view(b, dim, N) - E) / sc[None, None, None, :, None, None, None]).max(axis=(3, 4, 5, 6))
    if lim.any():
        ctx.stat_max("max deviation from the limited linear function", e[lim].max())
        if not e[lim].max() <= 1e-9:
            ctx.violation("limited:" + I["cls"], "a flagged cell differs by %.3g from the linear function with the limited gradient %s" % (e[lim].max(), I), c)


def muscl_cases(ctx):
    rng = ctx.rng; out = []
    for solver in MUSCL:
        dim = dim_of(solver)
        for impl in impls(solver):
            for rie in riemanns(solver):
                for ax in range(dim):
                    for rep in range(ctx.pick(6, 30)):
                        n = [int(q) for q in rng.integers(4, 6, size=dim)]; n[ax] = int(rng.integers(12, 28)); L = extents(rng, dim)
                        gamma = 1.4; N3 = n + [1] * (3 - dim); sh = [1] * 3; sh[ax] = n[ax]
                        kind = ["blocks", "random", "smooth", "mixed"][int(rng.integers(4))]
                        prof = field(rng, kind, (n[ax], 1, 1), 1, 1.0)[:, 0, 0]
                        rho = (1.2 + prof * rng.uniform(.2, 1.0)).reshape(sh) * np.ones(N3)
                        p = rng.uniform(.3, 3); u = rng.uniform(-2, 2); vel = [0.0] * 3; vel[ax] = u
                        st = int(rng.choice([0, 1, 2])) if rie in ("approx", "hllc", "hlld") else int(rng.choice([0, 1]))
                        W = dict(rho=rho, p=np.full(N3, p), u=np.full(N3, vel[0]), v=np.full(N3, vel[1]), w=np.full(N3, vel[2]))
                        if "MHD" in solver:
                            B = [np.full(N3, x) for x in rng.uniform(-1, 1, 3) * rng.choice([0, 1])]; U = cons_mhd(W, B, gamma, dim)
                        else: U = cons_hydro(W, gamma, dim)
                        ini = solver_ini(solver, n, L, [3] * 6, hydro=dict(riemann=rie, slope_type=st, cfl=float(rng.choice([.2, .4, .6, .8])), gamma0=gamma), other=dict(implementationVersion=impl))
                        k = int(ctx.pick(10, 40))
                        out.append(Case("m%d_%s" % (len(out), solver), ini, ["inject u", "step %d" % k], dict(u=U), info=dict(cls="muscl:%s:impl%d:%s:axis%d" % (solver, impl, rie, ax), rho=(rho.min(), rho.max()), n=n, st=st, u=u, p=p), timeout=60))
    return out


def judge_muscl(ctx, c):
    if c.rec is None: return
    I = c.info; lo, hi = I["rho"]
    for s in c.rec.states:
        r = s["U"][..., 0]; w = hi - lo; ctx.observe((c.name, s["it"]), r.size)
        ex = max(lo - r.min(), r.max() - hi); ctx.stat_max("largest excess over the initial density range", max(ex, 0))
        ctx.stat_max("largest flattening of the density range", 1 - (r.max() - r.min()) / w)
        if not ex <= 1e-11:
            ctx.violation("range:" + I["cls"], "density [%.12g, %.12g] left the initial range [%.12g, %.12g] at step %d %s" % (r.min(), r.max(), lo, hi, s["it"], I), c); return


def run(ctx):
    ctx.rule = "a cell average, kept cell, limited cell (spectral difference) or density field (MUSCL step) compared with its law; distinct by case and law (or step)"
    ctx.assumptions += ["the smoothness criterion and the limited gradient are the documented characteristic minmod procedure (M_TVB threshold in reference coordinates); cells within 1e-9 of the threshold are not judged",
                        "density range in MUSCL: all limiter settings for the contact-resolving solvers, slope_type 0 and 1 for hll and llf"]
    b = Build(ctx, sdm=True); sc = sdm_cases(ctx); mc = muscl_cases(ctx)
    ctx.run(sc + mc, b)
    for c in sc: judge_sdm(ctx, c)
    for c in mc: judge_muscl(ctx, c)
    for c in (sc[0], sc[-1], mc[0], mc[-1]): ctx.sample("%s %s" % (c.info["cls"], c.info["n"]))
    ctx.stats["runs"] = len(sc) + len(mc); ctx.min_evals = 2000
    if ctx.stats.get("cells limited", 0) < 100 or ctx.stats.get("cells kept", 0) < 100: raise CheckError("workload did not exercise the limiter")


if __name__ == "__main__": main("P23", run)
