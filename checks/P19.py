"""P19 accuracy: errors of recorded runs against exact solutions on a sequence of grids."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from workloads import *
from exact import *

GX, GW = np.polynomial.legendre.leggauss(6); GX, GW = (GX + 1) / 2, GW / 2


# ---- one-dimensional profiles laid along an axis ---------------------------------------------------
def cons(W, Bn, g, mhd):
    """primitive (rho, p, vn, vt1, vt2[, Bt1, Bt2]) [..,k] -> conservative rotated (rho, E, mn, mt1, mt2[, Bn, Bt1, Bt2])"""
    r, p, v = W[..., 0], W[..., 1], W[..., 2:5]; E = p / (g - 1) + .5 * r * (v ** 2).sum(-1)
    out = [r, E, r * v[..., 0], r * v[..., 1], r * v[..., 2]]
    if mhd: out[1] = E + .5 * (Bn ** 2 + W[..., 5] ** 2 + W[..., 6] ** 2); out += [Bn + 0 * r, W[..., 5], W[..., 6]]
    return np.stack(out, -1)


def cell_average(prim, n, t, Bn, g, mhd, sub=1):
    """averages over n cells of [0,1]; sub > 1: midpoint samples, for discontinuous profiles"""
    if sub > 1: x = (np.arange(n)[:, None] + (np.arange(sub)[None, :] + .5) / sub) / n; w = np.full(sub, 1. / sub)
    else: x = (np.arange(n)[:, None] + GX[None, :]) / n; w = GW
    return np.einsum("ijk,j->ik", cons(prim(x, t), Bn, g, mhd), w)


def lay(C, d, dim, mhd, m, sdm=None):
    """rotated conservative values along one axis -> array of the code: [nx][ny][nz][nv]; d = axis, m = transverse cells"""
    t1, t2 = ((d + 1) % 3, (d + 2) % 3) if dim == 3 else ((1 - d), 2)
    nv = 8 if mhd else 2 + dim; V = np.zeros((C.shape[0], nv)); V[:, ID], V[:, IP] = C[:, 0], C[:, 1]
    for ax, q in ((d, 2), (t1, 3), (t2, 4)):
        if mhd or ax < dim: V[:, IU + ax] = C[:, q]
    if mhd:
        for ax, q in ((d, 5), (t1, 6), (t2, 7)): V[:, IA + ax] = C[:, q]
    sh = [1, 1, 1, nv]; sh[d] = C.shape[0]; full = [m if q < dim else 1 for q in range(3)] + [nv]; full[d] = C.shape[0]
    return np.broadcast_to(V.reshape(sh), full).copy()


class Prob:
    """a family of runs: one exact solution on several grids"""

    def __init__(self, name, kind, solver, cells, T, start, exact, scale, ini, tol, order, other=None):
        self.__dict__.update(locals()); self.err = {}


def prob_axis(ctx, solver, d, kind, cells, hyd, oth, g, rng, m=4, sdmN=None, sdmini=None, tol=None, order=None):
    dim = dim_of(solver); mhd = "MHD" in solver; Bn = 0.; period = True
    rho0, p0 = rng.uniform(.7, 1.5), rng.uniform(.7, 1.5); c0 = np.sqrt(g * p0 / rho0); ph = rng.uniform(); sg = int(rng.choice([-1, 1]))
    if kind == "density":
        u0 = sg * rng.uniform(.5, 1); A = .2; T = .3 / abs(u0); vt = rng.uniform(-1, 1, 2) * (1 if dim == 3 or mhd else 0)
        prim1 = lambda x, t: np.stack([rho0 * (1 + A * np.sin(2 * np.pi * (x - u0 * t + ph))), p0 + 0 * x, u0 + 0 * x, vt[0] + 0 * x, vt[1] + 0 * x], -1)
        Bt = rng.uniform(-.5, .5, 2) if mhd else None; Bn = float(rng.uniform(-.5, .5)) if mhd else 0.
        prim = (lambda x, t: np.concatenate([prim1(x, t), np.broadcast_to(Bt, x.shape + (2,))], -1)) if mhd else prim1
    elif kind == "simple":
        A = .08; T = .25 / c0; u0 = rng.uniform(-.3, .3); w = simple_wave(g, rho0, p0, u0, A, sg)
        prim = lambda x, t: w(x + ph, t)
        if mhd: prim = lambda x, t: np.concatenate([w(x + ph, t), np.zeros(x.shape + (2,))], -1); Bn = float(rng.uniform(.2, .4))
    elif kind.startswith("linear"):
        f = int(kind[-1]); Bn = float(rng.choice([-1, 1]) * rng.uniform(.4, 1)); W0 = np.array([rho0, p0] + list(rng.uniform(-.4, .4, 3)) + list(rng.uniform(.3, .8, 2) * rng.choice([-1, 1], 2)))
        l, R = mhd_waves(W0, Bn, g); r = R[:, f] / np.abs(R[:, f]).max(); A = 1e-4; T = .3 / max(abs(l[f]), .3)
        prim = lambda x, t: W0 + A * np.sin(2 * np.pi * (x - l[f] * t + ph))[..., None] * r
    elif kind == "alfven":
        Bn = float(sg * rng.uniform(.6, 1)); b = .2; ca = Bn / np.sqrt(rho0); A = b; u0 = rng.uniform(-.2, .2); T = .3 / abs(u0 - ca)
        def prim(x, t):   # left-going for positive Bn: v_t = B_t/sqrt(rho)
            q = 2 * np.pi * (x - (u0 - ca) * t); o = 0 * x
            return np.stack([rho0 + o, p0 + o, u0 + o, b * np.sin(q) / np.sqrt(rho0), b * np.cos(q) / np.sqrt(rho0), b * np.sin(q), b * np.cos(q)], -1)
    nz = np.array([rho0, p0 + rho0 * c0 ** 2, rho0 * c0, rho0 * c0, rho0 * c0] + ([c0] * 3 if mhd else []))
    ini = lambda n: solver_ini(solver, [n if q == d else (m if q < dim else 1) for q in range(3)], [(0., 1. if q == d else float(m) / n) if q < dim else (0., 1.) for q in range(3)], [3] * 6, hydro=dict(hyd, gamma0=g), other=None if sdmN else oth, extra=sdmini and sdmini(n))
    if sdmN:
        xs = sdm_nodes(sdmN)

        def at(n, t):
            x = (np.arange(n)[:, None] + xs[None, :]) / n; C = cons(prim(x, t), 0, g, False)   # [n][N][5]
            t1, t2 = ((d + 1) % 3, (d + 2) % 3) if dim == 3 else ((1 - d), 2); out = []
            for v in range(2 + dim):
                q = 0 if v == 0 else 1 if v == 1 else {d: 2, t1: 3, t2: 4}[v - IU]
                sh = [1] * 6; sh[d] = n; sh[5 - d] = sdmN
                full = [n if q2 == d else (m if q2 < dim else 1) for q2 in range(3)] + ([1] if dim == 2 else [sdmN]) + [sdmN, sdmN]
                out.append(np.broadcast_to(C[:, :, q].reshape(sh), full))
            return sdm_pack(out)
        return Prob("%s:%s:axis%d:%s" % (solver, kind, d, oth), kind, solver, cells, T, lambda n: at(n, 0.), lambda n: at(n, T), (nz, A), ini, tol, order)
    return Prob("%s:%s:axis%d:%s:%s:slope%d" % (solver, kind, d, hyd["riemann"], oth["implementationVersion"], hyd["slope_type"]), kind, solver, cells, T,
                lambda n: lay(cell_average(prim, n, 0., Bn, g, mhd), d, dim, mhd, m), lambda n: lay(cell_average(prim, n, T, Bn, g, mhd), d, dim, mhd, m), (nz, A), ini, tol, order)


# ---- oblique waves ---------------------------------------------------------------------------------
def oblique(solver, k, hyd, oth, g, rng, cells, kind, tol, order, sdmN=None, sdmini=None, f=(1, 1, 1)):
    """waves along the integer vector k in the unit box; f: more cells along some directions"""
    dim = dim_of(solver); mhd = "MHD" in solver; k = np.array(k, float); K = np.linalg.norm(k); nh = k / K
    e1 = np.cross(nh, [0, 0, 1.]) if dim == 2 or abs(nh[2]) < .9 else np.cross(nh, [1., 0, 0]); e1 /= np.linalg.norm(e1); e2 = np.cross(nh, e1)
    rho0, p0 = rng.uniform(.8, 1.3), rng.uniform(.8, 1.3); c0 = np.sqrt(g * p0 / rho0)
    if kind == "density":
        v0 = rng.uniform(.3, .8, 3) * rng.choice([-1, 1], 3); v0[dim:] = 0; w = float(v0 @ k); T = .3 / max(abs(w), .5); A = .2
        def prim(X, t): q = 2 * np.pi * (sum(k[d] * X[d] for d in range(dim)) - w * t); return rho0 * (1 + A * np.sin(q)), p0 + 0 * q, [v0[d] + 0 * q for d in range(3)], [0 * q] * 3
    else:
        B0, b = float(rng.choice([-1, 1]) * rng.uniform(.6, 1)), .2; A = b; ca = B0 / np.sqrt(rho0); w = -ca * K; T = .25 / abs(w)
        def prim(X, t):
            q = 2 * np.pi * (sum(k[d] * X[d] for d in range(dim)) - w * t); B = [B0 * nh[d] + b * (e1[d] * np.sin(q) + e2[d] * np.cos(q)) for d in range(3)]
            return rho0 + 0 * q, p0 + 0 * q, [(B[d] - B0 * nh[d]) / np.sqrt(rho0) for d in range(3)], B

    def avg(n, t, val, face=None):
        """average of val(X) over cells, or over the left faces of one direction"""
        C = [(np.arange(n * f[d])[:, None] + GX[None, :]) / (n * f[d]) for d in range(3)]; out = 0
        import itertools
        for ix in itertools.product(range(len(GX) if True else 0), repeat=dim):
            if face is not None and face < dim and ix[face] != 0: continue
            w_ = 1.; co = []
            for d in range(dim):
                if d == face: co.append(np.arange(n * f[d]) / (n * f[d]))
                else: co.append(C[d][:, ix[d]]); w_ *= GW[ix[d]]
            X = np.meshgrid(*co, indexing="ij"); out = out + w_ * np.asarray(val(X, t))
        return out

    def at(n, t):
        def hyd_(X, t):
            r, p, v, B = prim(X, t); L = [r, p / (g - 1) + .5 * r * sum(q * q for q in v) + .5 * sum(q * q for q in B)] + [r * v[d] for d in range(3 if mhd else dim)]
            return np.stack(L, 0)
        U = avg(n, t, hyd_)
        if mhd: U = np.concatenate([U, np.stack([avg(n, t, lambda X, t, d=d: prim(X, t)[3][d], face=d) for d in range(3)], 0)], 0)
        U = np.moveaxis(U, 0, -1)
        return U if dim == 3 else U[:, :, None, :]
    nz = np.array([rho0, p0 + rho0 * c0 ** 2, rho0 * c0, rho0 * c0, rho0 * c0] + ([c0] * 3 if mhd else []))
    if sdmN:
        ini = lambda n: solver_ini(solver, [n] * dim, [(0., 1.)] * 3, [3] * 6, hydro=dict(hyd, gamma0=g), extra=sdmini(n))

        def at(n, t):
            r, p, v, B = prim(sdm_coords([n] * dim, [(0., 1.)] * 3, dim, sdmN) + [0.] * (3 - dim), t)
            return sdm_pack([r, p / (g - 1) + .5 * r * sum(q * q for q in v)] + [r * v[d] for d in range(dim)])
        return Prob("%s:%s:oblique%s:%s" % (solver, kind, "".join("%d" % q for q in k[:dim]), oth), kind + "-oblique", solver, cells, T, lambda n: at(n, 0.), lambda n: at(n, T), (np.array([rho0, p0 + rho0 * c0 ** 2] + [rho0 * c0] * 3), A), ini, tol, order)
    ini = lambda n: solver_ini(solver, [n * f[d] for d in range(dim)], [(0., 1.)] * 3, [3] * 6, hydro=dict(hyd, gamma0=g), other=oth)
    return Prob("%s:%s:oblique%s:%s:%s:slope%d" % (solver, kind, "".join("%d" % q for q in k[:dim]), hyd["riemann"], oth["implementationVersion"], hyd["slope_type"]), kind + "-oblique", solver, cells, T, lambda n: at(n, 0.), lambda n: at(n, T), (nz, A), ini, tol, order)


# ---- Riemann problems ------------------------------------------------------------------------------
def riemann(solver, d, hyd, oth, g, rng, cells, which, tol, order, m=4, sdmN=None, sdmini=None):
    dim = dim_of(solver); mhd = "MHD" in solver; Bn = 0.; two = dim == 2 and not mhd; vt = rng.uniform(-.5, .5, 4) * (1, 0 if two else 1, 1, 0 if two else 1)
    if which == "mhd":
        for t in range(60):
            W = [rng.uniform(.8, 1.5), rng.uniform(.8, 1.5)] + list(rng.uniform(-.2, .2, 3)) + list(rng.uniform(.3, .8, 2) * rng.choice([-1, 1], 2)); Bn = float(rng.choice([-1, 1]) * rng.uniform(.5, 1))
            q = [float(1 / rng.uniform(1.15, 1.6)), float(rng.uniform(.3, 1) * rng.choice([-1, 1])), float(1 / rng.uniform(1.1, 1.5)), float(rng.uniform(.5, 1.8)), float(1 / rng.uniform(1.1, 1.5)), float(rng.uniform(.3, 1) * rng.choice([-1, 1])), float(1 / rng.uniform(1.15, 1.6))]
            q = [z if j == 3 or rng.random() < .75 else None for j, z in enumerate(q)]
            rp = MhdRP(W, Bn, g, *q)
            if rp.ok: break
        else: return None
        vmax = rp.max; f = rp
    else:
        if which == "sod": L, R = [1., 1., 0.], [.125, .1, 0.]
        elif which == "lax": L, R = [.445, 3.528, .698], [.5, .571, 0.]
        elif which == "strong": L, R = [1., 50., 0.], [1., .1, 0.]
        elif which == "expansion": L, R = [1., 1., -.8], [1., 1., .8]
        elif which == "collision": L, R = [1., 1., 1.2], [.7, .8, -1.]
        else: L, R = [rng.uniform(.2, 2), rng.uniform(.2, 2), rng.uniform(-.5, .5)], [rng.uniform(.2, 2), rng.uniform(.2, 2), rng.uniform(-.5, .5)]
        if rng.random() < .5: L, R = [R[0], R[1], -R[2]], [L[0], L[1], -L[2]]
        L, R = L + list(vt[:2]), R + list(vt[2:]); e = EulerRP(L, R, g); vmax = e.speed()
        if mhd: Bn = float(rng.choice([0, .1, -.2])); L, R = L[:3] + [0., 0.], R[:3] + [0., 0.]; e = EulerRP(L, R, g); f = lambda s: np.concatenate([e(s), np.zeros(s.shape + (2,))], -1)
        else: f = e
    T = .38 / vmax; prim = lambda x, t: f((x - .5) / max(t, 1e-12))
    bc = [3] * 6; bc[2 * d] = bc[2 * d + 1] = 2
    ini = lambda n: solver_ini(solver, [n if q == d else (m if q < dim else 1) for q in range(3)], [(0., 1. if q == d else float(m) / n) if q < dim else (0., 1.) for q in range(3)], bc, hydro=dict(hyd, gamma0=g), other=None if sdmN else oth, extra=sdmini and sdmini(n))
    C = cell_average(prim, 400, T, Bn, g, mhd, 8); rngs = np.maximum(np.ptp(C, axis=0), 0); nz = np.where(rngs > 1e-9, rngs, np.inf)
    if mhd: nz[5] = np.inf; cc = np.sqrt(g * np.max(C[:, 1]) / 2); nz[[3, 4]] = np.maximum(nz[[3, 4]], .1); nz[[6, 7]] = np.where(nz[[6, 7]] < np.inf, np.maximum(nz[[6, 7]], .1), np.inf)
    if sdmN:
        xs = sdm_nodes(sdmN)

        def at(n, t):
            x = (np.arange(n)[:, None] + xs[None, :]) / n; Cn = cons(prim(x, t), 0, g, False)
            t1, t2 = ((d + 1) % 3, (d + 2) % 3) if dim == 3 else ((1 - d), 2); out = []
            for v in range(2 + dim):
                q = 0 if v == 0 else 1 if v == 1 else {d: 2, t1: 3, t2: 4}[v - IU]
                sh = [1] * 6; sh[d] = n; sh[5 - d] = sdmN
                full = [n if q2 == d else (m if q2 < dim else 1) for q2 in range(3)] + ([1] if dim == 2 else [sdmN]) + [sdmN, sdmN]
                out.append(np.broadcast_to(Cn[:, :, q].reshape(sh), full))
            return sdm_pack(out)
        p = Prob("%s:riemann-%s:axis%d:%s" % (solver, which, d, oth), "riemann-" + which, solver, cells, T, lambda n: at(n, 0.), lambda n: at(n, T), (nz, 1.), ini, tol, order)
    else:
        p = Prob("%s:riemann-%s:axis%d:%s:%s:slope%d" % (solver, which, d, hyd["riemann"], oth["implementationVersion"], hyd["slope_type"]), "riemann-" + which, solver, cells, T,
                 lambda n: lay(cell_average(prim, n, 0., Bn, g, mhd, 8), d, dim, mhd, m), lambda n: lay(cell_average(prim, n, T, Bn, g, mhd, 32), d, dim, mhd, m), (nz, 1.), ini, tol, order)
    p.axis = d
    return p


def error(p, U, n):
    X = p.exact(n); nz, A = p.scale; dim = dim_of(p.solver); nv = 8 if "MHD" in p.solver else 2 + dim
    a = U.reshape(U.shape[:3] + (nv, -1)); b = X.reshape(X.shape[:3] + (nv, -1)); E = np.abs(a - b).mean(axis=(0, 1, 2, 4)) / A
    # components in the order of the code
    d = getattr(p, "axis", None); w = np.empty(nv)
    if d is None: w[:] = nz[:1].tolist() + nz[1:2].tolist() + [nz[2]] * (3 if nv == 8 else dim) + ([nz[5]] * 3 if nv == 8 else [])
    else:
        t1, t2 = ((d + 1) % 3, (d + 2) % 3) if dim == 3 else ((1 - d), 2); w[:2] = nz[:2]
        for ax, q in ((d, 2), (t1, 3), (t2, 4)):
            if nv == 8 or ax < dim: w[IU + ax] = nz[q]
        if nv == 8:
            for ax, q in ((d, 5), (t1, 6), (t2, 7)): w[IA + ax] = nz[q]
    bad = np.where(np.isinf(w), E, 0).max()   # components that stay constant
    return float((E / w).max()), float(bad)


def execute(ctx, build, probs):
    cases = []
    for p in probs:
        for n in p.cells:
            ini = p.ini(n)
            c = Case("%s@%d" % (p.name, n), ini, ["inject U", "tend %.17g" % p.T, "stepq 200000"], {"U": p.start(n)}, info=dict(cls="%s:%s" % (p.solver, p.kind), p=p, n=n), timeout=400); cases.append(c)

    def after(c):
        if c.rc == 0 and c.rec is not None and c.rec.states:
            p, n = c.info["p"], c.info["n"]; S = c.rec.states[-1]; p.err[n] = error(p, S["U"], n) if np.isfinite(S["U"]).all() else (np.inf, 0.); c.rec.states = c.rec.states[-1:]; c.arrays = {}
    # the largest first
    cases.sort(key=lambda c: -c.info["n"]); ctx.run(cases, build, after=after)
    for p in probs:
        if len(p.err) < len(p.cells): continue
        e = [p.err[n][0] for n in p.cells]; bad = []; o = [np.log(a / b) / np.log(m / n) for a, b, n, m in zip(e, e[1:], p.cells, p.cells[1:])]
        ctx.observe(p.name, len(e))
        kl = "%s %s" % (p.solver.split("_deg")[0], p.kind)
        ctx.stats.setdefault("min order " + kl, 9.); ctx.stats["min order " + kl] = round(min(ctx.stats["min order " + kl], o[-1]), 3); ctx.stat_max("max error " + kl, e[-1])
        if os.environ.get("P19_VERBOSE"): print("ERR", p.name, "%.0fs" % sum(c.wall for c in cases if c.info["p"] is p), ["%.3g" % x for x in e], ["%.2f" % x for x in o])
        if not o[-1] > p.order: bad.append("the errors %s on %s cells shrink with order %.2f only (expected above %.2f)" % (["%.3g" % x for x in e], p.cells, o[-1], p.order))
        if not e[-1] < p.tol: bad.append("the error on %d cells is %.3g, expected below %.3g" % (p.cells[-1], e[-1], p.tol))
        if bad: ctx.violation("%s:%s" % (p.solver, p.kind), "%s: %s" % (p.name, "; ".join(bad)), next(c for c in cases if c.info["p"] is p))
        elif len(ctx.samples) < 10: ctx.sample("%s: errors %s on %s cells" % (p.name, ["%.3g" % x for x in e], p.cells))


def muscl(ctx, build):
    rng = ctx.rng; P = []
    for solver in MUSCL:
        dim = dim_of(solver); mhd = "MHD" in solver
        kinds = ["density", "simple"] + (["linear%d" % f for f in range(7)] + ["alfven"] if mhd else [])
        combos = [(d, r, v) for d in range(dim) for r in riemanns(solver) for v in impls(solver)]; rng.shuffle(combos); i = 0
        for rep in range(ctx.pick(max(len(combos), 24), 6 * len(combos))):
            d, r, v = combos[rep % len(combos)]; d, v = int(d), int(v)
            g = float(np.float32(rng.choice([1.4, 1.6666667, 1.3])))
            hyd = dict(cfl=float(rng.choice([.3, .45])), riemann=str(r), slope_type=int(rng.integers(1, 3))); oth = dict(implementationVersion=v)
            P.append(prob_axis(ctx, solver, d, kinds[rep % len(kinds)], [32, 96], hyd, oth, g, rng, tol=TOLS["smooth", hyd["slope_type"]], order=ORDER["smooth", hyd["slope_type"]]))
        ks = [(1, 1, 0), (2, 1, 0), (1, -1, 0), (1, 2, 0)] if dim == 2 else [(1, 1, 1), (1, -1, 1), (1, 1, 0), (0, 1, 1), (1, 0, 1), (-1, 1, 1)]
        for rep in range(ctx.pick(len(combos) // dim, 3 * len(combos))):
            d, r, v = combos[(rep * 5 + 1) % len(combos)]; v = int(v); g = float(np.float32(rng.choice([1.4, 1.6666667])))
            hyd = dict(cfl=.4, riemann=str(r), slope_type=2); oth = dict(implementationVersion=v)
            P.append(oblique(solver, ks[int(rng.integers(len(ks)))], hyd, oth, g, rng, [20, 40] if dim == 2 else [12, 24] if ctx.quick else [16, 32], "alfven" if mhd and rep % 4 else "density", TOLS["oblique", dim], ORDER["oblique", dim],
                             f=[(1, 1, 1), (2, 1, 1), (1, 2, 1), (1, 1, 2) if dim == 3 else (1, 3, 1)][rep // 2 % 4]))
        rps = (["mhd", "mhd", "mhd", "sod", "random"] if mhd else ["sod", "lax", "strong", "expansion", "collision", "random"])
        rng.shuffle(combos)
        for rep in range(ctx.pick(max(len(combos), 24), 5 * len(combos))):
            d, r, v = combos[rep % len(combos)]; d, v = int(d), int(v); g = float(np.float32(rng.choice([1.4, 1.6666667])))
            hyd = dict(cfl=.4, riemann=str(r), slope_type=int(rng.integers(0, 3))); oth = dict(implementationVersion=v); w = rps[rep % len(rps)]
            q = riemann(solver, d, hyd, oth, g, rng, [64, 192], w, *RP(w, hyd["slope_type"]))
            if q: P.append(q)
    execute(ctx, build, P)


ORDERS = dict(forward_euler=1, ssprk2=2, ssprk3=3, ssprk54=4)


def sdm(ctx, build):
    rng = ctx.rng; P = []
    for dim, N in SDM_KINDS:
        solver = sdm_name(dim, N); combos = [(d, I) for d in range(dim) for I in INTEG]; rng.shuffle(combos)
        for rep in range(ctx.pick(8 if dim == 2 else 6, 24)):
            d, I = combos[rep % len(combos)]; d = int(d); q = ORDERS[I]; g = float(np.float32(rng.choice([1.4, 1.6666667]))); n0 = {1: 16, 2: 12, 3: 8, 4: 6, 5: 4, 6: 4}[N]
            hyd = lambda n: 0
            c0 = .1 if q > 1 else .04
            if q == 1 and (N > 4 or dim == 3 and N > 2): I, q, c0 = "ssprk54", 4, .1   # its step would have to shrink with the N-th power of the cell
            si = lambda n, I=I, q=q, N=N, n0=n0, c0=c0: dict(sdm={I: True}, hydro=dict(cfl=c0 * (float(n0) / n) ** max(0., float(N) / q - 1)))
            kind = ["density", "simple", "oblique"][rep % 3]
            if kind == "oblique":
                ks = [(1, 1, 0), (1, -1, 0), (2, 1, 0)] if dim == 2 else [(1, 1, 1), (1, -1, 1), (0, 1, 1)]; n0 = max(4, n0 // 2) if dim == 3 else n0
                P.append(oblique(solver, ks[int(rng.integers(3))], {}, I, g, rng, [n0, n0 * 3 // 2 if dim == 3 else 2 * n0], "density", SDM_OBL[N], N - .6 if N < 5 else N - 1.0, sdmN=N, sdmini=si))
            else: P.append(prob_axis(ctx, solver, d, kind, [n0, 2 * n0], {}, I, g, rng, m=1, sdmN=N, sdmini=si, tol=SDM_TOL[N], order=N - (.4 if N < 5 and kind == "density" else .8 if N < 5 else 1.9 if kind == "simple" else .8)))
        for rep in range(ctx.pick(4, 16)):
            if N == 1: continue
            d, I = combos[rep % len(combos)]; d = int(d); g = float(np.float32(rng.choice([1.4, 1.6666667]))); w = ["sod", "random", "lax", "random"][rep % 4]
            si = lambda n, I=I: dict(sdm={I: True, "limiter_enabled": True, "positivity_enabled": True}, hydro=dict(cfl=.1 if I == "forward_euler" else .2))
            P.append(riemann(solver, d, {}, I, g, rng, [24, 72] if N < 3 + (dim == 2) else [16, 48] if N < 4 or dim == 2 else [10, 30], w, .04, ORDER["sdm-riemann"], m=1, sdmN=N, sdmini=si))
    execute(ctx, build, P)


# bounds: about twice the largest error, and the order less a margin for the limiter and the coarse grids, seen with many seeds
TOLS = {("smooth", 1): .03, ("smooth", 2): .003, ("oblique", 2): .06, ("oblique", 3): .1}
ORDER = {("smooth", 1): 1.2, ("smooth", 2): 1.6, ("oblique", 2): 1.3, ("oblique", 3): 1.15, "sdm-riemann": .15}
SDM_TOL = {1: .4, 2: .015, 3: .0015, 4: 4e-4, 5: 2e-4, 6: 7e-5}
SDM_OBL = {1: .4, 2: .1, 3: .03, 4: 2e-3, 5: 6e-4, 6: 5e-5}


def RP(w, slope): return ({0: .12, 1: .06, 2: .045}[slope], .08) if w == "mhd" else ({0: .09, 1: .04, 2: .03}[slope], .15)


def run(ctx):
    ctx.rule = "one evaluation = one recorded run compared with the exact solution; distinct = (solver, problem, axis or wave vector, Riemann solver, variant, limiter)"
    ctx.assumptions = ["orders are measured in the mean absolute error between the two finest grids"]
    if not os.environ.get("P19_SDM"): muscl(ctx, Build(ctx, mains=("hx", "main")))
    sdm(ctx, Build(ctx, mains=("hx", "main"), sdm=True))
    ctx.min_evals = 500


if __name__ == "__main__": main("P19", run)
