"""P27 named schemes: one recorded step against the update assembled from the documented reconstruction and the recorded fluxes of the named Riemann solver."""
import sys, os, tempfile, subprocess, concurrent.futures as cf
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from workloads import *

GAMMA = [1.4, 1.25, 1.6666]
DEFAULTS = dict(riemann="approx", slope_type=1.0, gamma0=1.4, niter_riemann=10, smallr=1e-10, smallc=1e-10)


class Fluxes:
    """the recorder of Riemann-solver entry points, called by enumerator; one process per (gamma, iterations)"""

    def __init__(self, ctx, exe): self.ctx, self.exe, self.jobs = ctx, exe, {}

    def add(self, gamma, niter, kind, rs, arr):
        q = self.jobs.setdefault((gamma, niter), []); q.append((kind, rs, np.ascontiguousarray(arr, dtype=np.float64))); return (gamma, niter), len(q) - 1

    def run(self):
        self.dir = {}
        def one(k):
            d = self.dir[k] = tempfile.mkdtemp(prefix="fl_", dir=self.ctx.tmp)
            write_ini(os.path.join(d, "case.ini"), solver_ini("Hydro_Muscl_2D", [8, 8], hydro=dict(gamma0=k[0], niter_riemann=k[1])))
            with open(os.path.join(d, "jobs.txt"), "w") as f:
                for i, (kind, rs, a) in enumerate(self.jobs[k]): a.tofile(os.path.join(d, "i%d" % i)); f.write("%s %s i%d o%d 0\n" % (kind, rs, i, i))
            r = subprocess.run([self.exe, "case.ini", "jobs.txt"], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600, env=dict(os.environ, OMP_NUM_THREADS="1"))
            if r.returncode != 0: raise CheckError("Riemann recorder: " + r.stdout.decode(errors="replace")[-400:])
        with cf.ThreadPoolExecutor(NCPU) as ex: list(ex.map(one, list(self.jobs)))

    def get(self, h):
        k, i = h; a = self.jobs[k][i][2]; return np.fromfile(os.path.join(self.dir[k], "o%d" % i)).reshape(len(a), -1)


# ---------------- MUSCL -------------------------------------------------------------------------
def pad(U, dim, bc, w, mhd=False):
    for d in range(dim):
        P = [(0, 0)] * 4; P[d] = (w, w); t = bc[2 * d]
        if t == 3: U = np.pad(U, P, mode="wrap")
        elif t == 2: U = np.pad(U, P, mode="edge")
        else:
            U = np.pad(U, P, mode="symmetric"); s = [slice(None)] * 4; s[3] = IU + d
            for g in (slice(0, w), slice(-w, None)):
                s[d] = g; U[tuple(s)] *= -1
                if mhd: U[tuple(s[:3] + [IA + d])] *= -1
    return U


def prim(U, gamma, mhd, b=None, nd=3):
    Q = U.copy(); m = IA if mhd else U.shape[3]
    for k in range(IU, m): Q[..., k] /= Q[..., ID]
    Q[..., IP] = (gamma - 1) * (U[..., IP] - .5 * Q[..., ID] * (Q[..., IU:m] ** 2).sum(-1) - (.5 * (U[..., IA:] ** 2).sum(-1) if mhd else 0))
    return Q


def limited(Q, d, theta):
    l, r = theta * (Q - np.roll(Q, 1, d)), theta * (np.roll(Q, -1, d) - Q); c = .5 * (np.roll(Q, -1, d) - np.roll(Q, 1, d))
    return np.where(l * r <= 0, 0, np.sign(c) * np.minimum(np.minimum(np.abs(l), np.abs(r)), np.abs(c)))


def interfaces(U, dt, dx, i, G=None):
    """left and right states at all interfaces, per direction, in the frame of the interface"""
    dim, mhd, g, w = i["dim"], i["mhd"], i["gamma"], 3
    Q = prim(pad(U, dim, i["bc"], w), g, mhd); D = [.5 * limited(Q, d, i["slope"]) for d in range(dim)]; S = np.zeros_like(Q)
    for d in range(dim):
        k = dt / dx[d]; v, h = Q[..., IU + d], D[d]
        for q in (ID, IU, IV) + ((IW,) if Q.shape[3] > IW else ()): S[..., q] -= v * h[..., q] * k
        S[..., ID] -= Q[..., ID] * h[..., IU + d] * k
        S[..., IU + d] -= h[..., IP] / Q[..., ID] * k
        S[..., IP] -= (v * h[..., IP] + g * Q[..., IP] * h[..., IU + d]) * k
    if G is not None:      # half a step of free fall (the array has two ghost layers; a third is never reached)
        S[..., IU:IU + dim] += .5 * dt * np.pad(G, [(1, 1)] * dim + [(0, 0)] * (4 - dim), mode="edge")
    out = []
    for d in range(dim):
        s = [slice(w, -w) if e < dim else slice(None) for e in range(3)]; a, b = list(s), list(s); a[d], b[d] = slice(w - 1, -w), slice(w, -w + 1)
        L, R = (Q + S + D[d])[tuple(a)], (Q + S - D[d])[tuple(b)]
        out.append((turn(L, d, mhd), turn(R, d, mhd)))
    return out


def turn(A, d, mhd):
    if d == 0: return A
    A = A.copy()
    for f in ((IU,) + ((IA,) if mhd else ())): A[..., [f, f + d]] = A[..., [f + d, f]]
    return A


def muscl_cases(ctx):
    rng = ctx.rng; out = []
    for solver in MUSCL:
        dim, mhd = dim_of(solver), "MHD" in solver
        for impl in impls(solver):
            for rs in riemanns(solver):
                for rep in range(ctx.pick(45, 300)):
                    n = shape(rng, dim, 4, 14 if dim == 2 else 8, 300); L = extents(rng, dim); gamma = float(np.float32(rng.choice(GAMMA))); niter = int(rng.choice([1, 2, 10, 10, 25]))
                    hy = "Hydro_Muscl_%dD" % dim; kind = str(rng.choice(["smooth", "blocks", "random", "mixed"])); ext = rng.random() < .25
                    U = state(rng, hy, n, L, kind, gamma=gamma, drho=1.5 if ext else .4, dp=1.5 if ext else .4, mach=2. if ext else .6); f = -1
                    bc = [3] * 6
                    if mhd and rep // 3 % 3 == 0: U = state(rng, solver, n, L, kind, gamma=gamma, drho=1.5 if ext else .4, dp=1.5 if ext else .4, mach=2. if ext else .6, bamp=float(10 ** rng.uniform(-1.5, .1)), bmean=None if rep % 2 else rng.uniform(-.7, .7, 3))
                    if mhd and rep // 3 % 3:
                        V = np.zeros(U.shape[:3] + (8,)); V[..., :2 + dim] = U
                        if rep % 2:      # field along the only axis on which the flow depends, and no other velocity
                            f = int(rng.integers(dim)); s = [slice(0, 1)] * 3; s[f] = slice(None); V = np.broadcast_to(V[tuple(s)], V.shape).copy()
                            for e in range(dim):
                                if e != f: V[..., IP] -= .5 * V[..., IU + e] ** 2 / V[..., ID]; V[..., IU + e] = 0
                            b = float(rng.uniform(-2, 2)); V[..., IA + f] = b; V[..., IP] += .5 * b * b
                        elif dim == 2:
                            wz = rng.uniform(-1, 1, U.shape[:3]); V[..., IP] += .5 * V[..., ID] * wz ** 2; V[..., IW] = V[..., ID] * wz
                        U = V
                    elif rng.random() < .5:
                        for d in range(dim):
                            if rng.random() < .5: bc[2 * d] = bc[2 * d + 1] = int(rng.integers(1, 3))
                    hyd = dict(riemann=rs, slope_type=int(rep % 3), gamma0=gamma, niter_riemann=niter, cfl=.3); o = dict(hyd)
                    ini = solver_ini(solver, n, L, bc, hydro=hyd, other=dict(implementationVersion=impl))
                    if impl == 0 and rng.random() < .3: del ini["OTHER"]["implementationVersion"]
                    if rs == "approx" and rng.random() < .3: o["riemann"] = rng.choice(["exact", "HLLC", "hllcc", ""]); ini["hydro"]["riemann"] = str(o["riemann"])   # unknown names: the default
                    for k in DEFAULTS:
                        if rng.random() < .15 and not (k == "riemann" and rs != "approx") and not k.startswith("small"):
                            if k == "gamma0": continue
                            del ini["hydro"][k]; o[k] = DEFAULTS[k]
                    arr = {"U": U}; grav = not mhd and rng.random() < .35
                    if grav: ini["gravity"] = dict(static=True); arr["G"] = (rng.uniform(-1, 1, dim) + .5 * rng.uniform(-1, 1, tuple([q + 4 for q in n] + [1] * (3 - dim)) + (dim,))) * 10 ** rng.uniform(-1, 1)
                    out.append(Case("%s-i%d-%s-%d" % (solver, impl, rs, rep), ini, ["inject U"] + ["gravity G"] * grav + ["dump s", "step 1"], arr,
                                    info=dict(cls="%s:i%d:%s%s" % (solver, impl, rs, ":gravity" if grav else ""), rs=rs, slope=o["slope_type"], niter=o["niter_riemann"], gamma=gamma, dim=dim, mhd=mhd, n=n, L=L, bc=bc, kind=kind, bdir=f)))
    return out


def mhd_parts(U, dt, dx, i):
    """constrained transport (U with four ghost layers): states at the interfaces and at the cell edges, from the cell values, the face field and its limited slopes"""
    dim, g, th = i["dim"], i["gamma"], i["slope"]; up = lambda X, d: np.roll(X, -1, d); dn = lambda X, d: np.roll(X, 1, d)
    F = [U[..., IA + d] for d in range(3)]; C = U.copy()
    for d in range(dim): C[..., IA + d] = .5 * (F[d] + up(F[d], d))
    Q = prim(C, g, True); D = [.5 * limited(Q, d, th) for d in range(dim)]; S = np.zeros_like(Q); r = Q[..., ID]
    for d in range(dim):
        h = D[d]; h[..., IA + d] = .5 * (up(F[d], d) - F[d]); k = dt / dx[d]; v = Q[..., IU + d]
        for q in (ID, IU, IV, IW): S[..., q] -= v * h[..., q] * k
        S[..., ID] -= r * h[..., IU + d] * k
        S[..., IU + d] -= h[..., IP] / r * k
        S[..., IP] -= (v * h[..., IP] + g * Q[..., IP] * h[..., IU + d]) * k
        for m in range(3):
            if m == d: continue
            S[..., IU + d] -= Q[..., IA + m] * h[..., IA + m] / r * k
            S[..., IU + m] += Q[..., IA + d] * h[..., IA + m] / r * k
            S[..., IA + m] += (Q[..., IU + m] * h[..., IA + d] + Q[..., IA + d] * h[..., IU + m] - v * h[..., IA + m] - Q[..., IA + m] * h[..., IU + d]) * k
    N = Q + S; edges = [2] if dim == 2 else [0, 1, 2]; E = {}
    for e in edges:
        a, b = (e + 1) % 3, (e + 2) % 3; m = lambda X: .25 * (X + dn(X, a) + dn(X, b) + dn(dn(X, a), b))
        E[e] = m(Q[..., IU + a]) * .5 * (F[b] + dn(F[b], a)) - m(Q[..., IU + b]) * .5 * (F[a] + dn(F[a], b))
    P = [F[a] + .5 * curl(E, a, dt, dx, dim) if a < dim else None for a in range(3)]; I = []; J = {}
    for d in range(dim):
        L, R = dn(N + D[d], d), N - D[d]; L[..., IA + d] = P[d]; R[..., IA + d] = P[d]; I.append((turn(L, d, True), turn(R, d, True)))
    for e in edges:
        a, b = (e + 1) % 3, (e + 2) % 3; sa, sb = .5 * limited(F[a], b, th), .5 * limited(F[b], a, th); J[e] = []
        for x, y in ((1, 1), (-1, 1), (1, -1), (-1, -1)):      # RT LT RB LB
            X = N + x * D[a] + y * D[b]; A, B = P[a] + y * sa, P[b] + x * sb
            X[..., IA + a] = up(A, a) if x > 0 else A; X[..., IA + b] = up(B, b) if y > 0 else B
            if x > 0: X = dn(X, a)
            if y > 0: X = dn(X, b)
            J[e].append(X)
    return I, J


def curl(E, a, dt, dx, dim):
    b, c = (a + 1) % 3, (a + 2) % 3; up = lambda X, d: np.roll(X, -1, d); r = 0.
    if c in E and b < dim: r = r + (up(E[c], b) - E[c]) * dt / dx[b]
    if b in E and c < dim: r = r - (up(E[b], c) - E[b]) * dt / dx[c]
    return r


def mhd_jobs(ctx, F, c):
    i = c.info; s = c.rec.states; dt = s[1]["dt"]; dim = i["dim"]; dx = [(i["L"][d][1] - i["L"][d][0]) / i["n"][d] for d in range(dim)]
    w = 4; U = pad(s[0]["U"], dim, i["bc"], w, True); I, J = mhd_parts(U, dt, dx, i); inner = tuple(slice(w, -w) if d < dim else slice(None) for d in range(3)); near = tuple(slice(w, 1 - w) if d < dim else slice(None) for d in range(3))
    if min(min(x[near + (v,)].min() for x in list(sum(I, ())) + sum(J.values(), [])) for v in (ID, IP)) <= 1e-6: ctx.stats["reconstruction at a cut-off (not judged)"] = ctx.stats.get("reconstruction at a cut-off (not judged)", 0) + 1; return None
    hs = [F.add(i["gamma"], i["niter"], "mhd", i["rs"], np.stack([l.reshape(-1, 8), r.reshape(-1, 8)], 1)) for l, r in I]
    he = {e: F.add(i["gamma"], i["niter"], "emf" + "xyz"[e], i["rs"], np.stack([x.reshape(-1, 8) for x in J[e]], 1)) for e in J}
    def verdict():
        V = U.copy(); keep = [U[..., IA + d] for d in range(dim)]
        for d, h in enumerate(hs): f = turn(F.get(h).reshape(U.shape), d, True); V = V + dt / dx[d] * (f - np.roll(f, -1, d))
        E = {e: F.get(he[e])[:, 0].reshape(U.shape[:3]) for e in he}
        for a in range(dim): V[..., IA + a] = keep[a] + curl(E, a, dt, dx, dim)
        report(ctx, c, V[inner], s[1]["U"], 8)
    return verdict


def muscl_jobs(ctx, F, c):
    if c.info["mhd"]: return mhd_jobs(ctx, F, c)
    i = c.info; s = c.rec.states; U, dt = s[0]["U"], s[1]["dt"]; dim = i["dim"]; dx = [(i["L"][d][1] - i["L"][d][0]) / i["n"][d] for d in range(dim)]
    G = c.arrays.get("G"); I = interfaces(U, dt, dx, i, G); m = min(min(x[..., v].min() for x in p) for p in I for v in (ID, IP))
    if m <= 1e-6: ctx.stats["reconstruction at a cut-off (not judged)"] = ctx.stats.get("reconstruction at a cut-off (not judged)", 0) + 1; return None
    kind = "mhd" if i["mhd"] else "hydro%d" % dim; hs = []
    for l, r in I:
        nv = l.shape[3]; hs.append((F.add(i["gamma"], i["niter"], kind, i["rs"], np.stack([l.reshape(-1, nv), r.reshape(-1, nv)], 1)), l.shape))
    def verdict():
        V = U.copy()
        for d, (h, sh) in enumerate(hs):
            f = turn(F.get(h).reshape(sh), d, i["mhd"]); a, b = [slice(None)] * 3, [slice(None)] * 3; a[d], b[d] = slice(0, -1), slice(1, None)
            V = V + dt / dx[d] * (f[tuple(a)] - f[tuple(b)])
        if G is not None:
            g0 = G[tuple(slice(2, -2) if d < dim else slice(None) for d in range(3))]; M = V[..., IU:].copy()
            V[..., IU:] += .5 * dt * g0 * (U[..., ID] + V[..., ID])[..., None]; V[..., IP] += .5 * ((V[..., IU:] ** 2).sum(-1) - (M ** 2).sum(-1)) / V[..., ID]
        report(ctx, c, V, s[1]["U"], 8 if i["mhd"] else 2 + dim)
    return verdict


def report(ctx, c, V, W, nv):
    if not np.isfinite(W).all() and not np.isfinite(V).all(): return
    e, w = state_diff(V, W, nv); ctx.observe((c.name,)); ctx.stat_max("max_difference_" + ("sdm" if "N" in c.info else "muscl"), e)
    if not e < 1e-9: ctx.violation(c.info["cls"], "one step differs from the scheme the parameter file names in variable %d by %.3e of its scale; %s" % (w, e, c.info), c)


# ---------------- spectral difference ------------------------------------------------------------
def sdm_cases(ctx):
    rng = ctx.rng; out = []
    for dim, N in SDM_KINDS:
        for rs in RIEMANN_H:
            for rep in range(ctx.pick(25, 120)):
                n = shape(rng, dim, 2, 7 if dim == 2 else 4, 40); L = extents(rng, dim); gamma = float(np.float32(rng.choice(GAMMA))); niter = int(rng.choice([1, 2, 10]))
                U = sdm_state(rng, n, L, dim, N, str(rng.choice(["smooth", "noise", "step"])), gamma=gamma, mach=float(rng.choice([.3, 1.5])), amp=.2)
                ini = solver_ini(sdm_name(dim, N), n, L, [3] * 6, hydro=dict(riemann=rs, gamma0=gamma, niter_riemann=niter, cfl=.1), extra=dict(sdm=dict(forward_euler=True)))
                out.append(Case("sdm%d%d-%s-%d" % (dim, N, rs, rep), ini, ["inject U", "dump s", "step 1"], {"U": U},
                                info=dict(cls="SDM_%dD_N%d:%s" % (dim, N, rs), rs=rs, niter=niter, gamma=gamma, dim=dim, N=N, n=n, L=L)))
    return out


def lagrange(x, y):
    return np.array([[np.prod([(b - x[k]) / (x[j] - x[k]) for k in range(len(x)) if k != j]) for j in range(len(x))] for b in y])


def derivative(x, y):
    """derivative at y of the interpolant through x"""
    V = np.vander(x, increasing=True); D = np.array([[k * b ** (k - 1) if k else 0. for k in range(len(x))] for b in y]); return D @ np.linalg.inv(V)


def phys(Q, g):
    F = np.zeros_like(Q); r, p, u = Q[..., ID], Q[..., IP], Q[..., IU]; F[..., ID] = r * u
    F[..., IP] = u * (g / (g - 1) * p + .5 * r * (Q[..., IU:] ** 2).sum(-1))
    for k in range(IU, Q.shape[-1]): F[..., k] = r * u * Q[..., k]
    F[..., IU] += p; return F


def sdm_jobs(ctx, F, c):
    i = c.info; s = c.rec.states; dim, N, g = i["dim"], i["N"], i["gamma"]; dt = s[1]["dt"]; U = sdm_view(s[0]["U"], dim, N)
    xs = sdm_nodes(N); xf = np.concatenate([[0.], .5 * (1 + np.sort(np.polynomial.legendre.leggauss(N - 1)[0])) if N > 1 else [], [1.]]); A, D = lagrange(xs, xf), derivative(xf, xs); work = []
    for d in range(dim):
        W = np.moveaxis(np.moveaxis(U, 6 - d, -1), 3, -1)        # [x][y][z][t][t'][node][var]
        Q = np.einsum("fs,xyzabsv->xyzabfv", A, W); Q = turn(Q, d, False); Q = Q.copy()
        for k in range(IU, Q.shape[-1]): Q[..., k] /= Q[..., ID]
        Q[..., IP] = (g - 1) * (Q[..., IP] - .5 * Q[..., ID] * (Q[..., IU:] ** 2).sum(-1))
        if min(Q[..., ID].min(), Q[..., IP].min()) < 1e-5: ctx.stats["inadmissible flux points (not judged)"] = ctx.stats.get("inadmissible flux points (not judged)", 0) + 1; return None
        L, R = np.roll(Q[..., -1, :], 1, d), Q[..., 0, :]; nv = Q.shape[-1]
        work.append((Q, F.add(g, i["niter"], "hydro%d" % dim, i["rs"], np.stack([L.reshape(-1, nv), R.reshape(-1, nv)], 1)), L.shape))
    def verdict():
        V = U.copy()
        for d, (Q, h, sh) in enumerate(work):
            fl = phys(Q, g); r = F.get(h).reshape(sh); fl[..., 0, :] = r; fl[..., -1, :] = np.roll(r, -1, d); fl = turn(fl, d, False)
            dx = (i["L"][d][1] - i["L"][d][0]) / i["n"][d]
            V = V - dt / dx * np.moveaxis(np.moveaxis(np.einsum("sf,xyzabfv->xyzabsv", D, fl), -1, 3), -1, 6 - d)
        report(ctx, c, V.reshape(s[0]["U"].shape), s[1]["U"], 2 + dim)
    return verdict


# ---------------- the two central solvers by their definition ----------------------------------------
def central(ctx, F):
    rng = ctx.rng; out = []
    for g in GAMMA:
        g = float(np.float32(g))
        for kind, nv in (("hydro2", 4), ("hydro3", 5), ("mhd", 8)):
            for rs in ("llf", "hll"):
                n = ctx.pick(400, 10000); q = np.zeros((n, 2, nv)); q[..., ID] = 10 ** rng.uniform(-1, 1, (n, 2)); q[..., IP] = 10 ** rng.uniform(-1, 1, (n, 2))
                m = min(nv, IA); q[..., IU:m] = rng.uniform(-2, 2, (n, 2, m - IU))
                if nv == 8: q[..., IA:] = rng.uniform(-2, 2, (n, 2, 3)); q[:, 1, IA] = q[:, 0, IA]
                out.append((kind, rs, g, q, F.add(g, 10, kind, rs, q)))
    def verdict():
        for kind, rs, g, q, h in out:
            f = F.get(h); nv = q.shape[2]; mhd = nv == 8; B2 = (q[..., IA:] ** 2).sum(-1) if mhd else 0 * q[..., 0]; m = min(nv, IA); r, p, u = q[..., ID], q[..., IP], q[..., IU]
            E = p / (g - 1) + .5 * r * (q[..., IU:m] ** 2).sum(-1) + .5 * B2; C = q.copy(); C[..., IU:m] *= r[..., None]; C[..., IP] = E; Ph = np.zeros_like(q)
            for v in range(nv): Ph[..., v] = C[..., v] * u
            Ph[..., IP] += (p + .5 * B2) * u; Ph[..., IU] += p + .5 * B2
            if mhd:
                b = q[..., IA]; Ph[..., IP] -= b * sum(q[..., IU + k] * q[..., IA + k] for k in range(3))
                for k in range(3): Ph[..., IU + k] -= b * q[..., IA + k]; Ph[..., IA + k] -= b * q[..., IU + k]
            c2 = g * p / r; bt = B2 / r; s = .5 * (c2 + bt); c = np.sqrt(s + np.sqrt(np.maximum(s * s - c2 * (q[..., IA] ** 2 / r if mhd else 0), 0)))
            J = C[:, 1] - C[:, 0]; A = Ph[:, 1] - Ph[:, 0]; M = .5 * (Ph[:, 0] + Ph[:, 1]); bad = []; ctx.observe((kind, rs, g), n=len(q))
            lo, hi = (np.abs(u) + c).max(1), np.abs(u).max(1) + c.max(1); use = np.ones(len(q), bool); keep = [v for v in range(nv) if not (mhd and v == IA)]
            for k in range(len(q)):
                sc = np.abs(Ph[k]).max() + np.abs(C[k]).max()
                if rs == "llf":
                    lam = -2 * np.dot(f[k, keep] - M[k, keep], J[k, keep]) / np.dot(J[k, keep], J[k, keep]); e = np.abs(f[k] - (M[k] - .5 * lam * J[k]))[keep].max() / sc
                    ok = lo[k] * (1 - 1e-7) <= lam <= hi[k] * (1 + 1e-7)
                else:
                    # F = (SR FL - SL FR + SL SR (UR-UL)) / (SR - SL) with the bounding speeds
                    SL0, SL1 = min((u[k] - c[k]).min(), 0), min(u[k].min() - c[k].max(), 0); SR0, SR1 = max((u[k] + c[k]).max(), 0), max(u[k].max() + c[k].max(), 0)
                    G = np.stack([A[k, keep], J[k, keep]], 1); (al, be), *_ = np.linalg.lstsq(G, f[k, keep] - Ph[k, 0, keep], rcond=None)   # F = FL + al (FR-FL) + be (UR-UL)
                    e = np.abs(G @ [al, be] - (f[k, keep] - Ph[k, 0, keep])).max() / sc; lam = (al, be)
                    # al = -SL/(SR-SL), be = SL SR/(SR-SL): recover the speeds where both differ from zero
                    if SL1 < -1e-3 and SR1 > 1e-3 and SL0 < -1e-3 and SR0 > 1e-3 and np.linalg.cond(G) < 1e4:
                        SR, SL = -be / al, be / (1 - al); ok = SL1 - 1e-6 * abs(SL1) <= SL <= SL0 + 1e-6 * abs(SL0) and SR0 * (1 - 1e-6) <= SR <= SR1 * (1 + 1e-6); lam = (SL, SR)
                    else: ok = True
                if not (e < 1e-9 and ok): bad.append((k, e, lam))
            if bad:
                k, e, lam = bad[0]
                ctx.violation("definition:%s:%s" % (kind, rs), "%d of %d fluxes are not of the form that defines %s (deviation %.2g, speed(s) %s, bounds %g..%g); left %s right %s flux %s" % (len(bad), len(q), rs, e, lam, lo[k], hi[k], q[k, 0], q[k, 1], f[k]))
    return verdict


def run(ctx):
    ctx.rule = "one recorded step of a random state compared with the update assembled from its own start state by the documented formulas with the recorded fluxes of the named Riemann solver; one evaluation per step and per flux of the defining forms"
    ctx.assumptions = ["cases whose reconstructed density or pressure comes near the cut-offs are not judged"]
    src = [os.path.join(REPO, "src", p) for p in ("shared/HydroParams.cpp", "utils/config/ConfigMap.cpp", "utils/config/inih/ini.cpp", "utils/config/inih/INIReader.cpp")]
    rsb = Build(ctx, mains=("rs",), only_sources=src); b = Build(ctx); bs = Build(ctx, sdm=True); F = Fluxes(ctx, rsb.exe["rs"])
    m, s = muscl_cases(ctx), sdm_cases(ctx); ctx.run(m, b); ctx.run(s, bs)
    V = [central(ctx, F)]
    for c in m + s:
        if c.rc != 0 or c.rec is None or len(c.rec.states) < 2: continue
        v = (sdm_jobs if "N" in c.info else muscl_jobs)(ctx, F, c)
        if v: V.append(v)
    F.run()
    for v in V: v()
    for c in (m[0], m[-1], s[-1]): ctx.sample(c.name + " " + str(c.info["n"]))
    ctx.stats["runs"] = len(m) + len(s); ctx.min_evals = 1500


if __name__ == "__main__": main("P27", run)
