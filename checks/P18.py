"""P18 Euler/MHD system primitives: recorded values of the real functions judged by the defining formulas."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from workloads import *

G = [float(np.float32(g)) for g in (1.4, 1.2, 1.6666, 1.9, 1.05)]
CLASSES = ("mild", "strong", "extreme", "round")


def prims(rng, n, nd, kind):
    q = np.zeros((n, nd + 2))
    if kind == "round":
        q[:, ID] = rng.choice([1.0, 2.0, 0.125, 1e-3, 50], n); q[:, IP] = rng.choice([1.0, 0.1, 2.5, 1e-2], n)
        q[:, IU:] = rng.choice([0.0, 0.0, 1.0, -1.0, 0.5, 3.0], (n, nd)); return q
    a = {"mild": 0.5, "strong": 2.0, "extreme": 4.0}[kind]
    q[:, ID] = 10 ** rng.uniform(-a, a, n); q[:, IP] = np.maximum(10 ** rng.uniform(-a, a, n), 1e-5 * q[:, ID])  # well above the documented floor
    c = np.sqrt(q[:, IP] / q[:, ID])
    for k in range(nd): q[:, IU + k] = c * rng.uniform(-1, 1, n) * 10 ** rng.uniform(-2, {"mild": 0.3, "strong": 0.7, "extreme": 1.3}[kind], n) * (rng.random(n) > 0.12)
    return q


def cons(w, gamma, mag=None):
    u = w.copy(); nv = min(w.shape[1], 5)
    u[:, IU:nv] = w[:, IU:nv] * w[:, :1]
    u[:, IP] = w[:, IP] / (gamma - 1) + 0.5 * w[:, ID] * (w[:, IU:nv] ** 2).sum(1)
    if mag is not None: u[:, IP] += 0.5 * (mag ** 2).sum(1)
    return u


def jac(w, gamma, d, nd):
    """analytic flux Jacobian dF_d/dU for unknowns in the code's order (rho, E, momenta)"""
    n, nv = len(w), nd + 2
    v = w[:, IU:IU + nd]; q2 = (v ** 2).sum(1); g1 = gamma - 1
    H = 0.5 * q2 + gamma * w[:, IP] / w[:, ID] / g1
    A = np.zeros((n, nv, nv)); ud = v[:, d]
    A[:, ID, IU + d] = 1
    for k in range(nd):
        A[:, IU + k, ID] = -ud * v[:, k]; A[:, IU + k, IU + k] += ud; A[:, IU + k, IU + d] += v[:, k]
    A[:, IU + d, ID] += 0.5 * g1 * q2
    for k in range(nd): A[:, IU + d, IU + k] -= g1 * v[:, k]
    A[:, IU + d, IE] += g1
    A[:, IE, ID] = ud * (0.5 * g1 * q2 - H); A[:, IE, IE] = gamma * ud
    for k in range(nd): A[:, IE, IU + k] = -g1 * ud * v[:, k]
    A[:, IE, IU + d] += H
    return A


IE = IP


class Proc:
    def __init__(self, ctx, exe, ini):
        self.ctx, self.exe, self.jobs = ctx, exe, []
        self.dir = tempfile.mkdtemp(prefix="ee_", dir=ctx.tmp)
        write_ini(os.path.join(self.dir, "case.ini"), ini); self.V = []

    def add(self, kind, gamma, arr, judge, ciso=0.0):
        i = len(self.jobs); np.ascontiguousarray(arr, dtype=np.float64).tofile(os.path.join(self.dir, "i%d" % i))
        self.jobs.append((kind, gamma, i, ciso)); self.V.append((i, judge))

    def run(self):
        with open(os.path.join(self.dir, "jobs.txt"), "w") as f:
            for kind, g, i, c in self.jobs: f.write("%s %.17g i%d o%d %.17g\n" % (kind, g, i, i, c))
        r = subprocess.run([self.exe, "case.ini", "jobs.txt"], cwd=self.dir, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600, env=dict(os.environ, OMP_NUM_THREADS="2"))
        self.text = r.stdout.decode(errors="replace")
        if "HX-ERROR" in self.text: raise CheckError(self.text[-500:])
        if r.returncode != 0:
            self.ctx.violation("ee-failed:%s" % r.returncode, "the recorder died (%s)\n%s" % (r.returncode, self.text[-800:])); return False
        return True

    def verdict(self):
        for i, j in self.V: j(np.fromfile(os.path.join(self.dir, "o%d" % i)))


def judge(ctx, cls, rule, got, ref, scale, tol, inp):
    with np.errstate(all="ignore"):
        err = np.abs(got - ref) / scale
    err = err.reshape(len(inp), -1).max(1) if np.ndim(err) else err
    err = np.where(np.isfinite(err), err, np.inf)
    ctx.observe((cls, rule), len(err)); ctx.distinct.update((cls, rule, i) for i in range(min(len(err), 100)))
    if np.isfinite(err).any(): ctx.stat_max("max_" + rule.split(":")[0], err[np.isfinite(err)].max())
    bad = np.nonzero(~(err <= tol))[0]
    if len(bad):
        i = bad[0]
        ctx.violation("%s:%s" % (cls, rule), "%d of %d states, worst relative error %g; first input %s got %s expected %s" % (
            len(bad), len(err), err.max(), inp[i].tolist(), np.ravel(got[i])[:12].tolist(), np.ravel(ref[i])[:12].tolist()))


def euler_jobs(ctx, P, nd, gamma, n):
    rng = ctx.rng; nv = nd + 2; ng = nd * nd
    for k in CLASSES:
        w = prims(rng, n, nd, k); q = cons(w, gamma)
        data = rng.normal(size=(n, nv)); g = rng.normal(size=(n, ng)) * (rng.random((n, ng)) > 0.3); v = rng.normal(size=(n, nd)); f = rng.normal(size=(n, nd)); mu = rng.uniform(0, 2, (n, 1))
        rec = np.hstack([q, data, g, v, f, mu])

        def verdict(o, w=w, q=q, data=data, g=g, v=v, f=f, mu=mu, rec=rec, k=k):
            o = o.reshape(n, -1); at = [0]
            def take(m):
                at[0] += m; return o[:, at[0] - m:at[0]]
            cls = "euler%d" % nd; tag = ":" + k
            p = w[:, IP:IP + 1]; amp = q[:, IE:IE + 1] / p  # cancellation of E - ekin
            judge(ctx, cls, "pressure" + tag, take(1), p, p * amp, 1e-13, rec)
            W = take(nv); s = np.abs(w).copy(); s[:, IP:IP + 1] = p * amp; s[:, IU:] += 1e-300
            judge(ctx, cls, "cons-to-prim" + tag, W, w, s, 1e-13, rec)
            c = np.sqrt(gamma * p / w[:, :1])
            judge(ctx, cls, "sound" + tag, take(1), c, c * amp, 1e-13, rec)
            E = q[:, IE:IE + 1]; vel = w[:, IU:]; spd = np.sqrt((vel ** 2).sum(1, keepdims=True)) + c
            for d in range(nd):
                F = take(nv); R = np.zeros_like(q); ud = vel[:, d:d + 1]
                R[:, ID] = q[:, IU + d]; R[:, IU:] = q[:, IU:] * ud; R[:, IU + d] += p[:, 0]; R[:, IE:IE + 1] = ud * (E + p)
                S = np.zeros_like(q); S[:, ID:1] = w[:, :1] * spd; S[:, IU:] = w[:, :1] * spd ** 2 + E; S[:, IE:IE + 1] = E * spd
                # flux uses the pressure the code computed: same tolerance amplification
                judge(ctx, cls, "flux-%s%s" % ("xyz"[d], tag), F, R, S, 1e-13, rec)
            G3 = g.reshape(n, nd, nd); div = np.trace(G3, axis1=1, axis2=2)
            for d in range(nd):
                F = take(nv); R = np.zeros_like(q)
                tau = mu * (G3[:, d, :] + G3[:, :, d]); tau[:, d] -= mu[:, 0] * (2.0 / nd) * div
                R[:, IU:] = tau; R[:, IE] = (v * tau).sum(1) + f[:, d]
                judge(ctx, cls, "visc-%s%s" % ("xyz"[d], tag), F, R, 1 + np.abs(g).sum(1, keepdims=True) * mu * (1 + np.abs(v).sum(1, keepdims=True)) + np.abs(f).sum(1, keepdims=True), 1e-13, rec)
            cc = c[:, 0]; H = 0.5 * (vel ** 2).sum(1) + cc ** 2 / (gamma - 1)
            # row / column scaling that makes the eigenvector matrices O(1)
            un = np.zeros((n, nv)); un[:, ID] = 1; un[:, IE] = H; un[:, IU:] = np.sqrt(H)[:, None]
            for d in range(nd):
                L = take(nv * nv).reshape(n, nv, nv).transpose(0, 2, 1); R = take(nv * nv).reshape(n, nv, nv).transpose(0, 2, 1)
                Ld, Rd = take(nv), take(nv)
                cn = "xyz"[d] + tag
                Ls = L * un[:, None, :]; Rs = R / un[:, :, None]  # Ls: charac <- scaled cons ; Rs: scaled cons <- charac
                cond = np.abs(Ls).max((1, 2)) * np.abs(Rs).max((1, 2))
                # characteristic variables have their own units: normalise every pair (row of L, column of R)
                rs = np.abs(Ls).max(2); Ln = Ls / rs[:, :, None]; Rn = Rs * rs[:, None, :]
                sc = np.maximum(1, np.abs(Rn).max((1, 2)))[:, None, None]
                judge(ctx, cls, "inverse-RL-" + cn, Rn @ Ln, np.eye(nv)[None], sc * nv, 1e-12, rec)
                judge(ctx, cls, "inverse-LR-" + cn, Ln @ Rn, np.eye(nv)[None] , sc * nv, 1e-12, rec)
                A = jac(w, gamma, d, nd) * un[:, None, :] / un[:, :, None]
                D = Ln @ A @ Rn
                u = vel[:, d]; lam = np.zeros((n, nv, nv))
                for m in range(nv): lam[:, m, m] = u
                lam[:, 0, 0] = u - cc; lam[:, 1, 1] = u + cc  # first and energy slot carry the acoustic waves
                judge(ctx, cls, "diagonalise-" + cn, D, lam, np.maximum(1e-300, np.abs(A).max((1, 2)))[:, None, None] * sc * nv, 1e-12, rec)
                # application to data is the matrix product
                a1 = np.einsum("nij,nj->ni", L, data); a2 = np.einsum("nij,nj->ni", R, data)
                judge(ctx, cls, "apply-L-" + cn, Ld, a1, np.einsum("nij,nj->ni", np.abs(L), np.abs(data)) + 1e-300, 1e-12, rec)
                judge(ctx, cls, "apply-R-" + cn, Rd, a2, np.einsum("nij,nj->ni", np.abs(R), np.abs(data)) + 1e-300, 1e-12, rec)
            assert at[0] == o.shape[1]
        P.add("euler%d" % nd, gamma, rec, verdict)


def muscl_jobs(ctx, P, gamma, n):
    rng = ctx.rng
    for nd in (2, 3):
        for k in CLASSES:
            w = prims(rng, n, nd, k); q = cons(w, gamma)

            def verdict(o, w=w, q=q, nd=nd, k=k):
                o = o.reshape(n, nd + 5); s = np.abs(w) + 1e-300; p = w[:, IP]; amp = q[:, IP] / p; s[:, IP] = p * amp
                judge(ctx, "prim%d" % nd, "cons-to-prim:" + k, o[:, :nd + 2], w, s, 1e-13, q)
                c = np.sqrt(gamma * p / w[:, ID])[:, None]
                judge(ctx, "prim%d" % nd, "sound:" + k, o[:, nd + 2:nd + 3], c, c * amp[:, None], 1e-13, q)
                ep = (gamma - 1) * q[:, IP]; judge(ctx, "prim%d" % nd, "eos:" + k, o[:, nd + 3:], np.stack([ep, np.sqrt(gamma * ep / q[:, ID])], 1), np.stack([ep, np.sqrt(gamma * ep / q[:, ID])], 1), 1e-13, q)
            P.add("prim%d" % nd, gamma, q, verdict)
            w5 = prims(rng, n, 3, k); s = np.sqrt(w5[:, IP])
            B = s[:, None] * rng.normal(size=(n, 3)) * (rng.random((n, 3)) > 0.2)
            dB = B * rng.uniform(-1, 1, (n, 3)) * (0.5 if k != "round" else 0)
            left, right = B - dB, B + dB
            W = np.hstack([w5, B])
            U = np.hstack([cons(w5, gamma, B), left]); rec = np.hstack([U, right])
            for ciso in (0.0, 0.6):
                def verdict(o, W=W, U=U, rec=rec, nd=nd, k=k, ciso=ciso):
                    o = o.reshape(n, 11); ref = W.copy(); amp = U[:, IP] / W[:, IP]
                    if ciso: ref[:, IP] = W[:, ID] * ciso ** 2
                    s = np.abs(ref) + 1e-300; s[:, IP] *= amp; s[:, IA:] = np.abs(rec[:, IA:8]) + np.abs(rec[:, 8:]) + 1e-300
                    cls = "mprim%d%s" % (nd, "-isothermal" if ciso else "")
                    judge(ctx, cls, "cons-to-prim:" + k, o[:, :8], ref, s, 1e-13, rec)
                    c = np.sqrt(gamma * W[:, IP] / W[:, ID])[:, None] if not ciso else np.full((n, 1), ciso)
                    judge(ctx, cls, "sound:" + k, o[:, 8:9], c, c * amp[:, None], 1e-13, rec)
                    if not ciso:
                        ep = (gamma - 1) * U[:, IP]; e = np.stack([ep, np.sqrt(gamma * ep / U[:, ID])], 1)
                        judge(ctx, cls, "eos:" + k, o[:, 9:], e, e, 1e-13, rec)
                P.add("mprim%d" % nd, gamma, rec, verdict, ciso)
                if nd == 3:
                    def vflux(o, W=W, k=k, ciso=ciso):
                        o = o.reshape(n, 16); w = W.copy()
                        if ciso: w[:, IP] = w[:, ID] * ciso ** 2
                        u, v, x = w[:, IU], w[:, IU:IA], w[:, IA:]; b2 = (x ** 2).sum(1); vb = (v * x).sum(1)
                        C = np.hstack([cons(w[:, :5], gamma, x), x]); F = np.zeros_like(C)
                        F[:, ID] = w[:, ID] * u; F[:, IP] = (C[:, IP] + w[:, IP] + 0.5 * b2) * u - x[:, 0] * vb
                        for m in range(3): F[:, IU + m] = C[:, IU + m] * u - x[:, 0] * x[:, m]; F[:, IA + m] = x[:, m] * u - x[:, 0] * v[:, m]
                        F[:, IU] += w[:, IP] + 0.5 * b2; F[:, IA] = 0
                        sp = np.sqrt((v ** 2).sum(1)) + np.sqrt(gamma * w[:, IP] / w[:, ID]) + np.sqrt(b2 / w[:, ID])
                        S = np.zeros_like(C); S[:, ID] = w[:, ID] * sp; S[:, IP] = (C[:, IP] + w[:, IP] + b2) * sp
                        S[:, IU:IA] = (w[:, ID] * sp ** 2 + b2 + w[:, IP])[:, None]; S[:, IA:] = (np.sqrt(b2) * sp + 1e-300)[:, None]
                        judge(ctx, "mflux", "cons:" + k, o[:, :8], C, np.abs(C) + 1e-300, 1e-13, w)
                        judge(ctx, "mflux", "flux:" + k, o[:, 8:], F, S, 1e-13, w)
                    P.add("mflux", gamma, W, vflux, ciso)


def array_jobs(ctx, P, kind, shape, gamma):
    """whole-array conversion on the grid of this process (shape with ghosts, x fastest)"""
    rng = ctx.rng; nd = len(shape); mhd = kind.startswith("m"); n = int(np.prod(shape))
    for k in ("mild", "strong"):
        w = prims(rng, n, 3 if mhd else nd, k)
        if not mhd:
            U = cons(w, gamma)
            ok = np.ones(n, bool); ref = w
        else:
            F = rng.normal(size=(n, 3)).reshape(shape[::-1] + (3,)); B = F.copy()
            for d in range(nd):
                B[..., d] = 0.5 * (F[..., d] + np.roll(F[..., d], -1, axis=nd - 1 - d))
            B = B.reshape(n, 3); U = np.hstack([cons(w, gamma, B), F.reshape(n, 3)]); ref = np.hstack([w, B])
            m = np.ones(shape[::-1], bool)
            for d in range(nd): m[tuple(slice(None) if a != nd - 1 - d else -1 for a in range(nd))] = False
            ok = m.ravel()

        def verdict(o, U=U, ref=ref, ok=ok, k=k):
            o = o.reshape(n, -1)[ok]; r = ref[ok]; s = np.abs(r) + 1e-300; s[:, IP] *= U[ok][:, IP] / r[:, IP]
            if mhd: s[:, IA:] = np.abs(U[:, IA:]).max()
            judge(ctx, kind, "array:" + k, o, r, s, 1e-12, U[ok])
        P.add(kind, gamma, U, verdict)


def run(ctx):
    ctx.rule = ("function x dimension x direction x gamma x state class; an evaluation is one recorded return value (vector or matrix) compared with the defining formula")
    ctx.assumptions = ["errors of pressure-like results are scaled by total energy / pressure (cancellation)", "density and pressure above the floors (1e-8; 1e-7 rho)"]
    src = [os.path.join(REPO, "src", p) for p in ("shared/HydroParams.cpp", "utils/config/ConfigMap.cpp", "utils/config/inih/ini.cpp", "utils/config/inih/INIReader.cpp")]
    bld = Build(ctx, mains=("ee",), only_sources=src)
    n = ctx.pick(3000, 20000); ps = []
    hyd = dict(smallr=1e-12, smallc=1e-7)
    for g in G:
        P = Proc(ctx, bld.exe["ee"], solver_ini("Hydro_Muscl_2D", [8, 8], hydro=dict(gamma0=g, **hyd)))
        for nd in (2, 3): euler_jobs(ctx, P, nd, g, n)
        muscl_jobs(ctx, P, g, n); ps.append(P)
    for name, kind, gw in (("Hydro_Muscl_2D", "array2", 2), ("Hydro_Muscl_3D", "array3", 2), ("MHD_Muscl_2D", "marray2", 3), ("MHD_Muscl_3D", "marray3", 3)):
        for rep in range(ctx.pick(2, 8)):
            nd = 3 if "3" in kind else 2
            N = [int(x) for x in ctx.rng.integers(3, 9, nd)]
            P = Proc(ctx, bld.exe["ee"], solver_ini(name, N, hydro=dict(gamma0=1.4, **hyd)))
            array_jobs(ctx, P, kind, tuple(x + 2 * gw for x in N), float(np.float32(1.4))); ps.append(P)
    names = Proc(ctx, bld.exe["ee"], solver_ini("Hydro_Muscl_2D", [8, 8], hydro=dict(gamma0=1.4, **hyd)))
    for nd in (2, 3): names.add("names%d" % nd, 1.4, np.zeros(0), lambda o: None)
    ps.append(names)
    with cf.ThreadPoolExecutor(NCPU) as ex: ok = list(ex.map(lambda p: p.run(), ps))
    for p, o in zip(ps, ok):
        if o: p.verdict()
    want = {2: {0: "rho", 1: "energy", 2: "rho_vx", 3: "rho_vy"}, 3: {0: "rho", 1: "energy", 2: "rho_vx", 3: "rho_vy", 4: "rho_vz"}}
    for nd in (2, 3):
        got = {int(l.split()[2]): l.split()[3] for l in names.text.splitlines() if l.startswith("NAME names%d" % nd)}
        ctx.observe(("names", nd), 1)
        if got != want[nd]: ctx.violation("names%d" % nd, "variable names %s" % got)
    for s in ("EulerEquations<2/3>: pressure, sound, primitives, flux, viscous flux, L, R", "HydroBaseFunctor2D/3D, MHDBaseFunctor2D/3D primitives and eos", "find_mhd_flux", "whole-array conversion"): ctx.sample(s)
    ctx.min_evals = 20000


if __name__ == "__main__": main("P18", run)
