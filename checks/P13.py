"""P13 Riemann solvers: recorded fluxes of the real entry points judged against physical identities."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from workloads import *

G = [float(np.float32(g)) for g in (1.4, 1.25, 1.6666, 1.75, 1.1)]  # the code reads gamma in single precision
HK = {2: [ID, IP, IU, IV], 3: [ID, IP, IU, IV, IW]}


# ---------------- state generators ----------------------------------------------------------
def hyd(rng, n, nv, kind):
    q = np.zeros((n, nv))
    a = {"mild": 0.5, "strong": 3.0, "extreme": 8.0}[kind]
    q[:, ID] = 10 ** rng.uniform(-a, a, n); q[:, IP] = 10 ** rng.uniform(-a, a, n)
    c = np.sqrt(q[:, IP] / q[:, ID])
    for v in range(IU, nv):
        q[:, v] = c * rng.uniform(-1, 1, n) * 10 ** rng.uniform(-2, {"mild": 0.5, "strong": 1, "extreme": 2}[kind], n) * (rng.random(n) > 0.12)
    return q


def mag(rng, q, kind):
    n = len(q); Q = np.zeros((n, 8)); Q[:, :q.shape[1]] = q
    s = np.sqrt(q[:, IP])
    e = {"mild": 0.5, "strong": 1.5, "extreme": 4}[kind]
    for v in (IA, IB, IC): Q[:, v] = s * rng.uniform(-1, 1, n) * 10 ** rng.uniform(-e, e, n)
    # degenerate directions: fields along one axis, none, Alfven speed equal to sound speed
    z = rng.integers(0, 8, n)
    for k, keep in ((0, ()), (1, (IA,)), (2, (IB,)), (3, (IC,)), (4, (IB, IC))):
        for v in (IA, IB, IC):
            if v not in keep: Q[z == k, v] = 0
    return Q


def round_states(rng, Q, gamma):
    """exactly degenerate cases: small integers and equal wave speeds"""
    n = len(Q); Q = Q.copy()
    Q[:, ID] = rng.choice([1.0, 2.0, 0.25, 4.0, 1.5, 0.1], n)
    Q[:, IP] = rng.choice([1.0, 0.5, 0.1, 2.0, 0.01], n)
    Q[:, IU:IW + 1] = rng.choice([0.0, 1.0, -1.0, 0.5, 0.3], (n, 3))
    Q[:, IA:] = rng.choice([0.0, 0.0, 1.0, -1.0, 2.0, 0.7], (n, 3))
    w = rng.random(n) < 0.3  # normal field only, Alfven speed = sound speed up to rounding
    d = rng.integers(0, 3, n)
    a = np.sqrt(gamma * Q[:, IP]) * (1 + rng.integers(-3, 4, n) * 2.3e-16)
    for k in range(3):
        m = w & (d == k)
        Q[m, IA:] = 0; Q[m, IA + k] = a[m]
    return Q


# ---------------- reference -----------------------------------------------------------------
def phys_flux(q, gamma, mhd):
    f = np.zeros(q.shape, q.dtype); nv = q.shape[1]
    r, p, u = q[:, ID], q[:, IP], q[:, IU]
    V = [q[:, IU + k] if IU + k < (8 if mhd else nv) else 0 * r for k in range(3)]
    B = [q[:, IA + k] for k in range(3)] if mhd else [0 * r] * 3
    vb = sum(a * b for a, b in zip(V, B)); b2 = sum(b * b for b in B)
    E = p / (gamma - 1) + 0.5 * r * sum(v * v for v in V) + 0.5 * b2
    f[:, ID] = r * u; f[:, IP] = (E + p + 0.5 * b2) * u - B[0] * vb
    for k in range(3):
        if IU + k < nv: f[:, IU + k] = r * u * V[k] - B[0] * B[k]
    f[:, IU] += p + 0.5 * b2
    if mhd:
        f[:, IB] = B[1] * u - B[0] * V[1]; f[:, IC] = B[2] * u - B[0] * V[2]
    return f


def cons(q, gamma, mhd):
    U = q.copy(); nv = 8 if mhd else q.shape[1]; m = IA if mhd else nv
    for k in range(IU, m): U[:, k] = q[:, ID] * q[:, k]
    U[:, IP] = q[:, IP] / (gamma - 1) + 0.5 * q[:, ID] * sum(q[:, k] ** 2 for k in range(IU, m))
    if mhd: U[:, IP] += 0.5 * sum(q[:, k] ** 2 for k in (IA, IB, IC))
    return U


def weak_waves(q, gamma, mhd):
    """eigenvalues [n][m] and eigenvectors of the primitive variables [n][nv][m], sorted by eigenvalue (complex-step Jacobian)"""
    nv = q.shape[1]; idx = [k for k in range(nv) if not (mhd and k == IA)]
    J = {}
    for nm, fn in (("F", phys_flux), ("U", cons)):
        D = np.zeros((len(q), nv, nv))
        for k in idx:
            z = q.astype(complex); z[:, k] += 1e-30j
            D[:, :, k] = fn(z, gamma, mhd).imag / 1e-30
        J[nm] = D[:, idx][:, :, idx]
    w, R = np.linalg.eig(np.linalg.solve(J["U"], J["F"])); w, R = w.real, R.real
    o = np.argsort(w, axis=1); w = np.take_along_axis(w, o, 1); R = np.take_along_axis(R, o[:, None, :], 2)
    full = np.zeros((len(q), nv, len(idx))); full[:, idx] = R
    return w, full


def fast(q, gamma, k=0):
    c2 = gamma * q[:, IP] / q[:, ID]
    if q.shape[1] < 8: return np.sqrt(c2)
    b2 = (q[:, IA:] ** 2).sum(1) / q[:, ID]; a2 = q[:, IA + k] ** 2 / q[:, ID]
    t2 = b2 - a2
    # (c2 + b2)^2 - 4 c2 a2 = (c2 - a2)^2 + t2 (2 c2 + 2 a2 + t2): no cancellation
    return np.sqrt(0.5 * (c2 + b2 + np.sqrt((c2 - a2) ** 2 + t2 * (2 * c2 + 2 * a2 + t2))))


def scale(l, r, gamma, mhd):
    """rounding scale of each flux component"""
    def vs(q):
        nv = q.shape[1] if not mhd else IA
        s = np.sqrt((q[:, IU:nv] ** 2).sum(1))
        c2 = gamma * q[:, IP] / q[:, ID] + ((q[:, IA:] ** 2).sum(1) / q[:, ID] if mhd else 0)
        return s + np.sqrt(c2)
    S = np.maximum(vs(l), vs(r)); rho = np.maximum(l[:, ID], r[:, ID])
    P = np.maximum(l[:, IP] / (gamma - 1), r[:, IP] / (gamma - 1))
    sc = np.zeros_like(l)
    sc[:, ID] = rho * S
    for k in range(IU, l.shape[1]): sc[:, k] = rho * S * S + P
    sc[:, IP] = (rho * S * S + P) * S
    if mhd:
        B = np.sqrt(np.maximum((l[:, IA:] ** 2).sum(1), (r[:, IA:] ** 2).sum(1)))
        for k in (IA, IB, IC): sc[:, k] = B * S
    return sc + 1e-300


def mirror(q, mhd):
    m = q.copy(); m[:, IU] *= -1
    if mhd: m[:, IA] *= -1
    return m


def mirror_flux(f, mhd):
    m = -f.copy(); m[:, IU] *= -1
    if mhd: m[:, IA] *= -1
    return m


def swap_t(q, mhd):
    m = q.copy(); m[:, IV], m[:, IW] = q[:, IW].copy(), q[:, IV].copy()
    if mhd: m[:, IB], m[:, IC] = q[:, IC].copy(), q[:, IB].copy()
    return m


class Batch:
    """jobs for one process (one gamma)"""

    def __init__(self, ctx, exe, gamma, k):
        self.ctx, self.exe, self.gamma, self.jobs = ctx, exe, gamma, []
        self.dir = tempfile.mkdtemp(prefix="rs_", dir=ctx.tmp)
        write_ini(os.path.join(self.dir, "case.ini"), solver_ini("Hydro_Muscl_2D", [8, 8], hydro=dict(gamma0=gamma, smallr=1e-14, smallc=1e-10)))

    def add(self, kind, rs, arr, ciso=0.0):
        i = len(self.jobs); np.ascontiguousarray(arr, dtype=np.float64).tofile(os.path.join(self.dir, "i%d" % i))
        self.jobs.append((kind, rs, i, ciso, len(arr))); return i

    def run(self):
        with open(os.path.join(self.dir, "jobs.txt"), "w") as f:
            for kind, rs, i, c, n in self.jobs: f.write("%s %s i%d o%d %.17g\n" % (kind, rs, i, i, c))
        r = subprocess.run([self.exe, "case.ini", "jobs.txt"], cwd=self.dir, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600, env=dict(os.environ, OMP_NUM_THREADS="1"))
        out = r.stdout.decode(errors="replace")
        if "HX-ERROR" in out: raise CheckError(out[-500:])
        if r.returncode != 0:
            self.ctx.violation("rs-failed:%s" % r.returncode, "the Riemann-solver recorder died (%s)\n%s" % (r.returncode, out[-800:]))
            return False
        return True

    def out(self, i):
        a = np.fromfile(os.path.join(self.dir, "o%d" % i))
        return a.reshape(self.jobs[i][4], -1)


def pairs(l, r): return np.stack([l, r], axis=1)


def judge(ctx, cls, rule, err, tol, l, r=None, f=None, ref=None):
    """err: [n] relative errors (nan counts as violation)"""
    ctx.observe((cls, rule), len(err)); ctx.distinct.update((cls, rule, i) for i in range(min(len(err), 200)))
    e = np.where(np.isfinite(err), err, np.inf)
    ok = e[np.isfinite(e)]
    if len(ok): ctx.stat_max("max_" + rule.split(":")[0], ok.max())
    bad = np.nonzero(~(e <= tol))[0]
    if len(bad):
        i = bad[0]
        ctx.violation("%s:%s" % (cls, rule), "%d of %d cases; worst relative error %s; first: left=%s right=%s got=%s expected=%s" % (
            len(bad), len(err), e.max(), l[i].tolist(), None if r is None else r[i].tolist(), None if f is None else f[i].tolist(), None if ref is None else ref[i].tolist()))


def flux_jobs(ctx, b, kind, rs, n):
    """register all flux experiments of one solver; returns a judging closure"""
    rng, gamma = ctx.rng, b.gamma
    mhd = kind == "mhd"; nv = {"hydro2": 4, "hydro3": 5, "mhd": 8}[kind]
    cls = "%s:%s" % (kind, rs)
    J = []

    def gen(k, m=n):
        q = hyd(rng, m, min(nv, 5), k)
        return mag(rng, q, k) if mhd else q
    loose = 1e-6 if rs == "approx" else 1e-9
    for k in ("mild", "strong", "extreme") + (("round",) if mhd else ()):
        def g():
            return round_states(rng, gen("mild"), gamma) if k == "round" else gen(k)
        l = g()
        # --- equal states
        J.append(("consistency:" + k, b.add(kind, rs, pairs(l, l)), l, l, ("ref", phys_flux(l, gamma, mhd)), 1e-9))
        # --- arbitrary pair: finite, and mirror / transverse-swap images
        l, r = g(), g()
        if k != "round" :  # half of the pairs close to each other, some with equal parts
            h = rng.random(n) < 0.5
            r[h] = l[h] * (1 + 0.2 * rng.uniform(-1, 1, r[h].shape))
            h = rng.random(n) < 0.2; r[h, IU:] = l[h, IU:]
            h = rng.random(n) < 0.2; r[h, IP] = l[h, IP]
        if mhd: r[:, IA] = l[:, IA]
        o = b.add(kind, rs, pairs(l, r))
        J.append(("finite:" + k, o, l, r, ("finite",), 0))
        if k != "extreme":
            o2 = b.add(kind, rs, pairs(mirror(r, mhd), mirror(l, mhd)))
            J.append(("mirror:" + k, o, l, r, ("same", o2, lambda f: mirror_flux(f, mhd)), loose))
            if nv > 4:
                o3 = b.add(kind, rs, pairs(swap_t(l, mhd), swap_t(r, mhd)))
                J.append(("transverse-swap:" + k, o, l, r, ("same", o3, lambda f: swap_t(f, mhd)), loose))
            if kind == "hydro3":
                l0, r0 = l.copy(), r.copy(); l0[:, IW] = 0; r0[:, IW] = 0
                o4 = b.add("hydro2", rs, pairs(l0[:, :4], r0[:, :4])); o5 = b.add(kind, rs, pairs(l0, r0))
                J.append(("2d-3d:" + k, o5, l0, r0, ("same", o4, lambda f: np.hstack([f, 0 * f[:, :1]])), loose))
        # --- supersonic to either side
        if rs != "llf" and k in ("mild", "round"):
            for sgn in (1, -1):
                l, r = g(), g()
                if mhd: r[:, IA] = l[:, IA]
                if k == "mild":  # comparable states
                    r = l * (1 + 0.3 * rng.uniform(-1, 1, l.shape))
                    if mhd: r[:, IA] = l[:, IA]
                C = np.maximum(fast(l, gamma), fast(r, gamma))
                if rs == "approx":  # equal velocities: the star pressure lies between the two, which bounds shock speeds
                    pm = np.maximum(l[:, IP], r[:, IP]); g6 = (gamma + 1) / (2 * gamma)
                    C = np.maximum(*[fast(q, gamma) * np.sqrt(1 + g6 * (pm / q[:, IP] - 1)) for q in (l, r)])
                m = C * np.where(rng.random(n) < 0.5, rng.uniform(1.02, 1.6, n), rng.uniform(1.05, 6, n))
                l[:, IU] = sgn * m; r[:, IU] = sgn * m
                if rs != "approx":
                    dl = rng.uniform(0, 0.5, n) * C
                    l[:, IU] += sgn * dl; r[:, IU] += sgn * rng.uniform(0, 0.5, n) * C
                else: (r if sgn > 0 else l)[:, IU] += sgn * rng.uniform(0, 0.5, n) * C * (rng.random(n) < 0.5)  # moving apart
                up = l if sgn > 0 else r
                J.append(("upwind:%s:%s" % ("right" if sgn > 0 else "left", k), b.add(kind, rs, pairs(l, r)), l, r, ("ref", phys_flux(up, gamma, mhd)), 1e-9))
        # --- a weak single wave goes to the side it runs to, to second order in its strength
        if k in ("mild", "strong"):
            l = g()[:max(200, n // 4)]
            if mhd: l = l[(np.abs(l[:, IA:]) > 0).all(1)]
            u = rng.uniform(-0.8, 0.8, len(l)) * fast(l, gamma); h = rng.random(len(l)) < 0.2
            u[h] = rng.uniform(-3, 3, h.sum()) * fast(l, gamma)[h]; l[:, IU] = u
            w, R = weak_waves(l, gamma, mhd); m = w.shape[1]
            c = fast(l, gamma); S = np.abs(u) + c
            which = {"approx": range(m), "hllc": range(m), "hll": (0, m - 1), "llf": (0, m - 1), "hlld": (0, 1, 3, 5, 6)}[rs]
            x = rng.choice(list(which), len(l)); a = np.arange(len(l)); lam, r = w[a, x], R[a, :, x]
            ref_q = np.zeros_like(l); ref_q[:, ID] = l[:, ID]; ref_q[:, IP] = l[:, IP]; ref_q[:, IU:] = c[:, None]
            if mhd: ref_q[:, IA:] = np.sqrt(l[:, [IP]] + (l[:, IA:] ** 2).sum(1)[:, None])
            d = 1e-5; r = l + d * r / np.max(np.abs(r) / ref_q, axis=1)[:, None]
            # distinct speeds, no sonic point next to the wave, the fastest one for llf
            gap = np.min(np.where(np.arange(m)[None, :] == x[:, None], np.inf, np.abs(w - lam[:, None])), axis=1)
            good = np.abs(lam) > 0.1 * S
            if rs == "llf": good &= np.abs(lam) >= S * (1 - 1e-12)
            if mhd: good &= gap > 0.05 * c
            elif rs in ("approx", "hllc"): pass
            l, r, lam = l[good], r[good], lam[good]
            if len(l):
                up = np.where((lam > 0)[:, None], l, r)
                J.append(("weak-wave:" + k, b.add(kind, rs, pairs(l, r)), l, r, ("ref", phys_flux(up, gamma, mhd)), 1e-3 * d))
        # --- isolated contact
        if rs in ("approx", "hllc", "hlld") and k != "extreme":
            l = g(); r = l.copy(); r[:, ID] = l[:, ID] * 10 ** rng.uniform(-1.5, 1.5, n)
            if not mhd:
                for v in range(IV, nv): r[:, v] += rng.uniform(-1, 1, n)  # shear allowed
            c = np.minimum(fast(l, gamma), fast(r, gamma))
            u = np.where(rng.random(n) < 0.7, rng.uniform(-0.9, 0.9, n) * c, rng.uniform(-3, 3, n) * np.maximum(fast(l, gamma), fast(r, gamma))); u[rng.random(n) < 0.2] = 0
            l[:, IU] = u; r[:, IU] = u
            up = np.where((u > 0)[:, None], l, r)
            J.append(("contact:" + k, b.add(kind, rs, pairs(l, r)), l, r, ("ref", phys_flux(up, gamma, mhd)), 1e-9))
        # --- wall
        if k != "extreme":
            l = g()
            if mhd: l[:, IA] = 0
            r = mirror(l, mhd)
            J.append(("wall:" + k, b.add(kind, rs, pairs(l, r)), l, r, ("zero", [ID, IP]), 1e-9))
    if mhd:  # isothermal option: same result when the given pressure is the isothermal one
        ci = 0.75; l, r = gen("mild"), gen("mild"); r[:, IA] = l[:, IA]
        for q in (l, r): q[:, IP] = q[:, ID] * ci * ci
        o, o2 = b.add(kind, rs, pairs(l, r), ci), b.add(kind, rs, pairs(l, r))
        J.append(("isothermal", o, l, r, ("same", o2, lambda f: f), 1e-9))

    def verdict():
        for rule, o, l, r, what, tol in J:
            f = b.out(o); sc = scale(l, r, gamma, mhd); ref = None
            if what[0] == "ref": ref = what[1]
            elif what[0] == "same": ref = what[2](b.out(what[1]))
            with np.errstate(all="ignore"):
                if what[0] == "finite": err = np.where(np.isfinite(f).all(1), 0.0, np.nan)
                elif what[0] == "zero": err = np.max(np.abs(f[:, what[1]]) / sc[:, what[1]], axis=1)
                else:
                    # the normal-field flux is zero by construction or (HLL) a pure dissipation of equal values
                    err = np.max(np.abs(f - ref) / sc, axis=1)
                    err = np.where(np.isfinite(f).all(1), err, np.nan)
            judge(ctx, cls, rule, err, tol, l, r, f, ref)
    return verdict


def perm8(q, d):
    """rotate vector components: new component k = old component (k + d) mod 3"""
    m = q.copy()
    for k in range(3):
        m[..., IU + k] = q[..., IU + (k + d) % 3]; m[..., IA + k] = q[..., IA + (k + d) % 3]
    return m


def emf_jobs(ctx, b, n):
    """edge states in the frame of the edge: component 0,1 in-plane, 2 along the edge; order RT LT RB LB.
    In the (x,y) plane around an edge the cells are: RT-state belongs to the lower-left cell, LT to lower-right,
    RB to upper-left, LB to upper-right."""
    rng, gamma = ctx.rng, b.gamma
    J = []
    # EMFZ uses (x,y,z); EMFX uses (y,z,x); EMFY uses (z,x,y)
    rot = {"emfz": 0, "emfx": 2, "emfy": 1}

    def E(q): return q[..., IU] * q[..., IB] - q[..., IV] * q[..., IA]

    def four(k):
        Q = np.stack([mag(rng, hyd(rng, n, 5, k), k) for _ in range(4)], axis=1) if k != "round" else np.stack([round_states(rng, mag(rng, hyd(rng, n, 5, "mild"), "mild"), gamma) for _ in range(4)], axis=1)
        h = rng.random(n) < 0.6
        Q[h] = Q[h][:, :1] * (1 + 0.2 * rng.uniform(-1, 1, Q[h].shape))
        # continuity of the normal field is enforced by the function; supply continuous fields half of the time
        g = rng.random(n) < 0.5
        Q[g, 1, IA] = Q[g, 0, IA]; Q[g, 3, IA] = Q[g, 2, IA]; Q[g, 2, IB] = Q[g, 0, IB]; Q[g, 3, IB] = Q[g, 1, IB]
        return Q

    def sc(Q):
        S = np.max(np.sqrt((Q[..., IU:IA] ** 2).sum(-1)) + np.sqrt(gamma * Q[..., IP] / Q[..., ID] + (Q[..., IA:] ** 2).sum(-1) / Q[..., ID]), axis=1)
        return S * np.sqrt((Q[..., IA:] ** 2).sum(-1)).max(1) + 1e-300
    for kind, d in rot.items():
        def add(Q): return b.add(kind, "hlld", perm8(Q, d).reshape(n, 32))
        for k in ("mild", "strong", "extreme", "round"):
            q = four(k)[:, :1]; Q = np.repeat(q, 4, axis=1)
            J.append((kind, "emf-consistency:" + k, add(Q), Q, ("ref", E(q[:, 0])), 1e-9))
            Q = four(k); o = add(Q)
            J.append((kind, "emf-finite:" + k, o, Q, ("finite",), 0))
            if k == "extreme": continue
            M = Q[:, [1, 0, 3, 2]].copy(); M[..., IU] *= -1; M[..., IA] *= -1       # mirror first axis
            J.append((kind, "emf-mirror-1:" + k, o, Q, ("same", add(M), -1), 1e-8))
            M = Q[:, [2, 3, 0, 1]].copy(); M[..., IV] *= -1; M[..., IB] *= -1       # mirror second axis
            J.append((kind, "emf-mirror-2:" + k, o, Q, ("same", add(M), -1), 1e-8))
            M = Q[:, [0, 2, 1, 3]].copy()                                            # exchange the two axes
            M[..., [IU, IV]] = M[..., [IV, IU]]; M[..., [IA, IB]] = M[..., [IB, IA]]
            J.append((kind, "emf-swap:" + k, o, Q, ("same", add(M), -1), 1e-8))
            M = Q.copy(); M[..., IA:] *= -1
            J.append((kind, "emf-field-reversal:" + k, o, Q, ("same", add(M), -1), 1e-8))
            if k in ("mild", "round"):
                for sx in (1, -1):
                    for sy in (1, -1):
                        Q = four(k)
                        Q[:, 1, IA] = Q[:, 0, IA]; Q[:, 3, IA] = Q[:, 2, IA]; Q[:, 2, IB] = Q[:, 0, IB]; Q[:, 3, IB] = Q[:, 1, IB]
                        cx = np.max([fast(Q[:, a], gamma, 0) for a in range(4)], axis=0); cy = np.max([fast(Q[:, a], gamma, 1) for a in range(4)], axis=0)
                        for a in range(4):
                            Q[:, a, IU] = sx * cx * rng.uniform(1.05, 3, n); Q[:, a, IV] = sy * cy * rng.uniform(1.05, 3, n)
                        up = {(1, 1): 0, (-1, 1): 1, (1, -1): 2, (-1, -1): 3}[(sx, sy)]
                        J.append((kind, "emf-upwind:%d,%d:%s" % (sx, sy, k), add(Q), Q, ("ref", E(Q[:, up])), 1e-9))
    # the three directions agree with each other
    Q = four("mild")
    oz = b.add("emfz", "hlld", Q.reshape(n, 32))
    for kind in ("emfx", "emfy"):
        J.append((kind, "emf-rotation", b.add(kind, "hlld", perm8(Q, rot[kind]).reshape(n, 32)), Q, ("same", oz, 1), 1e-12))

    def verdict():
        for kind, rule, o, Q, what, tol in J:
            f = b.out(o)[:, 0]; s = sc(Q); ref = None
            if what[0] == "finite": err = np.where(np.isfinite(f), 0.0, np.nan)
            else:
                ref = what[1] if what[0] == "ref" else what[2] * b.out(what[1])[:, 0]
                err = np.abs(f - ref) / s
            judge(ctx, kind, rule, err, tol, Q.reshape(len(Q), 32), None, f, ref)
    return verdict


def speed_jobs(ctx, b, n):
    rng, gamma = ctx.rng, b.gamma; J = []
    for k in ("mild", "strong", "extreme", "round"):
        q = mag(rng, hyd(rng, n, 5, k if k != "round" else "mild"), k if k != "round" else "mild")
        if k == "round": q = round_states(rng, q, gamma)
        J.append((k, q, b.add("speed", "hlld", q)))

    def verdict():
        for k, q, o in J:
            f = b.out(o); c = [fast(q, gamma, d) for d in range(3)]; u = [np.abs(q[:, IU + d]) for d in range(3)]
            ref = np.stack(c + [c[d] + u[d] for d in range(3)] + [c[0] + u[0], c[1] + u[1], c[0] + u[0]] + c + c[:2], axis=1)
            err = np.max(np.abs(f - ref) / ref, axis=1)
            judge(ctx, "wave-speeds", "speed:" + k, err, 1e-7, q, None, f, ref)
    return verdict


def run(ctx):
    ctx.rule = ("solver x dimension x gamma x state class (mild, strong, extreme, exactly degenerate) x identity; an evaluation is one recorded flux judged by one identity "
                "(consistency, finite, mirror, transverse swap, 2D=3D, upwind both ways, contact, wall, emf symmetries, wave speeds)")
    ctx.assumptions = ["relative errors are taken against the largest physical flux scale of the pair", "admissible: density and pressure above the configured floors"]
    src = [os.path.join(REPO, "src", p) for p in ("shared/HydroParams.cpp", "utils/config/ConfigMap.cpp", "utils/config/inih/ini.cpp", "utils/config/inih/INIReader.cpp")]
    bld = Build(ctx, mains=("rs",), only_sources=src)
    n = ctx.pick(600, 20000)
    batches = []
    for k, g in enumerate(G):
        b = Batch(ctx, bld.exe["rs"], g, k); V = []
        for kind in ("hydro2", "hydro3"):
            for rs in RIEMANN_H: V.append(flux_jobs(ctx, b, kind, rs, n))
        for rs in RIEMANN_M: V.append(flux_jobs(ctx, b, "mhd", rs, n))
        V.append(emf_jobs(ctx, b, n)); V.append(speed_jobs(ctx, b, n))
        batches.append((b, V))
    with cf.ThreadPoolExecutor(NCPU) as ex: ok = list(ex.map(lambda x: x[0].run(), batches))
    for (b, V), o in zip(batches, ok):
        if o:
            for v in V: v()
    for s in ("hydro2/3 x approx,hll,hllc,llf", "mhd x hlld,hll,llf", "compute_emf x,y,z", "find_speed_fast/info, fast_mhd_speed"): ctx.sample(s)
    ctx.min_evals = 50000


if __name__ == "__main__": main("P13", run)
