"""Workload generators: admissible initial states (interior arrays, C order [nx][ny][nz][nv])."""
import numpy as np

ID, IP, IU, IV, IW, IA, IB, IC = range(8)


def fourier(rng, n, dim, amp=1.0, kmax=2):
    """smooth periodic field with zero mean, max abs about amp"""
    X = np.meshgrid(*[(np.arange(m) + 0.5) / m for m in n], indexing="ij")
    f = np.zeros(n)
    for _ in range(4):
        k = rng.integers(-kmax, kmax + 1, size=3); k[dim:] = 0
        if not k.any(): k[rng.integers(dim)] = 1
        f += rng.normal() * np.sin(2 * np.pi * sum(k[d] * X[d] for d in range(3)) + rng.uniform(0, 2 * np.pi))
    return amp * f / (np.abs(f).max() + 1e-300)


def blocks(rng, n, dim, amp=1.0):
    f = np.zeros(n)
    for _ in range(3):
        sl = []
        for d in range(3):
            a = rng.integers(0, n[d]); b = rng.integers(1, n[d] + 1)
            sl.append(np.arange(a, a + b) % n[d])
        f[np.ix_(*sl)] += rng.uniform(-1, 1)
    return amp * f / (np.abs(f).max() + 1e-300)


def field(rng, kind, n, dim, amp):
    if kind == "smooth": return fourier(rng, n, dim, amp)
    if kind == "blocks": return blocks(rng, n, dim, amp)
    if kind == "random": return amp * rng.uniform(-1, 1, size=n)
    if kind == "mixed": return 0.5 * fourier(rng, n, dim, amp) + 0.3 * blocks(rng, n, dim, amp) + 0.2 * amp * rng.uniform(-1, 1, size=n)
    raise ValueError(kind)


def prim_hydro(rng, kind, n, dim, drho=0.5, dp=0.5, mach=0.8, rho0=None, p0=None, v0=None):
    """dict of primitive fields"""
    rho0 = rho0 if rho0 is not None else rng.uniform(0.5, 2.0)
    p0 = p0 if p0 is not None else rng.uniform(0.5, 2.0)
    cs = np.sqrt(1.4 * p0 / rho0)
    W = dict(rho=rho0 * np.exp(field(rng, kind, n, dim, drho)), p=p0 * np.exp(field(rng, kind, n, dim, dp)))
    vv = v0 if v0 is not None else rng.uniform(-1, 1, 3) * mach * cs
    for d in range(3):
        W["uvw"[d]] = vv[d] + field(rng, kind, n, dim, 0.5 * mach * cs) if d < dim or v0 is None else np.full(n, vv[d])
    return W


def cons_hydro(W, gamma, dim):
    nv = 2 + dim
    U = np.zeros(W["rho"].shape + (nv,))
    U[..., ID] = W["rho"]
    ke = 0
    for d in range(dim):
        U[..., IU + d] = W["rho"] * W["uvw"[d]]; ke = ke + W["uvw"[d]] ** 2
    U[..., IP] = W["p"] / (gamma - 1) + 0.5 * W["rho"] * ke
    return U


def prim_from_cons_hydro(U, gamma, dim):
    W = dict(rho=U[..., ID]); ke = 0
    for d in range(dim):
        W["uvw"[d]] = U[..., IU + d] / U[..., ID]; ke = ke + W["uvw"[d]] ** 2
    W["p"] = (gamma - 1) * (U[..., IP] - 0.5 * U[..., ID] * ke)
    return W


def staggered_B(rng, kind, n, dim, dx, amp=0.5, mean=None):
    """face-centred divergence-free periodic B (left faces), from a random vector potential"""
    mean = mean if mean is not None else rng.uniform(-1, 1, 3) * amp
    B = [np.full(n, float(mean[d])) for d in range(3)]
    if dim == 2:
        A = field(rng, kind, n, dim, 1.0)
        bx = (np.roll(A, -1, 1) - A) / dx[1]; by = -(np.roll(A, -1, 0) - A) / dx[0]
        s = amp / max(np.abs(bx).max(), np.abs(by).max(), 1e-300)
        B[0] += s * bx; B[1] += s * by; B[2] = B[2] + field(rng, kind, n, dim, amp)
    else:
        A = [field(rng, kind, n, dim, 1.0) for _ in range(3)]
        d = lambda a, ax: (np.roll(a, -1, ax) - a) / dx[ax]
        b = [d(A[2], 1) - d(A[1], 2), d(A[0], 2) - d(A[2], 0), d(A[1], 0) - d(A[0], 1)]
        s = amp / max(max(np.abs(q).max() for q in b), 1e-300)
        for q in range(3): B[q] = B[q] + s * b[q]
    return B


def center_B(B, dim):
    """cell-centred B of periodic staggered field"""
    return [0.5 * (B[d] + np.roll(B[d], -1, d)) if d < dim else B[d] for d in range(3)]


def cons_mhd(W, B, gamma, dim):
    U = np.zeros(W["rho"].shape + (8,))
    U[..., ID] = W["rho"]; ke = 0
    for d in range(3):
        U[..., IU + d] = W["rho"] * W["uvw"[d]]; ke = ke + W["uvw"[d]] ** 2
        U[..., IA + d] = B[d]
    bc = center_B(B, dim)
    U[..., IP] = W["p"] / (gamma - 1) + 0.5 * W["rho"] * ke + 0.5 * sum(b ** 2 for b in bc)
    return U


def divB(U, dx, dim, periodic=True):
    """discrete divergence with left/right faces, periodic wrap"""
    r = 0
    for d in range(dim):
        r = r + (np.roll(U[..., IA + d], -1, d) - U[..., IA + d]) / dx[d]
    return r


def state(rng, solver, n, L, kind="mixed", gamma=1.4, **kw):
    """random admissible periodic conservative state for a MUSCL solver name"""
    dim = 3 if "3D" in solver else 2
    n = tuple(list(n) + [1] * (3 - len(n)))
    W = prim_hydro(rng, kind, n, dim, **{k: v for k, v in kw.items() if k in ("drho", "dp", "mach", "rho0", "p0", "v0")})
    if "MHD" in solver:
        dx = [(L[d][1] - L[d][0]) / n[d] for d in range(dim)]
        B = staggered_B(rng, kind, n, dim, dx, amp=kw.get("bamp", 0.5), mean=kw.get("bmean"))
        return cons_mhd(W, B, gamma, dim)
    return cons_hydro(W, gamma, dim)


# ---------------- spectral difference -------------------------------------------------------
def sdm_nodes(N):
    """solution points (Gauss-Chebyshev) in [0,1]"""
    return np.array([0.5 * (1 - np.cos(np.pi * (2 * s + 1) / (2 * N))) for s in range(N)])
