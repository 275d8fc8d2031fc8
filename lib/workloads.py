"""Configuration generators shared by the checks."""
import numpy as np
from states import *
from vlib import *

RIEMANN_H = ["approx", "hll", "hllc", "llf"]
RIEMANN_M = ["hlld", "hll", "llf"]
MUSCL = ["Hydro_Muscl_2D", "Hydro_Muscl_3D", "MHD_Muscl_2D", "MHD_Muscl_3D"]


def impls(solver): return [0, 1] if "Hydro" in solver else [0, 1, 2]
def riemanns(solver): return RIEMANN_H if "Hydro" in solver else RIEMANN_M
def dim_of(solver): return 3 if "3D" in solver else 2


def shape(rng, dim, lo=4, hi=14, cap=900, distinct=True, long=0.06):
    """grid shape; now and then a long one (one axis far beyond the block and tile sizes of the loops)"""
    if long and rng.random() < long:
        n = [int(x) for x in rng.integers(lo, lo + 3, size=dim)]
        n[int(rng.integers(dim))] = int(rng.integers(6, 11) * max(4, min(hi, 14)))
        return n
    for t in range(10000):
        n = [int(x) for x in rng.integers(lo, hi + 1, size=dim)]
        if int(np.prod(n)) > cap: continue
        if distinct and len(set(n)) < dim and rng.random() < 0.9: continue
        return n
    return [lo] * dim


def cutoffs(rng, U, prob=0.12):
    """now and then cut-off parameters large enough to act on some cells of a MUSCL state"""
    if rng.random() >= prob: return {}
    return dict(smallr=float(np.quantile(U[..., ID], .05)), smallc=float(rng.uniform(.1, .6)))


def extents(rng, dim, aniso=True):
    """dyadic-ish domain bounds (the code reads bounds in single precision)"""
    L = []
    for d in range(dim):
        a = float(rng.integers(-4, 5)) / 4
        l = float(rng.choice([0.5, 0.75, 1.0, 1.25, 1.5, 2.0])) if aniso else 1.0
        L.append((a, a + l))
    return L


def sdm_name(dim, N): return "Hydro_SDM_%dD_degree%d" % (dim, N)


def fejer(N):
    """exact integration weights on [0,1] of the interpolant through the N solution points"""
    x = sdm_nodes(N)
    V = np.vander(x, N, increasing=True).T
    return np.linalg.solve(V, 1.0 / np.arange(1, N + 1))


def sdm_view(U, dim, N):
    """[nx][ny][nz][dof] -> [nx][ny][nz][var][kz][ky][kx]"""
    nv = 2 + dim
    if dim == 2: return U.reshape(U.shape[:3] + (nv, 1, N, N))
    return U.reshape(U.shape[:3] + (nv, N, N, N))


def sdm_average(U, dim, N):
    """exact cell averages [nx][ny][nz][var]"""
    V = sdm_view(U, dim, N); w = fejer(N)
    if dim == 2: return np.einsum("abcvzyx,y,x->abcv", V, w, w)
    return np.einsum("abcvzyx,z,y,x->abcv", V, w, w, w)


def sdm_coords(n, L, dim, N):
    """coordinates of all solution points, each [nx][ny][nz][kz][ky][kx]"""
    x = sdm_nodes(N)
    out = []
    for d in range(dim):
        h = (L[d][1] - L[d][0]) / n[d]
        c = L[d][0] + (np.arange(n[d])[:, None] + x[None, :]) * h  # cell, node
        sh = [1] * 6
        sh[d] = n[d]; sh[5 - d] = N
        out.append(c.reshape(sh))
    full = tuple(list(n) + [1] * (3 - dim)) + ((1, N, N) if dim == 2 else (N, N, N))
    return [np.broadcast_to(c, full) for c in out]


def sdm_pack(fields):
    """list of [nx][ny][nz][kz][ky][kx] -> [nx][ny][nz][dof]"""
    A = np.stack(fields, axis=3)
    return A.reshape(A.shape[:3] + (-1,))


def sdm_state(rng, n, L, dim, N, kind="smooth", gamma=1.4, mach=0.5, amp=0.3):
    """conservative nodal data; 'smooth' samples a smooth field, 'noise' adds nodal noise"""
    X = sdm_coords(n, L, dim, N)
    T = [(X[d] - L[d][0]) / (L[d][1] - L[d][0]) for d in range(dim)]

    def f(a):
        r = 0
        for _ in range(3):
            k = rng.integers(-1, 2, size=3)
            if not k[:dim].any(): k[rng.integers(dim)] = 1
            r = r + rng.normal() * np.sin(2 * np.pi * sum(k[d] * T[d] for d in range(dim)) + rng.uniform(0, 6.28))
        r = r / np.abs(r).max() * a
        if kind == "noise": r = 0.7 * r + 0.3 * a * rng.uniform(-1, 1, size=r.shape)
        if kind == "step":
            q = rng.integers(0, dim)
            r = 0.3 * r + a * np.where(T[q] < rng.uniform(0.3, 0.7), 0.7, -0.7)
        return r
    W = dict(rho=np.exp(f(amp)) * rng.uniform(0.7, 1.5), p=np.exp(f(amp)) * rng.uniform(0.7, 1.5))
    for d in range(dim): W["uvw"[d]] = rng.uniform(-1, 1) * mach + f(0.5 * mach)
    ke = sum(W["uvw"[d]] ** 2 for d in range(dim))
    U = [W["rho"], W["p"] / (gamma - 1) + 0.5 * W["rho"] * ke] + [W["rho"] * W["uvw"[d]] for d in range(dim)]
    return sdm_pack([np.broadcast_to(u, T[0].shape) for u in U])


def var_scale(A, v):
    """scale of variable v of recorded states [.., v, ..] given as list of per-variable arrays"""
    sc = np.abs(A[v]).max()
    if v >= IU: sc = max(sc, np.sqrt(np.abs(A[ID]).max() * np.abs(A[IP]).max()) if v < IA else np.sqrt(np.abs(A[IP]).max()))
    return sc if sc > 0 else 1.0


def state_diff(A, B, nv):
    """largest difference relative to the variable's scale, and the variable"""
    a = A.reshape(A.shape[:3] + (nv, -1)); b = B.reshape(B.shape[:3] + (nv, -1))
    la = [a[:, :, :, v] for v in range(nv)]
    e, w = 0.0, 0
    for v in range(nv):
        d = np.abs(la[v] - b[:, :, :, v]).max() / var_scale(la, v)
        if not d <= e: e, w = (d if d == d else np.inf), v
    return float(e), w


LIM = [{}, dict(limiter_enabled=True), dict(positivity_enabled=True), dict(limiter_enabled=True, positivity_enabled=True)]
INTEG = ["forward_euler", "ssprk2", "ssprk3", "ssprk54"]
