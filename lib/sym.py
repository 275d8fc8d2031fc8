"""Axis permutations, mirrors and cyclic shifts of recorded or generated states."""
import itertools
from workloads import *


class Sym:
    """out axis d is in axis perm[d]; then out axes in flips are mirrored; then out axes are shifted cyclically"""

    def __init__(self, dim, perm=None, flips=(), shifts=None):
        self.dim, self.perm, self.flips, self.shifts = dim, tuple(perm or range(dim)), tuple(flips), tuple(shifts or (0,) * dim)

    def __str__(self): return "perm=%s mirror=%s shift=%s" % ("".join("xyz"[p] for p in self.perm), "".join("xyz"[f] for f in self.flips) or "-", self.shifts)

    def lst(self, v): return [v[p] for p in self.perm]

    def bc(self, bc):
        out = [3] * 6
        for d in range(self.dim):
            a, b = bc[2 * self.perm[d]], bc[2 * self.perm[d] + 1]
            if d in self.flips: a, b = b, a
            out[2 * d], out[2 * d + 1] = a, b
        return out

    def vec(self, g):
        o = [g[p] for p in self.perm]
        for f in self.flips: o[f] = -o[f]
        return o

    def apply(self, U, mhd=False, N=0, ghost=0):
        dim = self.dim
        V = sdm_view(U, dim, N) if N else U
        ax = list(self.perm) + list(range(dim, 3))
        order = ax + [3]
        if N:
            # node axes are stored z, y, x at 4, 5, 6: node axis of direction d is 6 - d
            na = [6 - p for p in ax]
            order = ax + [3, na[2], na[1], na[0]]
        V = np.transpose(V, order).copy()
        W = V.copy()
        for d in range(dim):
            W[:, :, :, IU + d] = V[:, :, :, IU + self.perm[d]]
            if mhd: W[:, :, :, IA + d] = V[:, :, :, IA + self.perm[d]]
        for d in self.flips:
            W = np.flip(W, axis=d)
            if N: W = np.flip(W, axis=6 - d)
            W = W.copy()
            W[:, :, :, IU + d] *= -1
            if mhd: W[:, :, :, IA + d] = -np.roll(W[:, :, :, IA + d], 1, axis=d)
        for d in range(dim):
            if self.shifts[d]: W = np.roll(W, self.shifts[d], axis=d)
        return W.reshape(W.shape[:3] + (-1,))


def random_sym(rng, dim, n, flips_ok, shifts_ok):
    """flips_ok / shifts_ok: per IN axis"""
    perms = list(itertools.permutations(range(dim)))
    for t in range(100):
        p = perms[int(rng.integers(len(perms)))]
        fl = [d for d in range(dim) if flips_ok[p[d]] and rng.random() < 0.5]
        sh = [int(rng.integers(1, n[p[d]])) if shifts_ok[p[d]] and n[p[d]] > 1 and rng.random() < 0.5 else 0 for d in range(dim)]
        if p != tuple(range(dim)) or fl or any(sh): return Sym(dim, p, fl, sh)
    return Sym(dim, perms[-1])
