"""Exact solutions used as references: Euler and ideal-MHD Riemann problems, simple waves, linear waves, Alfven waves."""
import numpy as np
from scipy.optimize import brentq, fsolve


# ---- Euler Riemann problem (primitive states rho, p, vn, vt1, vt2) ---------------------------------
class EulerRP:
    def __init__(self, L, R, g):
        self.L, self.R, self.g = np.asarray(L, float), np.asarray(R, float), g
        cl, cr = np.sqrt(g * L[1] / L[0]), np.sqrt(g * R[1] / R[0])

        def f(p, S, c):
            if p > S[1]:
                A, B = 2 / ((g + 1) * S[0]), (g - 1) / (g + 1) * S[1]
                return (p - S[1]) * np.sqrt(A / (p + B))
            return 2 * c / (g - 1) * ((p / S[1]) ** ((g - 1) / (2 * g)) - 1)
        F = lambda p: f(p, L, cl) + f(p, R, cr) + R[2] - L[2]
        hi = 10 * max(L[1], R[1])
        while F(hi) < 0: hi *= 4
        self.p = brentq(F, 1e-14 * min(L[1], R[1]), hi, xtol=1e-15, rtol=1e-14)
        self.u = .5 * (L[2] + R[2]) + .5 * (f(self.p, R, cr) - f(self.p, L, cl))

    def side(self, s, S, sg):
        """states for the wave on one side; sg=-1 left, +1 right (mirrored so that the left formulas apply)"""
        g = self.g; rho, p, u = S[0], S[1], -sg * S[2]; c = np.sqrt(g * p / rho); us = -sg * self.u; ps = self.p; x = -sg * s
        out = np.empty(s.shape + (3,)); out[:] = (rho, p, u)
        if ps > p:
            sp = u - c * np.sqrt((g + 1) / (2 * g) * ps / p + (g - 1) / (2 * g)); q = ps / p; a = (g - 1) / (g + 1)
            out[x > sp] = (rho * (q + a) / (a * q + 1), ps, us)
        else:
            rs = rho * (ps / p) ** (1 / g); cs = np.sqrt(g * ps / rs); hd, tl = u - c, us - cs
            m = (x > hd) & (x < tl); z = x[m]; cc = 2 / (g + 1) * (c + (g - 1) / 2 * (u - z))
            out[m, 2] = 2 / (g + 1) * (c + (g - 1) / 2 * u + z); out[m, 0] = rho * (cc / c) ** (2 / (g - 1)); out[m, 1] = p * (cc / c) ** (2 * g / (g - 1))
            out[x >= tl] = (rs, ps, us)
        out[..., 2] *= -sg
        return out

    def speed(self): return max(np.abs(self.L[2]) + np.sqrt(self.g * self.L[1] / self.L[0]), np.abs(self.R[2]) + np.sqrt(self.g * self.R[1] / self.R[0]), abs(self.u) + np.sqrt(self.g * self.p / min(self.side(np.array([self.u - 1e-9]), self.L, -1)[0, 0], self.side(np.array([self.u + 1e-9]), self.R, 1)[0, 0])))

    def __call__(self, s):
        s = np.asarray(s, float); l = s < self.u
        o = np.where(l[..., None], self.side(s, self.L, -1), self.side(s, self.R, 1))
        t = np.where(l[..., None], self.L[3:5], self.R[3:5])
        return np.concatenate([o, t], -1)


def simple_wave(g, rho0, p0, u0, amp, sg, k=1):
    """prim(x,t): isentropic wave of one family, period 1"""
    c0 = np.sqrt(g * p0 / rho0)

    def base(x):
        rho = rho0 * (1 + amp * np.sin(2 * np.pi * k * x)); c = c0 * (rho / rho0) ** ((g - 1) / 2)
        return rho, p0 * (rho / rho0) ** g, u0 + sg * 2 / (g - 1) * (c - c0), c

    def prim(x, t):
        y = np.array(x, float) - (u0 + sg * c0) * t
        for _ in range(200):
            r, p, u, c = base(y); z = x - (u + sg * c) * t
            if np.abs(z - y).max() < 1e-14: break
            y = z
        r, p, u, c = base(y)
        return np.stack([r, p, u, 0 * u, 0 * u], -1)
    return prim


# ---- ideal MHD in one dimension: primitive (rho, p, vn, vt1, vt2, Bt1, Bt2), Bn given ---------------
def mhd_cons(W, Bn, g):
    r, p, u, v, w, b, c = W
    return np.array([r, p / (g - 1) + .5 * r * (u * u + v * v + w * w) + .5 * (Bn * Bn + b * b + c * c), r * u, r * v, r * w, b, c])


def mhd_flux(W, Bn, g):
    r, p, u, v, w, b, c = W
    E = mhd_cons(W, Bn, g)[1]; P = p + .5 * (Bn * Bn + b * b + c * c)
    return np.array([r * u, (E + P) * u - Bn * (Bn * u + b * v + c * w), r * u * u + P - Bn * Bn, r * u * v - Bn * b, r * u * w - Bn * c, u * b - v * Bn, u * c - w * Bn])


def mhd_matrix(W, Bn, g):
    r, p, u, v, w, b, c = W
    A = np.diag([u] * 7).astype(float)
    A[0, 2] = r; A[1, 2] = g * p
    A[2, 1] = 1 / r; A[2, 5] = b / r; A[2, 6] = c / r
    A[3, 5] = -Bn / r; A[4, 6] = -Bn / r
    A[5, 2] = b; A[5, 3] = -Bn; A[6, 2] = c; A[6, 4] = -Bn
    return A


def mhd_waves(W, Bn, g):
    """eigenvalues (ascending) and right eigenvectors in primitive variables"""
    l, R = np.linalg.eig(mhd_matrix(W, Bn, g)); o = np.argsort(l.real)
    return l.real[o], R.real[:, o]


def mhd_shock(W1, Bn, g, fam, ratio):
    """state on the other side of a shock of the family (index in the ascending waves) with density ratio*rho1, and its speed; by continuation"""
    W1 = np.asarray(W1, float); l, R = mhd_waves(W1, Bn, g); r = R[:, fam] / R[0, fam]
    U1, F1 = mhd_cons(W1, Bn, g), mhd_flux(W1, Bn, g); W, s = W1.copy(), l[fam]
    for rho in W1[0] * np.exp(np.linspace(0, np.log(ratio), 60)[1:]):
        d = rho - W[0]
        def f(z):
            X = np.concatenate([[rho], z[:6]])
            return mhd_flux(X, Bn, g) - F1 - z[6] * (mhd_cons(X, Bn, g) - U1)
        z0 = np.concatenate([(W + r * d)[1:], [s]])
        z, info, ok, _ = fsolve(f, z0, full_output=True, xtol=1e-14)
        if ok != 1 and np.abs(info["fvec"]).max() > 1e-11: return None
        Wn = np.concatenate([[rho], z[:6]]); r = (Wn - W) / d; W, s = Wn, z[6]
    return W, s


def mhd_rotation(W1, Bn, g, ang, sg):
    """state behind a rotational discontinuity (left-going sg=-1, right-going +1), and its speed"""
    W = np.array(W1, float); r = W[0]; b1 = W[5:7].copy(); c, s = np.cos(ang), np.sin(ang)
    b2 = np.array([c * b1[0] - s * b1[1], s * b1[0] + c * b1[1]]); k = np.sign(Bn)
    W[5:7] = b2; W[3:5] = W[3:5] - sg * k * (b2 - b1) / np.sqrt(r)
    return W, W[2] + sg * abs(Bn) / np.sqrt(r)


class MhdRP:
    """Riemann problem with a known solution, built wave by wave from the state left of the contact"""

    def __init__(self, W, Bn, g, fl, rl, sl, cd, sr, rr, fr):
        """W: state left of the contact; density ratios ahead/behind < 1 for the shocks (1 = none), rotation angles, density ratio of the contact"""
        self.Bn, self.ok = Bn, True; W = np.asarray(W, float); states, speeds = [W], []
        X = W
        for kind, q in (("slow", sl), ("rot", rl), ("fast", fl)):   # leftwards from the contact: towards the states ahead
            if q is None: continue
            r = mhd_rotation(X, Bn, g, q, -1) if kind == "rot" else mhd_shock(X, Bn, g, {"slow": 2, "fast": 0}[kind], q)
            if r is None: self.ok = False; return
            X = r[0]; states.insert(0, X); speeds.insert(0, r[1])
        speeds.append(W[2]); X = W.copy(); X[0] *= cd; states.append(X)
        for kind, q in (("slow", sr), ("rot", rr), ("fast", fr)):
            if q is None: continue
            r = mhd_rotation(X, Bn, g, q, 1) if kind == "rot" else mhd_shock(X, Bn, g, {"slow": 4, "fast": 6}[kind], q)
            if r is None: self.ok = False; return
            X = r[0]; states.append(X); speeds.append(r[1])
        self.states, self.speeds = np.array(states), np.array(speeds)
        self.ok = bool(np.isfinite(self.states).all() and (self.states[:, :2] > 0).all() and (np.diff(self.speeds) > 1e-3).all())
        if self.ok:   # Lax conditions of every shock
            kinds = [{"fl": 0, "rl": None, "sl": 2, "cd": None, "sr": 4, "rr": None, "fr": 6}[k] for k, q in (("fl", fl), ("rl", rl), ("sl", sl), ("cd", 1), ("sr", sr), ("rr", rr), ("fr", fr)) if q is not None]
            for j, f in enumerate(kinds):
                if f is None: continue
                a, b, s = mhd_waves(self.states[j], Bn, g)[0], mhd_waves(self.states[j + 1], Bn, g)[0], self.speeds[j]
                if not (a[f] > s > b[f] and (f == 0 or s > a[f - 1]) and (f == 6 or s < b[f + 1])): self.ok = False
        if self.ok:
            l = [mhd_waves(S, Bn, g)[0] for S in self.states]; self.max = max(np.abs(q).max() for q in l)

    def __call__(self, s):
        return self.states[np.searchsorted(self.speeds, s)]
