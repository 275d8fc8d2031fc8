"""P22 lower-dimensional flows: 3D runs of data that do not vary along one axis against the 2D run."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from sym import *


def inv(perm):
    o = [0] * len(perm)
    for d, p in enumerate(perm): o[p] = d
    return o


def embed(U2, dim3n, mhd, N, w=None):
    """[nx][ny][1][nv2] -> [nx][ny][nk][nv3], invariant along z; w: velocity along z (hydro)"""
    if not N:
        if mhd: V = U2
        else: V = np.concatenate([U2, np.zeros(U2.shape[:3] + (1,))], axis=3)
        return np.repeat(V, dim3n, axis=2)
    V2 = sdm_view(U2, 2, N)
    V = np.concatenate([V2, np.zeros(V2.shape[:3] + (1, 1, N, N))], axis=3)
    V = np.repeat(np.repeat(V, dim3n, axis=2), N, axis=4)
    return V.reshape(V.shape[:3] + (-1,))


def groups(ctx):
    rng = ctx.rng; out = []
    kinds = [("H", i, r, s, 0) for i in (0, 1) for r in RIEMANN_H for s in (0, 1, 2)] + [("M", i, r, s, 0) for i in (0, 1, 2) for r in RIEMANN_M for s in (0, 1, 2)]
    kinds += [("S", l, r, 0, N) for N in (2, 3, 4) for l in range(4) for r in RIEMANN_H]
    for fam, impl, rs, st, N in kinds:
        mhd = fam == "M"
        for rep in range(ctx.pick(16 if not N else 5, 80 if not N else 15)):
            n = shape(rng, 2, 4, 12, 120) if not N else shape(rng, 2, 3, 6, 30)
            nk = int(rng.integers(3 if mhd else 2, 6)) if not N else int(rng.integers(1, 4))
            L = extents(rng, 3); gamma = float(rng.choice([1.4, 1.6666])); kind = ["smooth", "blocks", "random", "mixed"][int(rng.integers(4))] if rep != 4 else "smooth"
            bc = [3] * 6
            if rep % 2:
                for d in range(2):
                    if rng.random() < 0.7: bc[2 * d], bc[2 * d + 1] = int(rng.integers(1, 3)), int(rng.integers(1, 3))
            bk = int(rng.choice([2, 3])) if mhd else int(rng.choice([1, 2, 3])); 
            out_of_plane = mhd and rep % 2 == 1
            if not N:
                U2 = state(rng, "MHD_Muscl_2D" if mhd else "Hydro_Muscl_2D", n, L[:2], kind, gamma=gamma, bamp=float(rng.choice([0.05, 0.5])))
                if mhd and not out_of_plane:
                    U2[..., IP] -= 0.5 * U2[..., IW] ** 2 / U2[..., ID] + 0.5 * U2[..., IC] ** 2; U2[..., IW] = 0; U2[..., IC] = 0
            else: U2 = sdm_state(rng, n, L, 2, N, ["smooth", "noise", "step"][int(rng.integers(3))], gamma=gamma, amp=0.3)
            U3 = embed(U2, nk, mhd, N)
            perms = list(itertools.permutations(range(3))); S = Sym(3, perms[int(rng.integers(6))] if rep else perms[(impl + st + N) % 6])
            # a time step that is admissible in both
            V = U2.reshape(U2.shape[:3] + (8 if mhd else 4, -1)); g = lambda v: V[:, :, :, v]
            v2 = sum((g(IU + d) / g(ID)) ** 2 for d in range(3 if mhd else 2)).max(); b2 = (sum(g(IA + d) ** 2 for d in range(3)) / g(ID)).max() if mhd else 0
            c2 = (gamma * (gamma - 1) * g(IP) / g(ID)).max()
            n3 = n + [nk]; h = min((L[d][1] - L[d][0]) / n3[d] for d in range(3)) / max(N, 1)
            dt = (0.2 if not N else 0.05) * h / 3 / (np.sqrt(v2) + np.sqrt(c2 + 4 * b2)) * rng.uniform(0.5, 1)
            steps = 3 if rep != 4 else 16
            sc = ["inject U"] ; extra = {}; G2 = None
            arr2 = {"U": U2}; arr3 = {"U": S.apply(U3, mhd, N)}
            pre = []
            if fam == "H" and rep % 3 == 2:
                extra = dict(gravity=dict(static=True)); g2 = rng.uniform(-1, 1, 2)
                G2 = g2 + 0.3 * rng.uniform(-1, 1, (n[0] + 4, n[1] + 4, 1, 2))
                G3 = np.concatenate([np.repeat(G2, nk + 4, axis=2), np.zeros((n[0] + 4, n[1] + 4, nk + 4, 1))], axis=3)
                arr2["G"] = G2; arr3["G"] = np.transpose(G3, list(S.perm) + [3])[..., list(S.perm)].copy(); pre = ["gravity G"]
            sc = ["inject U"] + pre + ["dump s"] + ["tend %.17g" % dt, "step 1"] * steps
            bc3 = list(bc); bc3[4] = bc3[5] = bk
            hyd = dict(riemann=rs, gamma0=gamma, cfl=0.4)
            if not N: hyd.update(cutoffs(rng, U2), slope_type=st)
            other = dict(implementationVersion=impl) if not N else None
            if N:
                sd = dict(LIM[impl]); sd[INTEG[int(rng.integers(4))]] = True
                if "limiter_enabled" in sd: sd["M_TVB"] = float(rng.choice([0.0, 5.0]))
                extra = dict(sdm=sd)
            s2 = {"H": "Hydro_Muscl_2D", "M": "MHD_Muscl_2D", "S": sdm_name(2, N)}[fam]; s3 = {"H": "Hydro_Muscl_3D", "M": "MHD_Muscl_3D", "S": sdm_name(3, N)}[fam]
            info = dict(cls="%s:%s:%s%s" % ({"H": "hydro", "M": "MHD", "S": "SDM_N%d" % N}[fam], ("i%d" % impl) if not N else "lim%d" % impl, rs, ":out-of-plane" if out_of_plane else ""),
                        S=S, n=n3, bc=bc3, st=st, N=N, mhd=mhd, kind=kind, dt=dt, grav=G2 is not None, oop=out_of_plane, L=L)
            a = Case("2d-%s-%d-%s-%d-%d" % (fam, impl, rs, st, rep), solver_ini(s2, n, L[:2], bc, hydro=hyd, other=other, extra=extra), sc, arr2, info=info)
            c = Case("3d-%s-%d-%s-%d-%d" % (fam, impl, rs, st, rep), solver_ini(s3, S.lst(n3), S.lst(L), S.bc(bc3), hydro=hyd, other=other, extra=extra), sc, arr3, info=info)
            out.append((a, c))
    return out


def judge(ctx, g):
    a, b = g
    if any(c.rc != 0 or c.rec is None for c in g): return
    i = a.info; N, mhd = i["N"], i["mhd"]; B = Sym(3, inv(i["S"].perm))
    nv3 = 8 if mhd else 5
    for k in range(1, min(len(a.rec.states), len(b.rec.states))):
        sa, sb = a.rec.states[k], b.rec.states[k]
        if not (np.isfinite(sa["U"]).all() and np.isfinite(sb["U"]).all()): ctx.stats["non-finite (not judged)"] = ctx.stats.get("non-finite (not judged)", 0) + 1; break
        if abs(sa["dt"] - i["dt"]) > 1e-9 * i["dt"] or abs(sb["dt"] - i["dt"]) > 1e-9 * i["dt"]: raise CheckError("dt not imposed %s %s %s" % (sa["dt"], sb["dt"], i["dt"]))
        R = B.apply(sb["U"], mhd, N)
        V = R.reshape(R.shape[:3] + (nv3, -1)) if not N else sdm_view(R, 3, N)
        first = V[:, :, :1] if not N else V[:, :, :1, :, :1]
        e1 = 0
        ref = [V[:, :, :, v] for v in range(nv3)]
        for v in range(nv3): e1 = max(e1, np.abs(V[:, :, :, v] - first[:, :, :, v]).max() / var_scale(ref, v))
        ctx.observe((a.name, k, "inv")); ctx.stat_max("max_variation_along_axis", e1)
        if e1 > 1e-10:
            ctx.violation("invariance:" + i["cls"], "3D run with invariant axis (%s) varies along it by %.3e after %d steps; %s" % (i["S"], e1, k, {q: w for q, w in i.items() if q != "S"}), b); break
        if i["oop"] and not ctx.__dict__.get("oop_judge"): continue
        E = embed(sa["U"], i["n"][2], mhd, N)
        e2, w = state_diff(E, R, nv3)
        ctx.observe((a.name, k, "2d")); ctx.stat_max("max_difference_2d_3d_" + ("sdm" if N else "mhd" if mhd else "hydro"), e2)
        if e2 > 1e-10:
            ctx.violation("reduction:" + i["cls"], "3D run with invariant axis (%s) differs from the 2D run by %.3e in variable %d after %d steps; %s" % (i["S"], e2, w, k, {q: x for q, x in i.items() if q != "S"}), b); break


def run(ctx):
    ctx.rule = "pairs of a 2D run and the 3D run of the extruded, axis-permuted data with imposed equal time steps; evaluations: invariance of a 3D state along the axis, and equality with the 2D state"
    ctx.oop_judge = os.environ.get("OOP")
    b = Build(ctx, sdm=True, sdm_kinds=[(2, 2), (2, 3), (2, 4), (3, 2), (3, 3), (3, 4)])
    G = groups(ctx)
    ctx.run([c for g in G for c in g], b)
    for g in G: judge(ctx, g)
    for g in (G[0], G[-1]): ctx.sample(g[1].name + " " + str(g[1].info["S"]) + " " + g[1].info["cls"])
    ctx.stats["runs"] = 2 * len(G); ctx.min_evals = 500


if __name__ == "__main__": main("P22", run)
