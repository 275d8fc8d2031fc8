"""P26 locality: paired runs that differ in a region, compared outside the reach of the scheme."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from workloads import *

STAGES = dict(forward_euler=1, ssprk2=2, ssprk3=3, ssprk54=5)


def rnd_bc(rng, dim):
    bc = [3] * 6
    for d in range(dim):
        if rng.random() < .6: bc[2 * d], bc[2 * d + 1] = int(rng.integers(1, 3)), int(rng.integers(1, 3))
    return bc


def bound(U, mhd, N, dim, gamma, L, n):
    """a time step admissible for the state"""
    V = U.reshape(U.shape[:3] + (8 if mhd else 2 + dim, -1)); g = lambda v: V[:, :, :, v]
    v = sum(np.abs(g(IU + d) / g(ID)) for d in range(3 if mhd else dim)).max(); b2 = (sum(g(IA + d) ** 2 for d in range(3)) / g(ID)).max() if mhd else 0
    c2 = (gamma * (gamma - 1) * g(IP) / g(ID)).max(); h = min((L[d][1] - L[d][0]) / n[d] for d in range(dim)) / max(N, 1)
    return h / (dim * (v + np.sqrt(c2 + 4 * b2)))


def case(ctx, rng, solver, dim, mhd, N, impl, rs, st, sd, rep):
    long = int(rng.integers(dim)); reach = 3 if mhd else 2
    if N: reach = STAGES[[k for k in sd if k in STAGES][0]] * (2 if "limiter_enabled" in sd else 1)
    n = [int(x) for x in rng.integers(3, 6 if dim == 2 else 5, dim)]; n[long] = int(2 * reach + rng.integers(3, 9))
    if not N: n = [max(q, 3) for q in n]
    if rng.random() < .35:    # room in two directions
        o = (long + 1) % dim; n[o] = int(reach + rng.integers(3, 6))
    L = extents(rng, dim); gamma = float(rng.choice([1.4, 1.25, 1.6666])); bc = rnd_bc(rng, dim)
    kind = str(rng.choice(["smooth", "blocks", "random", "mixed"]))
    if N: U = sdm_state(rng, n, L, dim, N, str(rng.choice(["smooth", "noise", "step"])), gamma=gamma, amp=.2)
    else: U = state(rng, solver, n, L, kind, gamma=gamma, bamp=float(rng.choice([.05, .5])))
    # region: a box, in it another flow (the magnetic field of other cells is kept: staggered, and free)
    lo = [int(rng.integers(0, q)) for q in n]; hi = [min(q, a + int(rng.integers(1, 4))) for a, q in zip(lo, n)]
    W = (sdm_state(rng, n, L, dim, N, "smooth", gamma=gamma, amp=.3) if N else state(rng, solver, n, L, "random", gamma=gamma, drho=1.0, dp=1.0, mach=1.5, bamp=.5))
    f = float(10 ** rng.uniform(-1, 2)); V = U.copy(); box = tuple(slice(a, b) for a, b in zip(lo, hi)) + (slice(None),) * (3 - dim); V[box] = f * W[box]
    M = np.zeros(tuple(n) + (1,) * (3 - dim), bool); M[box] = True
    if mhd:   # magnetic energy is part of the total energy: cells whose right face belongs to the box keep theirs admissible through a pressure reserve
        V[box + (IP,)] += 4 * (U[..., IA:] ** 2).sum(-1).max() + 4 * (W[..., IA:] ** 2).sum(-1).max() * f * f
        V[..., IP][~M] += 4 * (W[..., IA:] ** 2).sum(-1).max() * f * f; U = U.copy(); U[..., IP][~M] = V[..., IP][~M]
    dt = (0.2 if not N else 0.05) * min(bound(U, mhd, N, dim, gamma, L, n), bound(V, mhd, N, dim, gamma, L, n)) * float(rng.uniform(.5, 1))
    # cells out of reach
    R = M.copy()
    for d in range(dim):
        Q = R.copy()
        for s in range(1, reach + 1):
            for sg in (1, -1):
                T = np.roll(R, sg * s, axis=d)
                if 3 not in bc[2 * d:2 * d + 2]:
                    sl = [slice(None)] * 3; sl[d] = slice(0, s) if sg > 0 else slice(-s, None); T[tuple(sl)] = False
                Q |= T
        R = Q
    ini = solver_ini(solver, n, L, bc, hydro=dict(riemann=rs, slope_type=st, gamma0=gamma, cfl=.5 if not N else .3), other=dict(implementationVersion=impl), extra=dict(sdm=sd) if N else {})
    sc = ["inject U", "tend %.17g" % dt, "step 1"]
    info = dict(cls="%s:%s" % (solver if not N else "SDM_%dD_N%d" % (dim, N), ("i%d:%s" % (impl, rs)) if not N else "+".join(sorted(sd))), n=n, bc=bc, box=(lo, hi), reach=reach, M=M, R=R, dim=dim, dt=dt, st=st, rs=rs, sd=sd)
    nm = "%s-%d" % (info["cls"], rep)
    return [Case(nm, ini, sc, {"U": U}, info=info), Case(nm + "-other", ini, sc, {"U": V}, info=info)]


def dist(M, changed, bc, dim):
    """largest Chebyshev distance from the region at which something changed"""
    R = M.copy(); r = 0
    while (changed & ~R).any():
        r += 1
        for d in range(dim):
            Q = R.copy()
            for sg in (1, -1):
                T = np.roll(R, sg, axis=d)
                if 3 not in bc[2 * d:2 * d + 2]:
                    sl = [slice(None)] * 3; sl[d] = 0 if sg > 0 else -1; T[tuple(sl)] = False
                Q |= T
            R = Q
        if r > 99: break
    return r


def judge(ctx, g):
    a, b = g
    if a.rc != 0 or b.rc != 0 or a.rec is None or b.rec is None: return
    i = a.info; A, B = a.rec.states[-1], b.rec.states[-1]
    if A["dt"] != B["dt"] or abs(A["dt"] - i["dt"]) > 1e-12 * i["dt"]: ctx.stats["other time step (not judged)"] = ctx.stats.get("other time step (not judged)", 0) + 1; return
    far = ~i["R"]; D = (A["U"] != B["U"]) & ~(np.isnan(A["U"]) & np.isnan(B["U"])); ch = D.any(axis=3)
    if far.any():
        ctx.observe((a.name,)); ctx.stats["cells out of reach"] = ctx.stats.get("cells out of reach", 0) + int(far.sum())
        ctx.stat_max("reach seen:" + i["cls"].split(":")[0] + (":" + i["cls"].split(":")[1] if "SDM" in i["cls"] else ""), dist(i["M"], ch, i["bc"], i["dim"]))
        if (ch & far).any():
            c = [int(x) for x in np.argwhere(ch & far)[0]]
            ctx.violation(i["cls"], "cell %s, %d cells from the only region that differs (%s), has another state after one step of the same length (reach %d); n=%s bc=%s slope=%s %s" % (c, dist(i["M"], ch, i["bc"], i["dim"]), i["box"], i["reach"], i["n"], i["bc"], i["st"], i["rs"]), b)


def run(ctx):
    ctx.rule = "paired runs of one step of the same length from states that differ inside a box only; an evaluation is the comparison, bit by bit, of every cell beyond the reach of the scheme; distinct = pair"
    ctx.assumptions = ["one thread (the order of atomic sums is another property)"]
    rng = ctx.rng; b = Build(ctx); bs = Build(ctx, sdm=True); m, s = [], []
    for solver in MUSCL:
        for impl in impls(solver):
            for rs in riemanns(solver):
                for rep in range(ctx.pick(60, 500)): m.append(case(ctx, rng, solver, dim_of(solver), "MHD" in solver, 0, impl, rs, rep % 3, {}, rep))
    for dim, N in SDM_KINDS:
        for lim in LIM:
            for rep in range(ctx.pick(30, 150)):
                sd = dict(lim); sd[INTEG[rep % 4]] = True
                if "limiter_enabled" in lim: sd.update(M_TVB=float(rng.choice([0, .05])), limiter_characteristics_enabled=bool(rng.integers(2)))
                s.append(case(ctx, rng, sdm_name(dim, N), dim, False, N, 0, RIEMANN_H[int(rng.integers(4))], 0, sd, rep))
    ctx.run([c for g in m for c in g], b); ctx.run([c for g in s for c in g], bs)
    for g in m + s: judge(ctx, g)
    for g in (m[0], m[-1], s[-1]): ctx.sample(g[0].name + " box %s in %s" % (g[0].info["box"], g[0].info["n"]))
    ctx.min_evals = 300


if __name__ == "__main__": main("P26", run)
