"""P15 ghost cells: recorded full arrays after the boundary update against the prescribed image of the interior."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from workloads import *

f32 = lambda x: float(np.float32(x))
MPI_KINDS = [(2, 1), (2, 2), (2, 3), (2, 4), (3, 2), (3, 3)]


def fill(G, n, gw, dim, bc, mhd, faces):
    """G: padded global array [x][y][z][var](nodes z,y,x); faces: optional overriding callables (axis, side) -> f(G, ghost index, layer)"""
    sdm = G.ndim == 7
    for d in range(dim):
        for s in (0, 1):
            kind = bc[2 * d + s]
            for q in range(gw):
                i = gw - 1 - q if s == 0 else gw + n[d] + q
                sl = [slice(None)] * G.ndim
                dst = list(sl); dst[d] = i
                if (d, s) in faces:
                    faces[(d, s)](G, tuple(dst), d, i); continue
                src = list(sl)
                if kind == 1: src[d] = gw + q if s == 0 else gw + n[d] - 1 - q
                elif kind == 2: src[d] = gw if s == 0 else gw + n[d] - 1
                else: src[d] = i + n[d] if s == 0 else i - n[d]
                v = G[tuple(src)].copy()     # axes: two remaining cell axes, var, nodes
                if kind == 1:
                    if sdm: v = np.flip(v, axis=5 - d)   # node axis of direction d: 3 + (2 - d) of the reduced array
                    v[:, :, IU + d] *= -1
                    if mhd: v[:, :, IA + d] *= -1
                G[tuple(dst)] = v
    return G


def full_grid(n, gw, dim):
    return tuple((n[d] + 2 * gw) if d < dim else 1 for d in range(3))


def coords(L, n, gw, d, N):
    h = (L[d][1] - L[d][0]) / n[d]
    return L[d][0] + (np.arange(n[d] + 2 * gw)[:, None] - gw + sdm_nodes(N)[None, :]) * h


def special(problem, par, L, n, gw, dim, N, gamma, t):
    """boundary prescriptions of the wedge and jet problems; also returns mask of uncertain points (threshold within rounding)"""
    faces = {}; unc = []

    def cons(r, u, v, w, p):
        U = [r, p / (gamma - 1) + 0.5 * r * (u * u + v * v + w * w), r * u, r * v]
        return np.array(U + ([r * w] if dim == 3 else []))
    P = {k: f32(v) for k, v in par.items()}
    X = [coords(L, n, gw, d, N) for d in range(dim)]

    def near(mirror):
        def f(G, dst, d, i):
            src = list(dst); src[d] = gw if i < gw else gw + n[d] - 1
            v = G[tuple(src)]
            if mirror: v = np.flip(v, axis=5 - d)
            G[dst] = v.copy()
        return f
    if problem == "wedge":
        S1 = cons(P["rho1"], P["u1"], P["v1"], 0, P["p1"]); S2 = cons(P["rho2"], P["u2"], P["v2"], 0, P["p2"])
        slope = np.tan(P["front_angle"]); dxs = P["shock_speed"] / np.cos(np.pi / 2 - P["front_angle"]) * t

        def xmin(G, dst, d, i): G[dst] = S1[None, None, :, None, None, None]

        def ymin(G, dst, d, i):
            src = list(dst); src[d] = 2 * gw - 1 - i
            v = np.flip(G[tuple(src)], axis=5 - d).copy(); v[:, :, IV] *= -1
            inflow = X[0] < P["front_x"]                    # [i][kx]
            m = np.broadcast_to(inflow[:, None, None, None, None, :], v.shape)
            G[dst] = np.where(m, S1[None, None, :, None, None, None], v)

        def ymax(G, dst, d, i):
            x = X[0][:, None, :]; y = X[1][i][None, :, None]    # [i][ky][kx]
            lim = P["front_x"] + y / slope + dxs
            m = (x < lim)[:, None, None, None, :, :]
            a = np.abs(x - lim) < 1e-5 * (L[0][1] - L[0][0])
            shp = G[dst].shape
            G[dst] = np.where(np.broadcast_to(m, shp), S1[None, None, :, None, None, None], S2[None, None, :, None, None, None])
            if a.any():
                v = G[dst]; v[np.broadcast_to(a[:, None, None, None, :, :], shp)] = np.nan; G[dst] = v
        faces = {(0, 0): xmin, (0, 1): near(True), (1, 0): ymin, (1, 1): ymax}
    if problem == "jet":
        S1 = cons(P["rho_jet"], P["u_jet"], P["v_jet"], P.get("w_jet", 0), P["p_jet"]); S2 = cons(P["rho_bulk"], P["u_bulk"], P["v_bulk"], P.get("w_bulk", 0), P["p_bulk"])

        def xmin(G, dst, d, i):
            shp = G[dst].shape                                   # [j][k][v][kz][ky][kx]
            y = X[1][:, None, None, None, :, None]
            if dim == 2: r = np.abs(y - P["pos_jet"])
            else: r = np.sqrt((y - P["pos_jet"]) ** 2 + (X[2][None, :, None, :, None, None] - P["pos_jet"]) ** 2)
            m = np.broadcast_to(r < 0.5 * P["width_jet"], shp)
            G[dst] = np.where(m, S1[None, None, :, None, None, None], S2[None, None, :, None, None, None])
            a = np.abs(r - 0.5 * P["width_jet"]) < 1e-5 * P["width_jet"]
            if a.any():
                v = G[dst]; v[np.broadcast_to(a, shp)] = np.nan; G[dst] = v
        faces = {(0, 0): xmin, (0, 1): near(dim == 2), (1, 0): near(False), (1, 1): near(False)}
        if dim == 3: faces.update({(2, 0): near(False), (2, 1): near(False)})
    return faces


def judge(ctx, c, mpi):
    i = c.info; dim, gw, mhd, N = i["dim"], i["gw"], i["mhd"], i["N"]
    recs = c.rec if mpi else [c.rec]
    tot = i["tot"]
    for it, (U, key) in enumerate(i["data"]):
        t = [q for q in recs[0].states if q["tag"] == "a"][it]["t"]
        nv = U.shape[3]
        G = np.full(full_grid(tot, gw, dim) + (nv,), np.nan)
        sl = tuple(slice(gw, gw + tot[d]) if d < dim else slice(0, 1) for d in range(3))
        G[sl] = U
        V = sdm_view(G, dim, N) if N else G
        V = V.copy()
        faces = special(i["problem"], i["par"], i["L"], tot, gw, dim, N, i["gamma"], t) if i.get("problem") else {}
        fill(V, tot, gw, dim, i["bc"], mhd, faces)
        G = V.reshape(G.shape)
        for r, rec in enumerate(recs):
            st = [q for q in rec.states if q["tag"] == "a"][it]; W = st["U"]; o = st["off"]
            want = G[tuple(slice(o[d], o[d] + W.shape[d]) for d in range(3))]
            if W.shape != want.shape: raise CheckError("shape %s %s" % (W.shape, want.shape))
            ok = np.isnan(want)
            tol = 1e-6 * np.abs(want) if faces else 0
            ok |= np.abs(W - want) <= tol
            cnt = int(np.prod([W.shape[d] - (2 * gw if d < dim else 0) for d in range(3)]))
            inter = tuple(slice(gw, -gw) if d < dim else slice(None) for d in range(3))
            ctx.observe((i["cls"], tuple(i["bc"][:2 * dim]) if not faces else (i["problem"], float(t) > 0), c.np, i.get("grid")), n=1)
            ctx.stats["ghost values compared"] = ctx.stats.get("ghost values compared", 0) + int(W.size - cnt * nv)
            if not (W[inter] == want[inter]).all():
                ctx.violation("interior:%s" % i["cls"], "boundary update changed interior cells: %s" % (np.argwhere(~(W[inter] == want[inter]))[:4].tolist()), c); continue
            if not ok.all():
                b = np.argwhere(~ok); p = tuple(b[0])
                ctx.violation("ghost:%s:%s" % (i["cls"], i.get("problem") or "generic"),
                              "np=%d grid=%s rank %d bc=%s n=%s gw=%d: %d ghost values differ; first at cell (with ghosts) %s component %d: found %.17g, prescribed %.17g" % (
                                  c.np, i.get("grid"), r, i["bc"], i["n"], gw, len(b), p[:3], p[3], W[p], want[p]), c)


def rnd_bc(rng, dim, allow_mixed):
    bc = [int(x) for x in rng.choice([1, 2, 3], 6)]
    for d in range(3):
        if 3 in bc[2 * d:2 * d + 2] and not (allow_mixed and rng.random() < 0.3): bc[2 * d] = bc[2 * d + 1] = 3
    return bc


def make(ctx, solver, dim, N, mhd, grid, b, rep, bc=None, problem=None):
    rng = ctx.rng
    gw = 1 if N else 3 if mhd else 2
    nmin = max(gw, 2) if not N else 1
    n = [int(x) for x in rng.integers(max(2, nmin), 8 if dim == 2 else 6, size=dim)]
    if rng.random() < 0.08: n[int(rng.integers(dim))] = int(rng.integers(33, 140)) if not N else int(rng.integers(20, 40))
    if N and rng.random() < 0.2: n[int(rng.integers(dim))] = 1
    if not N: n = [max(q, gw) for q in n]
    grid = grid or (1,) * dim
    tot = [n[d] * grid[d] for d in range(dim)] + [1] * (3 - dim)
    L = extents(rng, dim); gamma = f32(rng.choice([1.4, 1.6666]))
    bc = bc or rnd_bc(rng, dim, True)
    nv = (2 + dim) * N ** dim if N else 8 if mhd else 2 + dim
    data = []; script = []; arrays = {}
    ini = solver_ini(solver, n, L, bc, hydro=dict(gamma0=gamma, riemann="hll"), mpi=tuple(grid) + (1,) * (3 - dim) if grid else None)
    par = None
    if problem:
        ini["hydro"]["problem"] = problem
        if problem == "wedge":
            par = dict(front_x=L[0][0] + rng.uniform(0.1, 0.5) * (L[0][1] - L[0][0]), front_angle=rng.uniform(0.7, 1.3), shock_speed=rng.uniform(5, 12), rho1=rng.uniform(5, 9), p1=rng.uniform(50, 130),
                       u1=rng.uniform(3, 8), v1=-rng.uniform(1, 5), rho2=rng.uniform(1, 2), p2=rng.uniform(0.5, 2), u2=rng.uniform(-0.2, 0.2), v2=rng.uniform(-0.2, 0.2))
        else:
            pj = 0.5 * (max(L[d][0] for d in range(1, dim)) + min(L[d][1] for d in range(1, dim)))
            par = dict(rho_jet=rng.uniform(3, 6), u_jet=rng.uniform(3, 9), v_jet=rng.uniform(-1, 1), p_jet=rng.uniform(0.3, 2), rho_bulk=rng.uniform(0.3, 2), u_bulk=rng.uniform(-0.2, 0.2),
                       v_bulk=rng.uniform(-0.2, 0.2), p_bulk=rng.uniform(0.3, 2), pos_jet=pj + rng.uniform(-0.1, 0.1), width_jet=rng.uniform(0.2, 0.7))
            if dim == 3: par.update(w_jet=rng.uniform(-1, 1), w_bulk=rng.uniform(-0.3, 0.3))
        ini[problem] = dict(par); ini["sdm"] = dict(ssprk2=True)
        if rng.random() < 0.7: ini["mesh"].update({"boundary_type_%s" % q: 2 for q in ("xmin", "xmax", "ymin", "ymax", "zmin", "zmax")})
    shp = tuple(tot) + (nv,)
    S = np.full(tuple((n[d] + 2 * gw) if d < dim else 1 for d in range(3)) + (nv,), -7.25e30)
    arrays["S"] = S
    for k in range(3):
        # the last one after a time step: the other buffer is current, and the time is positive
        if k == 2: script += ["inject Q", "stepq 1"] if not problem else ["inject Q", "tend 0.01", "stepq 1"]
        U = rng.uniform(-1, 1, shp) * 10.0 ** rng.integers(-2, 3)
        arrays["U%d" % k] = U
        if k == 2:
            pass
        script += ["injectfull S", "inject U%d" % k, "bnd", "dumpfull a"]
        data.append((U, k))
    Q = np.zeros(shp)
    if N:
        Qv = sdm_view(Q, dim, N); Qv[:, :, :, ID] = 1.0; Qv[:, :, :, IP] = 2.5
    else: Q[..., ID] = 1.0; Q[..., IP] = 2.5
    arrays["Q"] = Q
    cls = solver if not N else "SDM_%dD_N%d" % (dim, N)
    c = Case("%s-%s-%d" % (cls, "x".join(map(str, grid)), rep), ini, script, arrays, np_=int(np.prod(grid)),
             info=dict(cls=cls + (":mpi" if np.prod(grid) > 1 else ""), dim=dim, gw=gw, mhd=mhd, N=N, n=n, tot=tot, bc=bc, data=data, grid=tuple(grid), problem=problem, par=par, L=L, gamma=gamma))
    return c


class _Skip: pass


def run(ctx):
    ctx.rule = ("interior filled with random numbers, ghosts with sentinels, boundary update applied on the real solver object (first, second buffer; start and after a step), whole arrays recorded; "
                "an evaluation compares every ghost and interior value of one process with the prescribed image computed from the global interior; distinct = (solver, boundary types of all faces or special problem, processes, process grid)")
    ctx.assumptions += ["process blocks are at least as large as the ghost width"]
    rng = ctx.rng
    b = Build(ctx, sdm=True)
    cases = []
    for solver in MUSCL:
        dim = dim_of(solver); mhd = "MHD" in solver
        combos = []
        for a in (1, 2, 3):
            for d in (1, 2, 3): combos.append((a, d))
        # every pair on every axis, the other axes random
        for ax in range(dim):
            for pr in combos:
                bc = rnd_bc(rng, dim, True); bc[2 * ax], bc[2 * ax + 1] = pr
                cases.append(make(ctx, solver, dim, 0, mhd, None, b, len(cases), bc=bc))
        for rep in range(ctx.pick(10, 200)): cases.append(make(ctx, solver, dim, 0, mhd, None, b, len(cases)))
    for dim, N in SDM_KINDS:
        for rep in range(ctx.pick(10, 100)): cases.append(make(ctx, sdm_name(dim, N), dim, N, False, None, b, len(cases)))
        if dim == 2:
            for rep in range(ctx.pick(4, 30)): cases.append(make(ctx, sdm_name(dim, N), dim, N, False, None, b, len(cases), problem="wedge"))
        for rep in range(ctx.pick(4, 30)): cases.append(make(ctx, sdm_name(dim, N), dim, N, False, None, b, len(cases), problem="jet"))
    rs = ctx.run(cases, b, after=lambda c: None)
    for c in rs:
        judge(ctx, c, False)
        c.arrays = c.arrays if ctx.viol else {}
    bm = Build(ctx, mpi=True, sdm=True, sdm_kinds=MPI_KINDS)
    cases = []
    G2 = [(2, 1), (1, 2), (2, 2), (3, 1), (1, 3), (3, 2), (2, 3), (4, 2), (2, 4)]
    G3 = [(2, 1, 1), (1, 2, 1), (1, 1, 2), (2, 2, 1), (2, 1, 2), (1, 2, 2), (2, 2, 2), (3, 1, 1), (1, 3, 1), (1, 1, 3), (3, 2, 1), (1, 2, 3)]
    for solver in MUSCL:
        dim = dim_of(solver); mhd = "MHD" in solver
        for g in (G2 if dim == 2 else G3):
            for rep in range(ctx.pick(2, 12)): cases.append(make(ctx, solver, dim, 0, mhd, g, bm, len(cases)))
    for dim, N in MPI_KINDS:
        gs = G2 if dim == 2 else G3
        for g in gs:
            if rng.random() < 0.5 or not ctx.quick: cases.append(make(ctx, sdm_name(dim, N), dim, N, False, g, bm, len(cases)))
            if dim == 2 and (rng.random() < 0.35 or not ctx.quick): cases.append(make(ctx, sdm_name(dim, N), dim, N, False, g, bm, len(cases), problem="wedge"))
            if rng.random() < 0.35 or not ctx.quick: cases.append(make(ctx, sdm_name(dim, N), dim, N, False, g, bm, len(cases), problem="jet"))
    for c in ctx.run(cases, bm, mpi=True): judge(ctx, c, True)
    ctx.min_evals = 500


if __name__ == "__main__": main("P15", run)
