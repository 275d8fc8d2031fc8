"""P03 decomposition independence: serial runs against MPI runs of the same global problem."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from workloads import *

GRIDS2 = [(a, b, 1) for a in range(1, 9) for b in range(1, 9) if a * b <= 8]
GRIDS3 = [(a, b, c) for a in range(1, 9) for b in range(1, 9) for c in range(1, 9) if a * b * c <= 8]
PROB = {"Hydro_Muscl_2D": ["implode", "blast", "kelvin_helmholtz", "gresho_vortex", "four_quadrant", "isentropic_vortex", "rayleigh_taylor", "rising_bubble", "disk"],
        "Hydro_Muscl_3D": ["implode", "blast", "kelvin_helmholtz", "gresho_vortex", "rayleigh_taylor", "rising_bubble", "disk"],
        "MHD_Muscl_2D": ["blast", "implode", "orszag_tang", "kelvin_helmholtz", "rotor", "field_loop", "wave"],
        "MHD_Muscl_3D": ["blast", "implode", "orszag_tang", "kelvin_helmholtz", "rotor", "field_loop", "wave"],
        "S2": ["sod", "implode", "blast", "four_quadrant", "kelvin_helmholtz", "gresho_vortex", "wedge", "jet", "isentropic_vortex", "shu_osher"],
        "S3": ["sod", "implode", "blast", "kelvin_helmholtz", "gresho_vortex", "jet"]}


def pick_grid(rng, dim, maxnp, used):
    """grids of every size, splitting every axis, are used equally often"""
    gs = [g for g in (GRIDS2 if dim == 2 else GRIDS3) if np.prod(g) <= maxnp]
    w = [used.get(g, 0) for g in gs]; m = min(w)
    c = [g for g, k in zip(gs, w) if k == m]
    g = c[int(rng.integers(len(c)))]; used[g] = used.get(g, 0) + 1
    return g


def random_bc(rng, dim):
    """per-axis: both periodic, or independent non-periodic types"""
    bc = [3] * 6
    for d in range(dim):
        if rng.random() < 0.65: bc[2 * d], bc[2 * d + 1] = int(rng.integers(1, 3)), int(rng.integers(1, 3))
    return bc


def groups(ctx, sdm_kinds):
    rng = ctx.rng; out = []; used = {2: {}, 3: {}}
    sched = []
    for s in MUSCL:
        for i in impls(s):
            for rep in range(ctx.pick(9 if dim_of(s) == 2 else 10, 60)): sched.append((s, None, i, "inject"))
        for p in PROB[s]:
            for rep in range(ctx.pick(2, 8)): sched.append((s, None, int(rng.choice(impls(s))), p))
    for s in MUSCL[:2]:
        for i in impls(s):
            for rep in range(ctx.pick(1, 6)): sched.append((s, None, i, "point_gravity"))
    for dim, N in sdm_kinds:
        for rep in range(ctx.pick(6, 40)): sched.append((sdm_name(dim, N), N, 0, "inject"))
    for dim in (2, 3):
        ks = [k for k in sdm_kinds if k[0] == dim]
        for p in PROB["S%d" % dim]:
            for rep in range(ctx.pick(1 if p not in ("wedge", "jet") else 3, 6)):
                k = ks[int(rng.integers(len(ks)))]; sched.append((sdm_name(*k), k[1], 0, p))
    for gi, (solver, N, impl, what) in enumerate(sched):
        dim = 3 if "3D" in solver else 2; mhd = "MHD" in solver
        gw = 1 if N else 3 if mhd else 2
        m = pick_grid(rng, dim, ctx.pick(6, 8) if rng.random() < 0.8 else 8, used[dim])
        hi = (7 if dim == 2 else 5) if not N else 4
        loc = [int(rng.integers(max(gw, 2), hi + 1)) for _ in range(dim)]
        if N: loc = [int(rng.integers(1, hi)) for _ in range(dim)]
        big = rng.random() < 0.08
        if big: loc[int(rng.integers(dim))] = int(rng.integers(4 * hi, 8 * hi))
        G = [loc[d] * m[d] for d in range(dim)]
        for d in range(dim):
            if G[d] < gw: G[d] = loc[d] = gw * 2
        L = extents(rng, dim) + ([] if dim == 3 else [(0.0, 1.0)])
        gamma = float(rng.choice([1.4, 1.6666]))
        hy = dict(gamma0=gamma, cfl=float(rng.choice([0.2, 0.4])), slope_type=int(rng.integers(0, 3)), riemann=str(rng.choice(riemanns(solver) if not N else RIEMANN_H)), smallr=1e-8, smallc=1e-4)
        extra = {}; arrays = {}; script = []
        bc = random_bc(rng, dim)
        if rng.random() < 0.25: bc = [3] * 6
        if N:
            sd = dict(LIM[int(rng.integers(4))]); it = INTEG[int(rng.integers(4))]
            if it != "forward_euler": sd[it] = True
            if rng.random() < 0.3: sd["rescale_dt_enabled"] = True
            if sd.get("limiter_enabled"): sd["M_TVB"] = float(rng.choice([0, 40.0]))
            if sd.get("limiter_enabled") and rng.random() < 0.5: sd["limiter_characteristics_enabled"] = True
            extra["sdm"] = sd; hy["cfl"] = 0.2
        problem = what
        if what == "inject":
            problem = "implode"
            kind = ["smooth", "blocks", "random", "mixed"][int(rng.integers(4))]
            if N: U = sdm_state(rng, G, L, dim, N, ["smooth", "noise", "step"][int(rng.integers(3))], gamma=gamma, amp=0.3)
            else: U = state(rng, solver, G, L, kind, gamma=gamma)
            arrays = {"u.bin": U}; script.append("inject u.bin")
        elif what == "point_gravity":
            problem = "disk"; extra["gravity"] = dict(point=True, x=0.1, y=-0.2, z=0.15, M=float(rng.uniform(0.5, 2)), soften=0.05)
        else:
            L = [(0.0, 1.0)] * 3 if what not in ("disk", "isentropic_vortex", "rayleigh_taylor", "rising_bubble") else L
            if what == "isentropic_vortex": L = [(-5.0, 5.0)] * 3
            if what in ("rayleigh_taylor", "rising_bubble"):
                extra["gravity"] = dict(static=True, static_field_x=0.1, static_field_y=-0.3, static_field_z=-0.2)
                extra["static_gravity"] = extra["gravity"]
            if what == "disk": extra["gravity"] = dict(point=True, M=1.0, soften=0.05)
            if what == "kelvin_helmholtz": extra["KH"] = dict(perturbation_sine=bool(rng.integers(2)), perturbation_rand=False)
            if what == "kelvin_helmholtz": extra["KH"]["perturbation_sine_robertson"] = not extra["KH"]["perturbation_sine"]
            if what == "field_loop": extra["FieldLoop"] = dict(amp=0.0)
            if what == "wave": extra["wave"] = dict(type=int(rng.integers(0, 4)))
            if what == "sod": pass
        nst = ctx.pick(3, 5)
        if what == "inject" and (not N and kind == "smooth") and not big: nst = 25
        script += ["dump i", "step %d" % nst, "dumpfull f"]
        if what == "inject" and rng.random() < 0.3: script.insert(1, "tend %.17g" % (0.02 * float(rng.random())))
        cls = "%s:i%d:%s" % (solver, impl, what)
        info = dict(cls=cls, m=m, n=G, bc=bc, N=N, dim=dim, mhd=mhd, hy=hy, sdm=extra.get("sdm"))

        def mk(mm, tag):
            ln = [G[d] // mm[d] for d in range(dim)]
            ini = solver_ini(solver, ln, L, bc, problem=problem, hydro=hy, other=dict(implementationVersion=impl), extra=extra, mpi=mm)
            return Case("g%d%s" % (gi, tag), ini, script, arrays, np_=int(np.prod(mm)), info=info, timeout=60)
        ser = mk((1, 1, 1), "s"); par = mk(m, "p")
        out.append([ser, par])
        if gi % ctx.pick(12, 4) == 0 and int(np.prod(m)) > 1: out[-1].append(mk((1, 1, 1), "one"))
    return out


def judge(ctx, g):
    ser = g[0]
    if ser.rec is None or not ser.rec.complete: return
    S = [q for q in ser.rec.states if not q["full"]]
    if not all(np.isfinite(q["U"]).all() for q in S): ctx.stats["reference not finite"] = ctx.stats.get("reference not finite", 0) + 1; return
    I = ser.info; nv = 8 if I["mhd"] else 2 + I["dim"]
    for c in g[1:]:
        if c.rec is None or not all(r.complete for r in c.rec): continue
        P = [q for q in assemble(c.rec) if q is not None]
        key = "%s:%s" % (I["cls"], "x".join(map(str, I["m"][:I["dim"]])))
        if len(P) != len(S):
            ctx.violation("steps:" + I["cls"], "%d steps serially, %d with process grid %s" % (len(S) - 1, len(P) - 1, I["m"]), c, I); continue
        for a, b in zip(S, P):
            # every process agrees on t and dt, and with the serial run
            for nm, x, ys in (("dt", a["dt"], b["dts"]), ("t", a["t"], b["ts"])):
                if a["it"] == 0: continue
                for r, y in enumerate(ys):
                    rel = abs(y - x) / max(abs(x), 1e-300); ctx.stat_max("max relative difference of " + nm, rel)
                    if not rel <= 1e-10:
                        ctx.violation("%s:%s" % (nm, I["cls"]), "%s=%r serially, %r on process %d of grid %s (step %d) %s" % (nm, x, y, r, I["m"], a["it"], I), c, I); break
            if a["it"] != b["it"]: ctx.violation("it:" + I["cls"], "iteration %d / %d" % (a["it"], b["it"]), c, I)
            e, w = state_diff(b["U"], a["U"], nv); ctx.stat_max("max state difference", e)
            if e == 0: ctx.stats["bitwise equal states"] = ctx.stats.get("bitwise equal states", 0) + 1
            ctx.observe((key, a["it"], c.name))
            if not e <= 1e-9:
                d = np.abs(a["U"] - b["U"]); at = np.unravel_index(np.nanargmax(np.where(np.isfinite(d), d, 1e300)), d.shape)
                ctx.violation("state:" + I["cls"], "after step %d the state on process grid %s differs from the serial one by %.3g (variable %d, largest at cell %s): %s" % (a["it"], I["m"], e, w, at[:3], I), c, I); break
        for q in (0,):
            # ghosts of every process agree with the serial solution or its ghosts
            pass


def run(ctx):
    ctx.rule = "one comparison of the assembled global state, t and dt after a step of an MPI run with those of the serial run; distinct by solver, variant, problem or injected state, process grid and step"
    ctx.assumptions += ["local block at least as wide as the ghost layer", "at most 8 processes; shared-memory transport",
                        "SDM degrees %s" % ctx.pick("(2,1) (2,2) (2,3) (2,4) (3,2) (3,3)", "all compiled")]
    kinds = ctx.pick([(2, 1), (2, 2), (2, 3), (2, 4), (3, 2), (3, 3)], SDM_KINDS)
    bs = Build(ctx, sdm=True, sdm_kinds=kinds); bm = Build(ctx, mpi=True, sdm=True, sdm_kinds=kinds)
    G = groups(ctx, kinds)
    ctx.run([g[0] for g in G], bs)
    ctx.run([c for g in G for c in g[1:]], bm, mpi=True)
    for g in G: judge(ctx, g)
    for g in (G[0], G[len(G) // 2], G[-1]): ctx.sample("%s on %s, bc %s" % (g[0].info["cls"], g[0].info["m"], g[0].info["bc"]))
    ctx.stats["runs"] = sum(len(g) for g in G); ctx.stats["process grids"] = len({g[0].info["m"] for g in G}); ctx.min_evals = 400


if __name__ == "__main__": main("P03", run)
