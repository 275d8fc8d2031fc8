"""Random whole configurations (solver, problem or injected state, boundary conditions, parameters) shared by checks that
only compare executions with one another or watch them with a sanitizer."""
from workloads import *

PROB = {"Hydro_Muscl_2D": ["implode", "blast", "kelvin_helmholtz", "gresho_vortex", "four_quadrant", "isentropic_vortex", "rayleigh_taylor", "rising_bubble", "disk"],
        "Hydro_Muscl_3D": ["implode", "blast", "kelvin_helmholtz", "gresho_vortex", "rayleigh_taylor", "rising_bubble", "disk"],
        "MHD_Muscl_2D": ["blast", "implode", "orszag_tang", "kelvin_helmholtz", "rotor", "field_loop", "wave"],
        "MHD_Muscl_3D": ["blast", "implode", "orszag_tang", "kelvin_helmholtz", "rotor", "field_loop", "wave"],
        "S2": ["sod", "implode", "blast", "four_quadrant", "kelvin_helmholtz", "gresho_vortex", "wedge", "jet", "isentropic_vortex", "shu_osher"],
        "S3": ["sod", "implode", "blast", "kelvin_helmholtz", "gresho_vortex", "jet"]}
GRAV = ["static_gravity", "point_gravity"]


def config(rng, solver, N, impl, what, n, kh_rand=False, sdm=None):
    """-> (ini builder f(local n, process grid), script head, arrays, info) of one random configuration with global grid n"""
    dim = 3 if "3D" in solver else 2; mhd = "MHD" in solver
    L = extents(rng, dim) + ([] if dim == 3 else [(0.0, 1.0)])
    gamma = float(rng.choice([1.4, 1.6666]))
    hy = dict(gamma0=gamma, cfl=float(rng.choice([0.2, 0.4])), slope_type=int(rng.integers(0, 3)), riemann=str(rng.choice(riemanns(solver) if not N else RIEMANN_H)), smallr=1e-8, smallc=1e-4)
    extra = {}; arrays = {}; script = []
    bc = [3] * 6
    if rng.random() < 0.7:
        for d in range(dim):
            if rng.random() < 0.65: bc[2 * d], bc[2 * d + 1] = int(rng.integers(1, 3)), int(rng.integers(1, 3))
    if N:
        sd = dict(sdm if sdm is not None else LIM[int(rng.integers(4))])
        if sdm is None:
            it = INTEG[int(rng.integers(4))]
            if it != "forward_euler": sd[it] = True
            if rng.random() < 0.3: sd["rescale_dt_enabled"] = True
            if sd.get("limiter_enabled"): sd["M_TVB"] = float(rng.choice([0, 40.0]))
            if sd.get("limiter_enabled") and rng.random() < 0.5: sd["limiter_characteristics_enabled"] = True
        extra["sdm"] = sd; hy["cfl"] = 0.2
    problem = what
    if what in ("inject",) + tuple(GRAV):
        problem = "implode"
        if what == "static_gravity":
            extra["gravity"] = dict(static=True); problem = str(rng.choice(["rayleigh_taylor", "rising_bubble"]))
            sec = dict(gx=float(rng.uniform(-1, 1)), gy=float(rng.uniform(-1, 1)), gz=float(rng.uniform(-1, 1)))
            extra["rayleigh_taylor"] = extra["rising_bubble"] = sec
        if what == "point_gravity":
            problem = "disk"; extra["gravity"] = dict(point=True, x=0.1, y=-0.2, z=0.15, M=float(rng.uniform(0.5, 2)), soften=0.05)
        kind = ["smooth", "blocks", "random", "mixed"][int(rng.integers(4))]
        if N: U = sdm_state(rng, n, L, dim, N, ["smooth", "noise", "step"][int(rng.integers(3))], gamma=gamma, amp=0.3)
        else: U = state(rng, solver, n, L, kind, gamma=gamma)
        arrays = {"u.bin": U}; script.append("inject u.bin")
    else:
        if what not in ("disk", "isentropic_vortex", "rayleigh_taylor", "rising_bubble"): L = [(0.0, 1.0)] * 3
        if what == "isentropic_vortex": L = [(-5.0, 5.0)] * 3
        if what in ("rayleigh_taylor", "rising_bubble"): extra["gravity"] = dict(static=True); extra[what] = dict(gx=0.1, gy=-0.3, gz=-0.2)
        if what == "disk": extra["gravity"] = dict(point=True, M=1.0, soften=0.05)
        if what == "kelvin_helmholtz":
            k = int(rng.integers(3 if kh_rand else 2))
            extra["KH"] = dict(perturbation_sine=k == 0, perturbation_rand=k == 2, perturbation_sine_robertson=k == 1)
        if what == "field_loop": extra["FieldLoop"] = dict(amp=0.0)
        if what == "wave": extra["wave"] = dict(type=int(rng.integers(0, 4)))
        if N and what in ("implode", "blast", "wedge", "jet", "sod", "four_quadrant", "shu_osher"):
            extra["sdm"].update(limiter_enabled=True, positivity_enabled=True)
    info = dict(cls="%s:i%d:%s" % (solver, impl, what), solver=solver, impl=impl, what=what, n=n, bc=bc, N=N, dim=dim, mhd=mhd, hy=hy, sdm=extra.get("sdm"))

    def ini(loc, mm=None, **kw):
        return solver_ini(solver, loc, L, bc, problem=problem, hydro=hy, other=dict(implementationVersion=impl), extra=extra, mpi=mm, **kw)
    return ini, script, arrays, info


def schedule(sdm_kinds, rng, reps_inject, reps_problem, reps_sdm, reps_sdm_problem, reps_grav=1):
    """every solver x variant with injected states, every solver x problem, gravity, every spectral-difference kind"""
    out = []
    for s in MUSCL:
        for i in impls(s): out += [(s, None, i, "inject")] * reps_inject
        for k, p in enumerate(PROB[s]):
            for rep in range(reps_problem): out.append((s, None, impls(s)[(k + rep) % len(impls(s))], p))
    for s in MUSCL[:2]:
        for i in impls(s):
            for g in GRAV: out += [(s, None, i, g)] * reps_grav
    for dim, N in sdm_kinds: out += [(sdm_name(dim, N), N, 0, "inject")] * reps_sdm
    for dim in (2, 3):
        ks = [k for k in sdm_kinds if k[0] == dim]
        for j, p in enumerate(PROB["S%d" % dim]):
            for rep in range(reps_sdm_problem if ks else 0):
                k = ks[(j + rep) % len(ks)]; out.append((sdm_name(*k), k[1], 0, p))
    return out


def min_size(solver, N): return 1 if N else 3 if "MHD" in solver else 2
