"""P20 initial states: every cell / solution point against an independent evaluation of the documented problem."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from workloads import *

PI = np.pi
# Lax & Liu 1998 (Kurganov & Tadmor 2002): (rho, p, u, v) of the quadrants upper right, upper left, lower left, lower right
LAXLIU = [
    [(1, 1, 0, 0), (.5197, .4, -.7259, 0), (.1072, .0439, -.7259, -1.4045), (.2579, .15, 0, -1.4045)],
    [(1, 1, 0, 0), (.5197, .4, -.7259, 0), (1, 1, -.7259, -.7259), (.5197, .4, 0, -.7259)],
    [(1.5, 1.5, 0, 0), (.5323, .3, 1.206, 0), (.138, .029, 1.206, 1.206), (.5323, .3, 0, 1.206)],
    [(1.1, 1.1, 0, 0), (.5065, .35, .8939, 0), (1.1, 1.1, .8939, .8939), (.5065, .35, 0, .8939)],
    [(1, 1, -.75, -.5), (2, 1, -.75, .5), (1, 1, .75, .5), (3, 1, .75, -.5)],
    [(1, 1, .75, -.5), (2, 1, .75, .5), (1, 1, -.75, .5), (3, 1, -.75, -.5)],
    [(1, 1, .1, .1), (.5197, .4, -.6259, .1), (.8, .4, .1, .1), (.5197, .4, .1, -.6259)],
    [(.5197, .4, .1, .1), (1, 1, -.6259, .1), (.8, 1, .1, .1), (1, 1, .1, -.6259)],
    [(1, 1, 0, .3), (2, 1, 0, -.3), (1.039, .4, 0, -.8133), (.5197, .4, 0, -.4259)],
    [(1, 1, 0, .4297), (.5, 1, 0, .6076), (.2281, .3333, 0, -.6076), (.4562, .3333, 0, -.4297)],
    [(1, 1, .1, 0), (.5313, .4, .8276, 0), (.8, .4, .1, 0), (.5313, .4, .1, .7276)],
    [(.5313, .4, 0, 0), (1, 1, .7276, 0), (.8, 1, 0, 0), (1, 1, 0, .7276)],
    [(1, 1, 0, -.3), (2, 1, 0, .3), (1.0625, .4, 0, .8145), (.5313, .4, 0, .4276)],
    [(2, 8, 0, -.5606), (1, 8, 0, -1.2172), (.4736, 2.6667, 0, 1.2172), (.9474, 2.6667, 0, 1.1606)],
    [(1, 1, .1, -.3), (.5197, .4, -.6259, -.3), (.8, .4, .1, -.3), (.5313, .4, .1, .4276)],
    [(.5313, .4, .1, .1), (1.0222, 1, -.6179, .1), (.8, 1, .1, .1), (1, 1, .1, .8276)],
    [(1, 1, 0, -.4), (2, 1, 0, -.3), (1.0625, .4, 0, .2145), (.5197, .4, 0, -1.1259)],
    [(1, 1, 0, 1), (2, 1, 0, -.3), (1.0625, .4, 0, .2145), (.5197, .4, 0, .2741)],
    [(1, 1, 0, .3), (2, 1, 0, -.3), (1.0625, .4, 0, .2145), (.5197, .4, 0, -.4259)]]
PROB = {"Hydro_Muscl_2D": ["implode", "blast", "kelvin_helmholtz", "gresho_vortex", "four_quadrant", "isentropic_vortex", "rayleigh_taylor", "rising_bubble", "disk"],
        "Hydro_Muscl_3D": ["implode", "blast", "kelvin_helmholtz", "gresho_vortex", "rayleigh_taylor", "rising_bubble", "disk"],
        "MHD_Muscl_2D": ["blast", "implode", "orszag_tang", "kelvin_helmholtz", "rotor", "field_loop", "wave"],
        "MHD_Muscl_3D": ["blast", "implode", "orszag_tang", "kelvin_helmholtz", "rotor", "field_loop", "wave"],
        "S2": ["sod", "implode", "blast", "four_quadrant", "kelvin_helmholtz", "gresho_vortex", "wedge", "jet", "isentropic_vortex", "shu_osher"],
        "S3": ["sod", "implode", "blast", "four_quadrant", "kelvin_helmholtz", "gresho_vortex", "jet", "isentropic_vortex", "shu_osher"]}
REPS = {"kelvin_helmholtz": 3, "implode": 2, "four_quadrant": 2, "disk": 2, "wave": 2}


def f32(x): return float(np.float32(x))


def U(rng, lo, hi): return f32(rng.uniform(lo, hi))


def gen(rng, prob, dim, mhd, N, rep, ci):
    """parameters of one run: (extra ini sections, domain or None, defaults used?)"""
    dft = rep == 0          # first repetition of every problem: default parameters
    L = [(U(rng, -1.2, 0.1), U(rng, 0.6, 1.9)) for _ in range(3)]
    u01 = [(0.0, 1.0)] * 3
    P = {}; X = {}
    if prob == "implode":
        for side in ("outer", "inner"):
            P.update({"density_" + side: U(rng, .2, 2), "pressure_" + side: U(rng, .2, 2)})
            for a in "xyz": P["v%s_%s" % (a, side)] = U(rng, -1, 1); P["B%s_%s" % (a, side)] = U(rng, -1, 1)
        P["shape_region"] = int(rep % 2)
        X["implode"] = P
        if rep % 2: L = [(0.0, U(rng, 0.9, 1.4))] * 3
    elif prob == "blast":
        P = dict(radius=U(rng, .2, .8), center_x=U(rng, -.2, .8), center_y=U(rng, -.2, .8), center_z=U(rng, -.2, .8), density_in=U(rng, .3, 2), density_out=U(rng, .3, 2), pressure_in=U(rng, .3, 9), pressure_out=U(rng, .1, 2)); X["blast"] = P
        if dft: L = [(0.0, f32(1.3)), (0.0, f32(1.1)), (0.0, f32(1.2))]
    elif prob == "kelvin_helmholtz":
        kind = ["sine_robertson", "sine", "rand"][rep % 3]
        P = dict(perturbation_sine=kind == "sine", perturbation_sine_robertson=kind == "sine_robertson", perturbation_rand=kind == "rand", d_in=U(rng, 1, 3), d_out=U(rng, .5, 1.5), pressure=U(rng, 1, 5),
                 vflow_in=U(rng, -1, 1), vflow_out=U(rng, -1, 1), mode=int(rng.integers(1, 5)), w0=U(rng, .05, .3), delta=U(rng, .02, .1), amplitude=U(rng, .05, .3), rand_seed=int(rng.integers(1, 99))); X["KH"] = P
        if rep % 2 == 0: L = u01
        dft = False
    elif prob == "gresho_vortex":
        P = dict(rho0=U(rng, .5, 2), Ma=U(rng, .1, .7), u=U(rng, -.5, .5), v=U(rng, -.5, .5), w=U(rng, -.5, .5)); X["Gresho"] = P
        L = [(-.5, .5), (-.5, f32(.55)), (0.0, 1.0)] if rep % 2 else [(U(rng, -.9, -.4), U(rng, .4, .9)) for _ in range(3)]
    elif prob == "four_quadrant":
        P = dict(config_number=ci % 19, x=U(rng, .2, .8), y=U(rng, .2, .8)); X["riemann2d"] = P
        if rep % 2 == 0: L = u01
    elif prob == "isentropic_vortex":
        P = dict(density_ambient=U(rng, .7, 1.4), temperature_ambient=U(rng, .9, 1.4), vx_ambient=U(rng, -1, 1), vy_ambient=U(rng, -1, 1), center_x=U(rng, -1, 1), center_y=U(rng, -1, 1), strength=U(rng, 1, 5)); X["isentropic_vortex"] = P
        L = [(U(rng, -6, -4), U(rng, 4, 6)) for _ in range(3)]
        if N and rep % 2: P["use_tEnd"] = True; X["run"] = dict(tEnd=U(rng, 1, 20))
    elif prob == "rayleigh_taylor":
        P = dict(amplitude=U(rng, .01, .3), d0=U(rng, .5, 1.5), d1=U(rng, 1, 3), gx=U(rng, -.1, .1), gy=U(rng, -.1, .1), gz=U(rng, -.1, .1)); X["rayleigh_taylor"] = P; X["gravity"] = dict(static=True)
    elif prob == "rising_bubble":
        P = dict(R=U(rng, .2, .6), x0=U(rng, 0, 1), y0=U(rng, 0, 1), z0=U(rng, 0, 1), din=U(rng, .5, 2), dout=U(rng, .5, 2), gx=U(rng, -.1, .1), gy=U(rng, -.1, .1), gz=U(rng, -.1, .1)); X["rising_bubble"] = P; X["gravity"] = dict(static=True)
    elif prob == "disk":
        L = [(U(rng, -.8, -.4), U(rng, .4, .8)) for _ in range(3)]
        P = dict(radius=U(rng, .15, .4), xc=U(rng, -.2, .2), yc=U(rng, -.2, .2), zc=U(rng, -.2, .2), ref_density=U(rng, .5, 2), contrast_density=U(rng, 10, 200), contrast_width=U(rng, .02, .2), ref_sound_speed=U(rng, .1, .9)); P["radius_inner"] = f32(P["radius"] * rng.uniform(.1, .6))
        X["disk"] = P; X["gravity"] = dict(point=True, M=U(rng, .3, 1.5), G=U(rng, .5, 1.5), soften=U(rng, .01, .1), x=U(rng, -.2, .2), y=U(rng, -.2, .2), z=U(rng, -.2, .2))
        if dft: X["gravity"] = dict(point=True)
    elif prob == "orszag_tang":
        P = dict(kt=U(rng, 0, 2)); X["OrszagTang"] = P
        if rep % 2 == 0: L = u01
    elif prob == "rotor":
        P = dict(r0=U(rng, .1, .25), u0=U(rng, .5, 3), p0=U(rng, .3, 2), b0=U(rng, .2, 2)); P["r1"] = f32(P["r0"] + U(rng, .02, .3)); X["rotor"] = P
    elif prob == "field_loop":
        P = dict(radius=U(rng, .2, .7), density_in=U(rng, .5, 3), amplitude=U(rng, .1, 2), vflow=U(rng, -2, 2)); X["FieldLoop"] = P
    elif prob == "wave":
        P = dict(type=int(ci % 4), amplitude=U(rng, 1e-6, 1e-1)); X["wave"] = P; dft = False
        L = [(0.0, U(rng, 1, 3)), (0.0, U(rng, 1, 2)), (0.0, U(rng, 1, 2))] if rep % 2 else L
    elif prob == "wedge":
        P = dict(front_x=U(rng, -.3, .5), front_angle=U(rng, .6, 1.4), shock_speed=U(rng, 1, 10), rho1=U(rng, 4, 9), p1=U(rng, 50, 120), u1=U(rng, 3, 8), v1=U(rng, -5, 0), rho2=U(rng, 1, 2), p2=U(rng, .5, 2), u2=U(rng, -.3, .3), v2=U(rng, -.3, .3)); X["wedge"] = P
    elif prob == "jet":
        P = dict(rho_jet=U(rng, 3, 6), u_jet=U(rng, 10, 90), v_jet=U(rng, -1, 1), w_jet=U(rng, -1, 1), p_jet=U(rng, .1, 1), rho_bulk=U(rng, .3, 2), u_bulk=U(rng, -1, 1), v_bulk=U(rng, -1, 1), w_bulk=U(rng, -1, 1), p_bulk=U(rng, .3, 2)); X["jet"] = P
        if dim == 2: P["w_jet"] = P["w_bulk"] = 0.0
    elif prob == "sod": L = [(0.0, 1.0), L[1], L[2]] if rep % 2 else L
    elif prob == "shu_osher": L = [(-5.0, 5.0), L[1], L[2]] if rep % 2 == 0 else L
    if dft:
        for s in list(X):
            if s not in ("gravity", "run"): X[s] = {k: v for k, v in X[s].items() if k in ("shape_region", "config_number", "use_tEnd")}
        P = X.get(list(X)[0], {}) if X else {}
    return X, L


def hyd(rho, p, vel, gamma): return dict(rho=rho, E=p / (gamma - 1) + 0.5 * rho * sum(v * v for v in vel), m=[rho * v for v in vel])


def expected(prob, kind, dim, X, L, gamma, C, n):
    """dict(rho, E, m[, B]) of arrays over the coordinates C, plus mask of points too close to a threshold to tell"""
    x, y = C[0], C[1]; z = C[2] if dim == 3 else np.zeros_like(x)
    one = np.ones_like(x + y + z); x, y, z = x * one, y * one, z * one
    (x0, x1), (y0, y1), (z0, z1) = L
    mhd = kind == "M"; amb = np.zeros(one.shape, bool); ambv = np.zeros(one.shape, bool); nvel = 3 if (dim == 3 or mhd) else 2
    g = dict(X); B = None

    def par(sec, k, d): return g.get(sec, {}).get(k, d)

    def less(a, b):  # a < b, remembering close calls
        nonlocal amb
        d = a - b; amb = amb | (np.abs(d) < 1e-9); return d < 0

    def sel(c, a, b): return np.where(c, a, b)
    vel = [0 * one] * 3
    if prob == "implode":
        q = lambda k, d: par("implode", k, d)
        s = x + y * y if (q("shape_region", 0) == 1 and not mhd and dim == 2) else x + y + (z if dim == 3 else 0)
        if q("shape_region", 0) == 1:
            hi = 1.5 if (not mhd and dim == 2) else 2.5
            out = less(0.5, s) & less(s, hi)
        else: out = less((x0 + x1) / 2 + y0 + (z0 if dim == 3 else 0), s)
        rho = sel(out, q("density_outer", 1.0), q("density_inner", 0.125)); p = sel(out, q("pressure_outer", 1.0), q("pressure_inner", f32(0.14)))
        vel = [sel(out, q("v%s_outer" % a, 0), q("v%s_inner" % a, 0)) for a in "xyz"]
        B = [sel(out, q("B%s_outer" % a, 0), q("B%s_inner" % a, 0)) for a in "xyz"]
        if mhd and dim == 2: vel[2] = 0 * one; B[2] = 0 * one
    elif prob == "blast":
        q = lambda k, d: par("blast", k, d)
        c = [q("center_x", f32((x0 + x1) / 2)), q("center_y", f32((y0 + y1) / 2)), q("center_z", f32((z0 + z1) / 2))]
        r = q("radius", f32((x0 + x1) / 20)); r2 = (x - c[0]) ** 2 + (y - c[1]) ** 2 + ((z - c[2]) ** 2 if dim == 3 else 0)
        i = less(r2, r * r)
        rho = sel(i, q("density_in", 1.0), q("density_out", f32(1.2))); p = sel(i, q("pressure_in", 10.0), q("pressure_out", f32(0.1)))
        B = [0.5 * one] * 3
    elif prob == "kelvin_helmholtz":
        q = lambda k, d: par("KH", k, d)
        h, lo, hi = (y, y0, y1) if dim == 2 else (z, z0, z1)
        di, do, ui, uo = q("d_in", 1.0), q("d_out", 1.0), q("vflow_in", -.5), q("vflow_out", .5)
        p = q("pressure", 10.0) * one; n_, w0, de = q("mode", 2), q("w0", f32(.1)), q("delta", f32(.03)); B = [0.5 * one, 0 * one, 0 * one]
        if q("perturbation_rand", False):
            f = (h - lo) / (hi - lo); o = less(f, .25) | less(.75, f)
            rho = sel(o, do, di); vel = [sel(o, uo, ui), 0 * one, 0 * one]
            if dim == 3: B = None
        elif q("perturbation_sine_robertson", True):
            with np.errstate(over="ignore"): ramp = 1 / (1 + np.exp(2 * (h - .25) / de)) + 1 / (1 + np.exp(2 * (.75 - h) / de))
            rho = di + ramp * (do - di); u = ui + ramp * (uo - ui)
            if dim == 2: vel = [u, w0 * np.sin(n_ * PI * x), 0 * one]
            else: vel = [u, ui / 2 + ramp * (uo - ui) / 2, w0 * np.sin(n_ * PI * x) * np.sin(n_ * PI * y)]
        else:
            i = ~(less(h, .25) | less(.75, h)); rho = sel(i, di, do); u = sel(i, ui, uo); w = w0 * np.sin(n_ * PI * x)
            vel = [u, w, 0 * one] if dim == 2 else [u, 0 * one, w]
    elif prob == "gresho_vortex":
        q = lambda k, d: par("Gresho", k, d)
        rho = q("rho0", 1.0); Ma = q("Ma", f32(.1)); r = np.sqrt(x * x + y * y); rr = np.maximum(r, 1e-300)
        a, b = less(r, .2), less(r, .4)
        up = sel(a, 5 * r, sel(b, 2 - 5 * r, 0)); dp = sel(a, 12.5 * r * r, sel(b, 12.5 * r * r + 4 * (1 - 5 * r + np.log(5 * rr)), 4 * np.log(2) - 2))
        amb = amb & False  # continuous
        p = rho / (gamma * Ma * Ma) + rho * dp; rho = rho * one
        vel = [q("u", 0) - up * y / rr, q("v", 0) + up * x / rr, q("w", 0) * one]
    elif prob == "four_quadrant":
        q = lambda k, d: par("riemann2d", k, d)
        xt, yt = q("x", f32(.8)), q("y", f32(.8)); T = LAXLIU[q("config_number", 0)]
        l, b = less(x, xt), less(y, yt)
        W = [sel(l, sel(b, T[2][k], T[1][k]), sel(b, T[3][k], T[0][k])) for k in range(4)]
        rho, p, vel = W[0], W[1], [W[2], W[3], 0 * one]
    elif prob == "isentropic_vortex":
        q = lambda k, d: par("isentropic_vortex", k, d)
        Ta, ra, ua, va, be = q("temperature_ambient", 1.0), q("density_ambient", 1.0), q("vx_ambient", 1.0), q("vy_ambient", 1.0), q("strength", 5.0)
        cx, cy = q("center_x", f32((x0 + x1) / 2)), q("center_y", f32((y0 + y1) / 2))
        if q("use_tEnd", False):
            t = g["run"]["tEnd"]; cx = x0 + (cx + t * ua - x0) % (x1 - x0); cy = y0 + (cy + t * va - y0) % (y1 - y0)
        X_, Y_ = x - cx, y - cy; r2 = X_ ** 2 + Y_ ** 2; e = np.exp(.5 * (1 - r2))
        T = Ta - (gamma - 1) * be * be / (8 * gamma * PI * PI) * e * e
        rho = ra * (T / Ta) ** (1 / (gamma - 1)); p = rho * T; vel = [ua - Y_ * be / (2 * PI) * e, va + X_ * be / (2 * PI) * e, 0 * one]
        if dim == 3: vel[2] = "any"
    elif prob in ("rayleigh_taylor", "rising_bubble"):
        q = lambda k, d: par(prob, k, d)
        G = [q("gx", 0.0), q("gy", f32(-.1)), q("gz", 0.0) if dim == 3 else 0.0]
        if prob == "rayleigh_taylor":
            h, m = (y, (y0 + y1) / 2) if dim == 2 else (z, (z0 + z1) / 2)
            rho = sel(less(m, h), q("d1", 2.0), q("d0", 1.0))
            w = q("amplitude", f32(.01)) * (1 + np.cos(2 * PI * x / (x1 - x0))) * (1 + np.cos(2 * PI * y / (y1 - y0))) / 4
            vel = [0 * one, w / rho, 0 * one] if dim == 2 else [0 * one, 0 * one, w / rho]
        else:
            r = np.sqrt((x - q("x0", .5)) ** 2 + (y - q("y0", .25)) ** 2 + ((z - q("z0", .5)) ** 2 if dim == 3 else 0))
            rho = sel(less(r, q("R", f32(.1))), q("din", 1.0), q("dout", 2.0))
        p = 1 + rho * (G[0] * x + G[1] * y + G[2] * z)
        g["_grav"] = [v * one for v in G[:dim]]
    elif prob == "disk":
        q = lambda k, d: par("disk", k, d)
        R = q("radius", f32((x1 - x0) * .125)); Ri = q("radius_inner", f32(R / 10))
        c = [q("xc", f32((x0 + x1) / 2)), q("yc", f32((y0 + y1) / 2)), q("zc", f32((z0 + z1) / 2))]
        pg = g.get("gravity", {}); GM = pg.get("G", 1.0) * pg.get("M", 1.0); eps = pg.get("soften", f32(.01))
        X_, Y_ = x - c[0], y - c[1]; Z_ = z - c[2] if dim == 3 else 0 * one
        r = np.sqrt(X_ ** 2 + Y_ ** 2); rs = np.sqrt(r * r + eps * eps); rsp = np.sqrt(rs * rs + Z_ * Z_)
        inn = less(r, Ri); cs = q("ref_sound_speed", f32(.2)) / np.sqrt(sel(inn, Ri, np.maximum(r, 1e-30)) / R)
        w2 = sel(inn, GM / rs ** 3 - 2.5 * (cs / rs) ** 2, GM / (rs * rs * rsp) - 3.5 * (cs / rs) ** 2); w = np.sqrt(np.maximum(w2, 0))
        rho = q("ref_density", 1.0) * (rs / R) ** -2.5 * np.exp(GM / cs ** 2 * (1 / rsp - 1 / rs))
        K, wd = q("contrast_density", 100.0), q("contrast_width", f32(.01)); az = np.abs(Z_) - .5 * R
        far = less(R + wd, r) | less(wd, az); mid = less(R, r) | less(0, az)
        rho = sel(far, rho / K, sel(mid, rho * K ** -np.maximum((r - R) / wd, az / wd), rho)); rho = np.maximum(rho, 1e-6); ambv = r < 1e-6; g["_vmax"] = rs * w  # on the axis the direction of the softened rotation is rounding noise
        s = rs / np.maximum(r, 1e-300); vel = [-Y_ * s * w, X_ * s * w, 0 * one]; p = cs * cs * rho
        pc = [pg.get(k, 0.0) for k in "xyz"]; D = [X_ - pc[0], Y_ - pc[1], Z_ - pc[2]]
        d3 = np.sqrt(D[0] ** 2 + D[1] ** 2 + D[2] ** 2 + eps * eps) ** 3; g["_grav"] = [-GM * D[d] / d3 for d in range(dim)]
    elif prob == "orszag_tang":
        kt = par("OrszagTang", "kt", 0.0); B0 = 1 / np.sqrt(4 * PI); p = gamma / (4 * PI) * one; rho = gamma * p
        c = np.cos(4 * PI * kt * (z - z0) / (z1 - z0)) if dim == 3 else one
        vel = [-np.sin(2 * PI * y), np.sin(2 * PI * x), 0 * one]; B = [-B0 * c * np.sin(2 * PI * y), B0 * c * np.sin(4 * PI * x), 0 * one]
    elif prob == "rotor":
        q = lambda k, d: par("rotor", k, d)
        r0, r1, u0 = q("r0", f32(.1)), q("r1", f32(.115)), q("u0", 2.0); p = q("p0", 1.0) * one; B = [q("b0", f32(5 / np.sqrt(4 * PI))) * one, 0 * one, 0 * one]
        X_, Y_ = x - (x0 + x1) / 2, y - (y0 + y1) / 2; r = np.sqrt(X_ ** 2 + Y_ ** 2); f = (r1 - r) / (r1 - r0); rr = np.maximum(r, 1e-300)
        i, o = less(r, r0), less(r1, r); rho = sel(i, 10.0, sel(o, 1.0, 1 + 9 * f)); w = u0 * sel(i, 1 / r0, sel(o, 0, f / rr)); vel = [-w * Y_, w * X_, 0 * one]
    elif prob == "field_loop":
        q = lambda k, d: par("FieldLoop", k, d)
        R, A0, v = q("radius", 1.0), q("amplitude", 1.0), q("vflow", 1.0); h = [(x1 - x0) / n[0], (y1 - y0) / n[1]]
        rho = sel(less(np.sqrt(x * x + y * y), R), q("density_in", 1.0), 1.0); p = one
        if dim == 3: vw = v
        else: vw = v / np.sqrt(float(n[0]) ** 2 + float(n[1]) ** 2 + 1)
        vel = [v * 2 / np.sqrt(5) * one, v / np.sqrt(5) * one, vw * one]
        Az = lambda a, b: A0 * np.maximum(R - np.sqrt(a * a + b * b), 0)
        xl, yl = x - h[0] / 2, y - h[1] / 2
        B = [(Az(xl, yl + h[1]) - Az(xl, yl)) / h[1], -(Az(xl + h[0], yl) - Az(xl, yl)) / h[0], 0 * one]
        BR = [(Az(xl + h[0], yl + h[1]) - Az(xl + h[0], yl)) / h[1], -(Az(xl + h[0], yl + h[1]) - Az(xl, yl + h[1])) / h[0]]
    elif prob == "wave":
        if dim == 2: return None
        s5 = np.sqrt(5.0); a = par("wave", "amplitude", f32(1e-6)); ty = par("wave", "type", 0)
        # right eigenvectors (rho, m1, m2, m3, E, b2, b3) of the linear-wave test of Athena
        rev = [[1 / s5, -2 / s5, 4 / (3 * s5) * np.sqrt(.5), 1 / (3 * s5), 4.5 / s5, 8 / (3 * s5) * np.sqrt(.5), 2 / (3 * s5)], [0, 0, -1 / 3, 2 * np.sqrt(2) / 3, 0, -1 / 3, 2 * np.sqrt(2) / 3],
               [2 / s5, -1 / s5, -8 / (3 * s5) * np.sqrt(.5), -2 / (3 * s5), 1.5 / s5, -4 / (3 * s5) * np.sqrt(.5), -1 / (3 * s5)], [1, 1, 0, 0, .5, 0, 0]][ty]
        V0 = 1.0 if ty == 3 else 0.0; Ls = [x1 - x0, y1 - y0, z1 - z0]
        a3 = np.arctan(Ls[0] / Ls[1]); a2 = np.arctan(.5 * (Ls[0] * np.cos(a3) + Ls[1] * np.sin(a3)) / Ls[2]); c2, s2, c3, s3 = np.cos(a2), np.sin(a2), np.cos(a3), np.sin(a3)
        k = 2 * PI / min(Ls[0] * c2 * c3, Ls[1] * c2 * s3, Ls[2] * s2)
        pr = lambda X_, Y_, Z_: (X_ * c2 * c3 + Y_ * c2 * s3 + Z_ * s2, -X_ * s3 + Y_ * c3)

        def pot(X_, Y_, Z_):
            t, u = pr(X_, Y_, Z_); Ay = .5 * t - a * rev[6] / k * np.cos(k * t); Az = -np.sqrt(2) * t + a * rev[5] / k * np.cos(k * t) + u
            return [-Ay * s3 - Az * s2 * c3, Ay * c3 - Az * s2 * s3, Az * c2]
        h = [Ls[d] / n[d] for d in range(3)]; hx, hy, hz = h; l = (x - hx / 2, y - hy / 2, z - hz / 2)
        Ax = lambda dy, dz: pot(x, l[1] + dy, l[2] + dz)[0]; Ay = lambda dx, dz: pot(l[0] + dx, y, l[2] + dz)[1]; Az = lambda dx, dy: pot(l[0] + dx, l[1] + dy, z)[2]
        B = [(Az(0, hy) - Az(0, 0)) / hy - (Ay(0, hz) - Ay(0, 0)) / hz, (Ax(0, hz) - Ax(0, 0)) / hz - (Az(hx, 0) - Az(0, 0)) / hx, (Ay(hx, 0) - Ay(0, 0)) / hx - (Ax(hy, 0) - Ax(0, 0)) / hy]
        sn = np.sin(k * pr(x, y, z)[0]); M = [V0 + a * sn * rev[1], a * sn * rev[2], a * sn * rev[3]]
        return dict(rho=1 + a * sn * rev[0], E=1 / gamma / (gamma - 1) + .5 * V0 ** 2 + .5 * 3.25 + a * sn * rev[4],
                    m=[M[0] * c2 * c3 - M[1] * s3 - M[2] * s2 * c3, M[0] * c2 * s3 + M[1] * c3 - M[2] * s2 * s3, M[0] * s2 + M[2] * c2], B=B, atol=6e-7 * a + 1e-9 * a, amb=amb, g=g)
    elif prob == "wedge":
        q = lambda k, d: par("wedge", k, d)
        an = q("front_angle", f32(PI / 3)); i = less(np.tan(an) * (x - q("front_x", f32(.1))), y)
        rho = sel(i, q("rho1", 8.0), q("rho2", f32(1.4))); p = sel(i, q("p1", 116.5), q("p2", 1.0))
        vel = [sel(i, q("u1", f32(8.25 * np.cos(an - PI / 2))), q("u2", 0.0)), sel(i, q("v1", f32(8.25 * np.sin(an - PI / 2))), q("v2", 0.0)), 0 * one]
    elif prob == "jet":
        q = lambda k, d: par("jet", k, d)
        rho = q("rho_bulk", .5) * one; p = q("p_bulk", f32(.4127)) * one; vel = [q(a + "_bulk", 0.0) * one for a in "uvw"]
    elif prob == "sod":
        i = less(x, .5); rho = sel(i, 1, .125); p = sel(i, 1, .1)
    elif prob == "shu_osher":
        i = less(x, -4.0); rho = sel(i, 27 / 7, 1 + np.sin(5 * x) / 5); p = sel(i, 31 / 3, 1.0); vel = [sel(i, 4 * np.sqrt(35) / 9, 0), 0 * one, 0 * one]
    else: raise KeyError(prob)
    if any(isinstance(v, str) for v in vel): r = dict(rho=rho, m=[rho * vel[0], rho * vel[1], None], E=None, p=p)
    else: r = hyd(rho, p, [v * one for v in vel[:nvel]], gamma)
    if mhd:
        r["B"] = B
        if B is not None:
            bc = list(B)
            if prob == "field_loop": bc = [.5 * (B[0] + BR[0]), .5 * (B[1] + BR[1]), B[2]]
            if prob == "wave": pass
            r["E"] = r["E"] + .5 * sum(b * b for b in bc)
        if prob == "orszag_tang":
            pass
    r["amb"] = amb; r["ambv"] = ambv; r["g"] = g; r["vel"] = vel; r["p"] = p
    return r


def cases(ctx, sdm_kinds):
    rng = ctx.rng; ser = []; par = []; cnt = {}
    kinds = [(s, None) for s in MUSCL] + [(sdm_name(*k), k[1]) for k in sdm_kinds]
    for solver, N in kinds:
        dim = 3 if "3D" in solver else 2; mhd = "MHD" in solver
        for prob in PROB[solver if not N else "S%d" % dim]:
            reps = REPS.get(prob, 1) * ctx.pick(2, 8) if not N else ctx.pick(2, 8) + REPS.get(prob, 1) - 1
            if prob == "four_quadrant" and not N: reps = ctx.pick(24, 60)
            for rep in range(reps):
                ci = cnt[prob] = cnt.get(prob, -1) + 1
                X, L = gen(rng, prob, dim, mhd, N, rep, ci)
                m = (1, 1, 1); mpi = rep % 2 == 1 or (prob in ("kelvin_helmholtz",) and rep % 3 == 2 and rep % 2 == 0)
                if mpi:
                    gs = [(a, b, c) for a in (1, 2, 3) for b in (1, 2, 3) for c in ((1, 2) if dim == 3 else (1,)) if 1 < a * b * c <= 6]
                    m = gs[int(rng.integers(len(gs)))]
                lo = 4 if not N else 3; hi = (13 if dim == 2 else 7) if not N else (7 if dim == 2 else 4)
                n = [int(rng.integers(lo, hi + 1)) for _ in range(dim)]
                if ci % 9 == 4: n[int(rng.integers(dim))] = int(rng.integers(4 * hi, 10 * hi))
                if mpi: n = [max(lo, -(-n[d] // m[d])) for d in range(dim)]
                if prob == "disk" and rep == 0: n = [q | 1 for q in n]  # a cell centred on the axis
                G = [n[d] * m[d] for d in range(dim)]
                gamma = f32(rng.choice([1.4, 1.6667, 1.3]))
                extra = {k: dict(v) for k, v in X.items()}
                if N: extra["sdm"] = dict(ssprk2=True)
                bc = [3] * 6 if prob not in ("wedge", "jet") else [2] * 6
                run = extra.pop("run", None)
                ini = solver_ini(solver, n, L, bc, problem=prob, hydro=dict(gamma0=gamma), run=run, extra=extra, mpi=m if mpi else None)
                info = dict(cls="%s:%s" % (solver if not N else "SDM%dD:N%d" % (dim, N), prob), prob=prob, dim=dim, N=N, mhd=mhd, X=X, L=L, gamma=gamma, G=G, m=m)
                c = Case("i%d_%s_%s" % (len(ser) + len(par), solver, prob), ini, ["dump i"] + (["dumpgrav g"] if prob in ("rayleigh_taylor", "rising_bubble", "disk") else []), {}, np_=int(np.prod(m)), info=info, timeout=60)
                (par if mpi else ser).append(c)
    return ser, par


def judge(ctx, c):
    if c.rec is None: return
    I = c.info; recs = c.rec if isinstance(c.rec, list) else [c.rec]
    if not all(r.complete for r in recs): return
    S = [q for q in assemble(recs) if q is not None] if I["m"] != (1, 1, 1) else [q for q in recs[0].states if q["tag"] == "i"]
    if not S: return
    Uv = S[0]["U"]; dim, N, G, L = I["dim"], I["N"], I["G"], I["L"]
    if N:
        C = sdm_coords(G, L, dim, N); V = sdm_view(Uv, dim, N); get = lambda v: V[:, :, :, v]
    else:
        C = []
        for d in range(dim):
            h = (L[d][1] - L[d][0]) / G[d]; sh = [1, 1, 1]; sh[d] = G[d]; C.append((L[d][0] + (np.arange(G[d]) + .5) * h).reshape(sh))
        get = lambda v: Uv[:, :, :, v]
    kind = "M" if I["mhd"] else "S" if N else "H"
    E = expected(I["prob"], kind, dim, I["X"], L, I["gamma"], C, G)
    if not Uv.any():
        ctx.violation("empty:" + I["cls"].split(":")[0] + ":" + I["prob"], "the problem leaves the initial state all zero %s" % I, c, I); return
    if E is None: ctx.stats["not comparable"] = ctx.stats.get("not comparable", 0) + 1; return
    ok = ~E["amb"]; ctx.observe((I["cls"], tuple(G), I["m"], c.name))
    rand = I["prob"] == "kelvin_helmholtz" and I["X"]["KH"].get("perturbation_rand")
    names = ["rho", "E", "mx", "my", "mz", "Bx", "By", "Bz"]
    want = [E["rho"], E["E"]] + list(E["m"])[:3 if (dim == 3 or I["mhd"]) else 2]
    if I["mhd"]: want += list(E["B"]) if E.get("B") is not None else [None] * 3
    ctx.stats["points compared"] = ctx.stats.get("points compared", 0) + int(ok.sum())
    if not all(np.isfinite(get(v)).all() for v in range(len(want))):
        ctx.violation("finite:" + I["cls"], "initial state is not finite: %s" % I, c, I); return
    if rand:
        rho = get(0); ampl = I["X"]["KH"]["amplitude"]; nv = dim
        if np.abs(rho - E["rho"])[ok].max() > 1e-9: ctx.violation("rho:" + I["cls"], "density of the random KH problem differs by %.3g %s" % (np.abs(rho - E["rho"])[ok].max(), I), c, I)
        vel = [get(2 + d) / rho for d in range(dim)]; dev = [vel[d] - E["vel"][d] for d in range(nv)]
        for d in range(nv):
            if np.abs(dev[d][ok]).max() > ampl / 2 * (1 + 1e-6): ctx.violation("noise:" + I["cls"], "random velocity perturbation %.3g exceeds amplitude/2=%.3g %s" % (np.abs(dev[d][ok]).max(), ampl / 2, I), c, I)
            q = dev[d][ok]
            if q.size >= 12 and (np.std(q) < ampl * .1 or abs(np.mean(q)) > ampl * (6 * .2887 / np.sqrt(q.size))): ctx.violation("noise:" + I["cls"], "velocity perturbation has mean %.3g, deviation %.3g for amplitude %.3g %s" % (np.mean(q), np.std(q), ampl, I), c, I)
        b2 = sum(get(5 + d) ** 2 for d in range(3)) if I["mhd"] else 0
        p = (get(1) - .5 * rho * sum(v * v for v in vel) - .5 * b2) * (I["gamma"] - 1)
        if np.abs(p - E["p"])[ok].max() > 1e-8 * np.abs(E["p"]).max(): ctx.violation("p:" + I["cls"], "pressure of the random KH problem off by %.3g %s" % (np.abs(p - E["p"])[ok].max(), I), c, I)
        return
    if I["prob"] == "isentropic_vortex" and dim == 3:
        rho = get(0); p = (get(1) - .5 * sum(get(2 + d) ** 2 for d in range(3)) / rho) * (I["gamma"] - 1)
        if np.abs(p - E["p"])[ok].max() > 1e-9: ctx.violation("p:" + I["cls"], "pressure off by %.3g %s" % (np.abs(p - E["p"])[ok].max(), I), c, I)
    for v, w in enumerate(want):
        if w is None: continue
        d = np.where(ok if v == 0 else ok & np.logical_not(E.get("ambv", False)), np.abs(get(v) - w), 0); sc = max(np.abs(w).max(), 1e-300) if v < 2 else max(np.abs(w).max(), 1e-3)
        lim = E["atol"] + 1e-10 if "atol" in E else 1e-9 * sc  # the wave eigenvectors are documented with 7 digits
        ctx.stat_max("max deviation" if "atol" not in E else "max deviation (wave) over its bound", d.max() / (sc if "atol" not in E else lim))
        if not d.max() <= lim:
            at = np.unravel_index(np.argmax(d), d.shape)
            ctx.violation("%s:%s" % (names[v], I["cls"]), "%s is %.9g at cell/node %s, documented initial state is %.9g (%d points differ): %s" % (names[v], get(v)[at], at, np.broadcast_to(w, d.shape)[at], int((d > lim).sum()), I), c, I)
            return
    av = E.get("ambv")
    if av is not None and av.any():
        e = np.abs(get(1) - .5 * sum(get(2 + d) ** 2 for d in range(dim)) / get(0) - E["p"] / (I["gamma"] - 1))
        sp = np.sqrt(sum(get(2 + d) ** 2 for d in range(dim))) / get(0); top = E["g"]["_vmax"]
        if not e[av].max() <= 1e-9 * np.abs(E["E"]).max(): ctx.violation("E:" + I["cls"], "energy on the axis of the disk is inconsistent with the pressure by %.3g: %s" % (e[av].max(), I), c, I)
        if not (sp[av] <= top[av] * (1 + 1e-6)).all(): ctx.violation("m:" + I["cls"], "speed %.3g on the axis of the disk, the softened rotation allows %.3g: %s" % (sp[av].max(), top[av].max(), I), c, I)
    gr = E["g"].get("_grav")
    if isinstance(gr, list):
        for r in recs:
            for q in r.states:
                if q["tag"] != "g": continue
                w = q["gw"]; o = [z["off"] for z in r.states if z["tag"] == "i"][0]; A = q["U"][w:-w, w:-w]; A = A[:, :, w:-w] if dim == 3 else A
                sl = tuple(slice(o[d], o[d] + A.shape[d]) for d in range(3)); ctx.stats["gravity fields compared"] = ctx.stats.get("gravity fields compared", 0) + 1
                for d in range(dim):
                    e = np.abs(A[..., d] - gr[d][sl]).max()
                    if not e <= 1e-9 * max(1e-3, np.abs(gr[d]).max()): ctx.violation("gravity:" + I["cls"], "gravity component %d differs by %.3g from the documented field: %s" % (d, e, I), c, I); return


def run(ctx):
    ctx.rule = "one initial global state (all interior cells or solution points, all variables) compared with an independent evaluation of the documented problem; distinct by solver, problem, parameters, grid and process grid"
    ctx.assumptions += ["problems that need gravity are run with gravity enabled", "points within 1e-9 of a discontinuity are not judged",
                        "random Kelvin-Helmholtz perturbation: judged by density, pressure, bound, spread and mean of the noise", "2D problems of the 3D spectral-difference solver carry no statement on the z momentum of the isentropic vortex"]
    kinds = ctx.pick([(2, 1), (2, 2), (2, 3), (2, 4), (3, 2), (3, 3)], SDM_KINDS)
    bs = Build(ctx, sdm=True, sdm_kinds=kinds); bm = Build(ctx, mpi=True, sdm=True, sdm_kinds=kinds)
    ser, par = cases(ctx, kinds)
    ctx.run(ser, bs); ctx.run(par, bm, mpi=True)
    for c in ser + par: judge(ctx, c)
    for c in (ser[0], ser[len(ser) // 2], par[-1]): ctx.sample("%s on %s processes %s: %s" % (c.info["cls"], c.info["G"], c.info["m"], c.info["X"]))
    ctx.stats["runs"] = len(ser) + len(par); ctx.stats["classes"] = len({c.info["cls"] for c in ser + par}); ctx.min_evals = 150


if __name__ == "__main__": main("P20", run)
