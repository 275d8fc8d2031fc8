"""Definitions of the planted bugs (see seed.py)."""
SEEDS = {}


def seed(id, property, edits, needs, what, demo, **k):
    SEEDS[id] = dict(property=property, edits=edits, needs=needs, what=what, demo=demo, **k)


M2H, M3H = "src/muscl/HydroRunFunctors2D.h", "src/muscl/HydroRunFunctors3D.h"
M2M, M3M = "src/muscl/MHDRunFunctors2D.h", "src/muscl/MHDRunFunctors3D.h"

# ---- P01 -----------------------------------------------------------------------------------
seed("p01-emf-corner-z", "P01",
     [(M3M, """      if (k > ghostWidth and j < jsize - ghostWidth and i < isize - ghostWidth)
      {
        Kokkos::atomic_add(&Udata(i    , j    , k - 1 , IB), emfX * dtdz);""",
       """      if (k > ghostWidth and j < jsize - ghostWidth and i < isize - ghostWidth - 1)
      {
        Kokkos::atomic_add(&Udata(i    , j    , k - 1 , IB), emfX * dtdz);""")],
     "3D MHD with the atomics variant of the EMF update and a y magnetic field that changes in the last x column of cells",
     "the y magnetic field of the last column of cells misses one of its two EMF_x contributions, so mean By drifts",
     '''
b = Build(ctx)
n, L = [6, 5, 7], [(0., 1.), (0., 1.25), (0., .75)]
cs = []
for impl in (0, 1, 2):
    U = state(np.random.default_rng(5), "MHD_Muscl_3D", n, L, "mixed", drho=.3, dp=.3)
    cs.append(Case("c%d" % impl, solver_ini("MHD_Muscl_3D", n, L, hydro=dict(cfl=.3), other=dict(implementationVersion=impl)), ["inject U", "dump s", "step 3"], {"U": U}))
for c in ctx.run(cs, b):
    A = [s["U"][..., IB].sum() for s in c.rec.states]
    expect(abs(A[-1] - A[0]) < 1e-10 * np.abs(c.rec.states[0]["U"][..., IB]).sum(), "mean By kept (%s): %.3e" % (c.name, A[-1] - A[0]))
''')

# ---- P02 -----------------------------------------------------------------------------------
seed("p02-emf-metric", "P02",
     [(M2M, """      Kokkos::atomic_add(&Udata(i    , j - 1, IA), emfZ * dtdy);
      Kokkos::atomic_sub(&Udata(i - 1, j    , IB), emfZ * dtdx);
      // clang-format on
    }
  }

  DataArray2d QEdge_RT, QEdge_RB, QEdge_LT, QEdge_LB, Udata;""",
       """      Kokkos::atomic_add(&Udata(i    , j - 1, IA), emfZ * dtdx);
      Kokkos::atomic_sub(&Udata(i - 1, j    , IB), emfZ * dtdx);
      // clang-format on
    }
  }

  DataArray2d QEdge_RT, QEdge_RB, QEdge_LT, QEdge_LB, Udata;""")],
     "2D MHD, the atomics EMF variant, and cells that are not square",
     "one of the four EMF contributions uses the wrong mesh spacing: div B grows when dx != dy",
     '''
b = Build(ctx)
n, L = [8, 6], [(0., 1.), (0., 1.5)]
cs = []
for impl in (0, 1, 2):
    U = state(np.random.default_rng(5), "MHD_Muscl_2D", n, L, "mixed", drho=.3, dp=.3)
    cs.append(Case("c%d" % impl, solver_ini("MHD_Muscl_2D", n, L, hydro=dict(cfl=.3), other=dict(implementationVersion=impl)), ["inject U", "dump s", "step 3"], {"U": U}))
for c in ctx.run(cs, b):
    d = np.abs(divB(c.rec.states[-1]["U"], [1 / 8., 1.5 / 6], 2)).max()
    expect(d < 1e-10, "div B %s: %.3e" % (c.name, d))
''')

# ---- P04 -----------------------------------------------------------------------------------
seed("p04-impl1-slope-z", "P04",
     [(M3H, "        Udata(i, j, k, IW) -= FluxData(i, j, k + 1, IW);\n      }\n\n    } // end if\n\n  } // end operator ()\n\n  DataArray3d Udata;\n  DataArray3d FluxData;\n\n}; // UpdateDirFunctor3D",
       "        Udata(i, j, k, IW) -= FluxData(i, j, k + 1, IU);\n      }\n\n    } // end if\n\n  } // end operator ()\n\n  DataArray3d Udata;\n  DataArray3d FluxData;\n\n}; // UpdateDirFunctor3D")],
     "3D hydro, implementation variant 1, flow varying along z",
     "variant 1 updates z momentum with the x component of the upper z flux, so it disagrees with variant 0",
     '''
b = Build(ctx)
n, L = [6, 5, 7], [(0., 1.), (0., 1.25), (0., .75)]
U = state(np.random.default_rng(5), "Hydro_Muscl_3D", n, L, "mixed", drho=.3, dp=.3)
cs = [Case("c%d" % i, solver_ini("Hydro_Muscl_3D", n, L, hydro=dict(cfl=.3), other=dict(implementationVersion=i)), ["inject U", "dump s", "step 2"], {"U": U}) for i in (0, 1)]
g = ctx.run(cs, b)
d = np.abs(g[0].rec.states[-1]["U"] - g[1].rec.states[-1]["U"]).max()
expect(d < 1e-10, "variants agree: %.3e" % d)
''')

# ---- P12 -----------------------------------------------------------------------------------
seed("p12-last-layer", "P12",
     [(M3H, """    if (k >= ghostWidth and k < ksize - ghostWidth and j >= ghostWidth and
        j < jsize - ghostWidth and i >= ghostWidth and i < isize - ghostWidth)
    {

      HydroState uLoc; // conservative    variables in current cell
      HydroState qLoc; // primitive    variables in current cell
      real_t     c = 0.0;
      real_t     vx, vy, vz;
""", """    if (k >= ghostWidth and k < jsize - ghostWidth and j >= ghostWidth and
        j < jsize - ghostWidth and i >= ghostWidth and i < isize - ghostWidth)
    {

      HydroState uLoc; // conservative    variables in current cell
      HydroState qLoc; // primitive    variables in current cell
      real_t     c = 0.0;
      real_t     vx, vy, vz;
""")],
     "3D hydro grid with more cells along z than along y, fastest signal in the upper z layers",
     "the time step ignores the cells above z index ny, so it exceeds the stability limit",
     '''
b = Build(ctx)
n, L = [4, 5, 9], [(0., 1.), (0., 1.), (0., 1.)]
U = np.zeros((4, 5, 9, 5)); U[..., ID] = 1; U[..., IP] = 2.5
U[2, 2, 8, IP] = 250.0
c = Case("c", solver_ini("Hydro_Muscl_3D", n, L, hydro=dict(cfl=.3)), ["inject U", "dump s", "step 1"], {"U": U})
g = ctx.run([c], b)
dt = g[0].rec.states[-1]["dt"]; ref = 0.3 / (np.sqrt(1.4 * 100) * (4 + 5 + 9))
expect(abs(dt / ref - 1) < 1e-6, "dt %.6e expected %.6e" % (dt, ref))
''')

# ---- P10 -----------------------------------------------------------------------------------
seed("p10-slope-z", "P10",
     [("src/muscl/HydroBaseFunctor3D.h", "drgt = slope_type * (qPlusZ - q);", "drgt = (qPlusZ - q);")],
     "3D hydro or MHD with slope_type=2 and data varying along z",
     "the forward slope along z is not weighted by slope_type: the z direction is limited differently from x and y, and from its mirror image",
     '''
b = Build(ctx)
n, L = [6, 5, 7], [(0., 1.), (0., 1.25), (0., .75)]
U = state(np.random.default_rng(5), "Hydro_Muscl_3D", n, L, "mixed", drho=.3, dp=.3)
V = U[:, :, ::-1].copy(); V[..., IW] *= -1
cs = [Case("c%d%d" % (st, i), solver_ini("Hydro_Muscl_3D", n, L, hydro=dict(cfl=.3, slope_type=st)), ["inject U", "dump s", "step 2"], {"U": X}) for st in (1, 2) for i, X in enumerate((U, V))]
g = ctx.run(cs, b)
for k in (0, 2):
    W = g[k + 1].rec.states[-1]["U"][:, :, ::-1].copy(); W[..., IW] *= -1
    d = np.abs(g[k].rec.states[-1]["U"] - W).max()
    expect(d < 1e-10, "mirror image along z, slope_type %d: %.3e" % (1 + k // 2, d))
''')

# ---- P13 -----------------------------------------------------------------------------------
seed("p13-llf-transverse", "P13",
     [("src/shared/RiemannSolvers.h", """  // Compute average velocity
  qgdnv[IU] = HALF_F * (qleft[IU] + qright[IU]);

  //================================
  // Compute conservative variables
  //================================
  HydroState uleft, uright;
  // mass density
  uleft[ID] = qleft[ID];
  uright[ID] = qright[ID];

  // total energy
  uleft[IP] = qleft[IP] * entho + HALF_F * qleft[ID] * qleft[IU] * qleft[IU];
  uright[IP] = qright[IP] * entho + HALF_F * qright[ID] * qright[IU] * qright[IU];

  uleft[IP] += HALF_F * qleft[ID] * qleft[IV] * qleft[IV];
  uright[IP] += HALF_F * qright[ID] * qright[IV] * qright[IV];

  if (std::is_same<HydroState, HydroState3d>::value)
  {
    uleft[IP] += HALF_F * qleft[ID] * qleft[IW] * qleft[IW];
    uright[IP] += HALF_F * qright[ID] * qright[IW] * qright[IW];""",
      """  // Compute average velocity
  qgdnv[IU] = HALF_F * (qleft[IU] + qright[IU]);

  //================================
  // Compute conservative variables
  //================================
  HydroState uleft, uright;
  // mass density
  uleft[ID] = qleft[ID];
  uright[ID] = qright[ID];

  // total energy
  uleft[IP] = qleft[IP] * entho + HALF_F * qleft[ID] * qleft[IU] * qleft[IU];
  uright[IP] = qright[IP] * entho + HALF_F * qright[ID] * qright[IU] * qright[IU];

  uleft[IP] += HALF_F * qleft[ID] * qleft[IV] * qleft[IV];
  uright[IP] += HALF_F * qright[ID] * qright[IV] * qright[IV];

  if (std::is_same<HydroState, HydroState3d>::value)
  {
    uleft[IP] += HALF_F * qleft[ID] * qleft[IW] * qleft[IW];
    uright[IP] += HALF_F * qright[ID] * qleft[IW] * qright[IW];""")],
     "3D hydro with the llf solver and a jump of the z velocity (or the velocity exchanged with it) across an interface",
     "the right energy uses the product of the left and right transverse velocities: the flux of the mirrored states is not the mirrored flux",
     '''
b = Build(ctx)
n, L = [6, 5, 7], [(0., 1.), (0., 1.25), (0., .75)]
U = state(np.random.default_rng(5), "Hydro_Muscl_3D", n, L, "mixed", drho=.3, dp=.3)
V = U[::-1].copy(); V[..., IU] *= -1
cs = [Case("c%s%d" % (rs, i), solver_ini("Hydro_Muscl_3D", n, L, hydro=dict(cfl=.3, riemann=rs)), ["inject U", "dump s", "step 1"], {"U": X}) for rs in ("hllc", "llf") for i, X in enumerate((U, V))]
g = ctx.run(cs, b)
for k in (0, 2):
    W = g[k + 1].rec.states[-1]["U"][::-1].copy(); W[..., IU] *= -1
    d = np.abs(g[k].rec.states[-1]["U"] - W).max()
    expect(d < 1e-10, "mirrored states give mirrored fluxes, %s: %.3e" % (["hllc", "llf"][k // 2], d))
''')

# ---- P14 -----------------------------------------------------------------------------------
seed("p14-bool-on", "P14",
     [("src/utils/config/ConfigMap.cpp", """      !valstr.compare("on"))
    val = true;""", """      !valstr.compare(0, 2, "on"))
    val = true;"""),
      ("src/utils/config/ConfigMap.cpp", """  // if valstr is empty, return the default value
  if (!valstr.size())
    val = default_value;""", """  // if valstr is empty, return the default value
  if (valstr.size() < 2)
    val = default_value;""")],
     "a boolean parameter written as the single digit 1 or 0 with the opposite default, or a text starting with on",
     "booleans written 1 or 0 silently take their default value",
     '''
import subprocess
src = os.environ["PPK_REPO"] + "/src/"
prog = r"""
#include "utils/config/ConfigMap.h"
#include <cstdio>
int main(int, char ** v) { ConfigMap c(v[1]);
  for (int d = 0; d < 2; ++d) for (const char * k : {"a", "b", "c", "d", "e", "f", "g", "h", "i"}) std::printf("%d", (int) c.getBool("s", k, d)); std::puts(""); }
"""
T = ctx.tmp; open(T + "/m.cpp", "w").write(prog)
open(T + "/p.ini", "w").write("[s]\\na=1\\nb=0\\nc=yes\\nd=no\\ne=true\\nf=false\\ng=on\\nh=off\\n")
subprocess.run(["g++", "-std=c++17", "-I" + src, T + "/m.cpp"] + [src + "utils/config/" + f for f in ("ConfigMap.cpp", "inih/ini.cpp", "inih/INIReader.cpp")] + ["-o", T + "/m"], check=True)
o = subprocess.run([T + "/m", T + "/p.ini"], stdout=subprocess.PIPE).stdout.decode().split()[0]
expect(o == "101010100" + "101010101", "booleans read as written: " + o)
''')

# ---- P17 -----------------------------------------------------------------------------------
seed("p17-rk54-stage2", "P17",
     [("src/sdm/SolverHydroSDM.h", "{ 0.444370493651235, 0.555629506348765, -0.368410593050371 }", "{ 0.444370493651235, 0.555629506348765, -0.364810593050371 }")],
     "spectral difference with the ssprk54 integrator and a solution that changes in time",
     "two digits of a Runge-Kutta coefficient are exchanged: the integrator is no longer of fourth order (constants and conservation are not affected)",
     '''
b = Build(ctx, sdm=True, sdm_kinds=[(2, 3)])
n, L = [4, 4], [(0., 1.), (0., 1.)]
U = sdm_state(np.random.default_rng(5), n, L, 2, 3, "smooth")
cs = []
for integ in ("ssprk3", "ssprk54"):
    for k in (4, 8, 16):
        cs.append(Case("%s%d" % (integ, k), solver_ini(sdm_name(2, 3), n, L, hydro=dict(cfl=.9, riemann="llf"), extra=dict(sdm={integ: True})), ["inject U"] + ["tend %.17g" % (.016 / k), "stepq 1"] * k, {"U": U}))
g = ctx.run(cs, b)
for q, (integ, p) in enumerate((("ssprk3", 3), ("ssprk54", 4))):
    S = [c.rec.states[-1]["U"] for c in g[3 * q:3 * q + 3]]
    o = np.log2(np.abs(S[0] - S[1]).mean() / np.abs(S[1] - S[2]).mean())
    expect(o > p - .6, "order in time of %s: %.2f" % (integ, o))
''')

# ---- P21 -----------------------------------------------------------------------------------
seed("p21-kinetic-energy", "P21",
     [(M3H, "      real_t ekin_old = 0.5 * (rhou * rhou + rhov * rhov + rhow * rhow) / rhoNew;", "      real_t ekin_old = 0.5 * (rhou * rhou + rhov * rhov + rhow * rhow) / rhoOld;")],
     "3D gravity in a flow whose density changes during a step",
     "the kinetic energy removed before the gravity kick is evaluated with the density of the previous step, so the energy changes by more than the work of gravity",
     '''
b = Build(ctx)
n, L = [6, 5, 7], [(0., 1.), (0., 1.25), (0., .75)]
U = state(np.random.default_rng(5), "Hydro_Muscl_3D", n, L, "mixed", drho=.3, dp=.3)
G = np.zeros((10, 9, 11, 3)); G[..., 2] = -.7; G[..., 0] = .2
g = ctx.run([Case("c", solver_ini("Hydro_Muscl_3D", n, L, hydro=dict(cfl=.3), extra=dict(gravity=dict(static=True))), ["inject U", "gravity G", "dump s", "step 1"], {"U": U, "G": G})], b)
A, B = [s["U"] for s in g[0].rec.states]; dt = g[0].rec.states[1]["dt"]
dE = (B[..., IP] - A[..., IP]).sum()
m = [B[..., IU + d] for d in range(3)]; mo = [m[d] - .5 * dt * (A[..., ID] + B[..., ID]) * G[0, 0, 0, d] for d in range(3)]
w = (.5 * (sum(x * x for x in m) - sum(x * x for x in mo)) / B[..., ID]).sum()
expect(abs(dE - w) < 1e-10 * B[..., IP].sum(), "energy change %.12g, change of kinetic energy by gravity %.12g" % (dE, w))
''')

# ---- P23 -----------------------------------------------------------------------------------
seed("p23-minmod-z", "P23",
     [("src/sdm/SDM_Limiter_Functors.h", "DuZ_new[ivar] = minmod(DuZ[ivar], beta * DuZL[ivar], beta * DuZR[ivar], Mdx2);", "DuZ_new[ivar] = minmod(DuZ[ivar], beta * DuZR[ivar], beta * DuZR[ivar], Mdx2);")],
     "3D spectral difference with the limiter, a cell average that is an extremum along z, and a cell gradient that has the sign of the upper difference",
     "the lower neighbour along z is ignored by the limiter: a local extremum keeps a slope",
     '''
b = Build(ctx, sdm=True, sdm_kinds=[(3, 2)])
n, L = [3, 3, 6], [(0., 1.)] * 3
rho = np.array([1., 1., 1.5, 1., 1., 1.])[None, None, :, None, None, None] + np.zeros((3, 3, 6, 2, 2, 2))
rho[:, :, 2] += np.array([.1, -.1])[:, None, None]          # decreases along z in the extremum
U = np.zeros((3, 3, 6, 5, 2, 2, 2)); U[:, :, :, ID] = rho; U[:, :, :, IP] = 2.5
ini = solver_ini(sdm_name(3, 2), n, L, hydro=dict(cfl=.1), extra=dict(sdm=dict(limiter_enabled=True, M_TVB=0.0, ssprk2=True)))
g = ctx.run([Case("c", ini, ["inject U", "op pre", "op limit", "dump s"], {"U": U.reshape(3, 3, 6, 40)})], b)
R = g[0].rec.states[-1]["U"].reshape(3, 3, 6, 5, 2, 2, 2)[:, :, 2, ID]
d = np.abs(R - R.mean(axis=(2, 3, 4), keepdims=True)).max()
expect(d < 1e-10, "the extremum keeps no slope: %.3e" % d)
''')
