/*
 * hx : execution recorder.
 *
 *   hx case.ini script.txt out.bin
 *
 * Builds the solver named in case.ini through the real factory, drives it through its public
 * interface as the script says, and records what it observes (state arrays, t, dt, iteration) in
 * out.bin (out.bin.<rank> under MPI).  It judges nothing: the oracles are in Python.
 *
 * script, one command per line:
 *   inject F        overwrite interior of the current state with raw doubles of F: global array
 *                   [nx][ny](nz][nv] in C order (each MPI process takes its block)
 *   injectfull F    same, ghosts included (local array)
 *   gravity F       overwrite gravity field (ghosts included, local) with raw doubles
 *   dump TAG        record the interior       dumpfull TAG   record ghosts too
 *   dumpgrav TAG    record gravity field
 *   bnd             apply the boundary update to the current state
 *   step N          N times: stop if finished, next_iteration, record interior
 *   stepq N         same, records only the last state, (meta records for each)
 *   tend X          set end time to current time + X
 *   tendabs X       set end time
 *   op NAME         SDM only: limit | pos | pre | fdiv | (operator under test on current state)
 *   save            save_solution()
 *   meta            record t, dt, iteration, finished
 */
#include "shared/kokkos_shared.h"
#include "shared/real_type.h"
#include "shared/HydroParams.h"
#include "shared/SolverBase.h"
#include "shared/SolverFactory.h"
#include "muscl/SolverHydroMuscl.h"
#include "muscl/SolverMHDMuscl.h"
#ifdef HX_SDM
#  include "sdm/SolverHydroSDM.h"
#endif
#ifdef USE_MPI
#  include "utils/mpiUtils/GlobalMpiSession.h"
#  include <mpi.h>
#endif
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <functional>
#include <iostream>
#include <memory>
#include <sstream>
#include <vector>

using namespace ppkMHD;

static FILE * out = nullptr;

#ifdef HX_GOMP
#  include "gomp.inc"
#endif

#ifdef HX_EXTRA
namespace sdx
{
template <int dim, int N>
bool
run(SolverBase * b, const std::string & line, FILE * out);
}
#  include "hx_extra.h" // generated: bool hx_extra(SolverBase*, const std::string&, FILE*)
#endif

static void
die(const std::string & m)
{
  std::cerr << "HX-ERROR " << m << std::endl;
  std::exit(3);
}

static std::vector<double>
slurp(const std::string & f)
{
  std::ifstream is(f, std::ios::binary | std::ios::ate);
  if (!is)
    die("cannot read " + f);
  size_t              n = is.tellg();
  std::vector<double> v(n / sizeof(double));
  is.seekg(0);
  is.read((char *)v.data(), v.size() * sizeof(double));
  return v;
}

struct Geo
{
  int dim, gw, n[3], s[3], off[3], tot[3]; // interior size, full size, global offset, global size
};

static Geo
geo(const HydroParams & p)
{
  Geo g;
  g.dim = p.dimType == TWO_D ? 2 : 3;
  g.gw = p.ghostWidth;
  int nn[3] = { p.nx, p.ny, g.dim == 3 ? p.nz : 1 };
  int ss[3] = { p.isize, p.jsize, g.dim == 3 ? p.ksize : 1 };
  for (int d = 0; d < 3; ++d)
  {
    g.n[d] = nn[d];
    g.s[d] = ss[d];
    g.off[d] = 0;
    g.tot[d] = nn[d];
  }
#ifdef USE_MPI
  int m[3] = { p.mx, p.my, g.dim == 3 ? p.mz : 1 };
  for (int d = 0; d < g.dim; ++d)
  {
    g.off[d] = p.myMpiPos[d] * nn[d];
    g.tot[d] = m[d] * nn[d];
  }
#endif
  return g;
}

static double
get(const DataArray2d & a, int i, int j, int, int v)
{
  return a(i, j, v);
}
static double
get(const DataArray3d & a, int i, int j, int k, int v)
{
  return a(i, j, k, v);
}
static void
put(const DataArray2d & a, int i, int j, int, int v, double x)
{
  a(i, j, v) = x;
}
static void
put(const DataArray3d & a, int i, int j, int k, int v, double x)
{
  a(i, j, k, v) = x;
}
static int
nvars(const DataArray2d & a)
{
  return a.extent(2);
}
static int
nvars(const DataArray3d & a)
{
  return a.extent(3);
}

template <class A>
void
record(const A & a, const Geo & g, bool full, const SolverBase & s, const std::string & tag)
{
  int lo[3], hi[3];
  for (int d = 0; d < 3; ++d)
  {
    bool act = d < g.dim;
    lo[d] = (!full && act) ? g.gw : 0;
    hi[d] = full ? g.s[d] : lo[d] + g.n[d];
  }
  int nv = nvars(a);
  fprintf(out,
          "state tag=%s it=%d t=%a dt=%a shape=%d,%d,%d,%d off=%d,%d,%d tot=%d,%d,%d full=%d gw=%d dim=%d\n",
          tag.c_str(), s.m_iteration, s.m_t, s.m_dt, hi[0] - lo[0], hi[1] - lo[1], hi[2] - lo[2], nv,
          g.off[0], g.off[1], g.off[2], g.tot[0], g.tot[1], g.tot[2], (int)full, g.gw, g.dim);
  std::vector<double> b;
  b.reserve((size_t)(hi[0] - lo[0]) * (hi[1] - lo[1]) * (hi[2] - lo[2]) * nv);
  for (int i = lo[0]; i < hi[0]; ++i)
    for (int j = lo[1]; j < hi[1]; ++j)
      for (int k = lo[2]; k < hi[2]; ++k)
        for (int v = 0; v < nv; ++v)
          b.push_back(get(a, i, j, k, v));
  fwrite(b.data(), sizeof(double), b.size(), out);
}

template <class A>
void
inject(const A & a, const Geo & g, bool full, const std::string & file)
{
  auto   v = slurp(file);
  int    nv = nvars(a);
  size_t need = nv;
  for (int d = 0; d < 3; ++d)
    need *= full ? g.s[d] : g.tot[d];
  if (v.size() != need)
    die("inject size mismatch " + file);
  if (full)
  {
    size_t c = 0;
    for (int i = 0; i < g.s[0]; ++i)
      for (int j = 0; j < g.s[1]; ++j)
        for (int k = 0; k < g.s[2]; ++k)
          for (int q = 0; q < nv; ++q)
            put(a, i, j, k, q, v[c++]);
  }
  else
  {
    int kg = g.dim == 3 ? g.gw : 0;
    for (int i = 0; i < g.n[0]; ++i)
      for (int j = 0; j < g.n[1]; ++j)
        for (int k = 0; k < g.n[2]; ++k)
          for (int q = 0; q < nv; ++q)
          {
            size_t c = (((size_t)(i + g.off[0]) * g.tot[1] + (j + g.off[1])) * g.tot[2] + (k + g.off[2])) * nv + q;
            put(a, i + g.gw, j + g.gw, k + kg, q, v[c]);
          }
  }
}

// type-erased access to a concrete solver
struct Acc
{
  std::function<void(bool, const std::string &)> dump;
  std::function<void(bool, const std::string &)> inj;
  std::function<void()>                          bnd;
  std::function<void(const std::string &)>       op;
  std::function<void(const std::string &, bool)> grav;
  bool                                           ok = false;
};

template <class S>
bool
tryMuscl(SolverBase * b, Acc & A, const Geo & g)
{
  S * s = dynamic_cast<S *>(b);
  if (!s)
    return false;
  auto cur = [s]() { return s->m_iteration % 2 == 0 ? s->U : s->U2; };
  A.dump = [=](bool full, const std::string & tag) { record(cur(), g, full, *s, tag); };
  A.inj = [=](bool full, const std::string & f) { inject(cur(), g, full, f); };
  A.bnd = [=]() { s->make_boundaries(cur()); };
  A.op = [](const std::string & o) { die("op " + o); };
  A.ok = true;
  return true;
}

template <int dim>
bool
tryHydro(SolverBase * b, Acc & A, const Geo & g)
{
  using S = muscl::SolverHydroMuscl<dim>;
  S * s = dynamic_cast<S *>(b);
  if (!tryMuscl<S>(b, A, g))
    return false;
  A.grav = [=](const std::string & f, bool rec) {
    if constexpr (dim == 2)
    {
      if (rec)
      {
        fprintf(out, "state tag=%s it=%d t=%a dt=%a shape=%d,%d,1,2 off=0,0,0 tot=0,0,0 full=1 gw=%d dim=2\n",
                f.c_str(), s->m_iteration, s->m_t, s->m_dt, g.s[0], g.s[1], g.gw);
        for (int i = 0; i < g.s[0]; ++i)
          for (int j = 0; j < g.s[1]; ++j)
            for (int q = 0; q < 2; ++q)
            {
              double x = s->gravity(i, j, q);
              fwrite(&x, 8, 1, out);
            }
        return;
      }
      auto   v = slurp(f);
      size_t c = 0;
      for (int i = 0; i < g.s[0]; ++i)
        for (int j = 0; j < g.s[1]; ++j)
          for (int q = 0; q < 2; ++q)
            s->gravity(i, j, q) = v.at(c++);
    }
    else
    {
      if (rec)
      {
        fprintf(out, "state tag=%s it=%d t=%a dt=%a shape=%d,%d,%d,3 off=0,0,0 tot=0,0,0 full=1 gw=%d dim=3\n",
                f.c_str(), s->m_iteration, s->m_t, s->m_dt, g.s[0], g.s[1], g.s[2], g.gw);
        for (int i = 0; i < g.s[0]; ++i)
          for (int j = 0; j < g.s[1]; ++j)
            for (int k = 0; k < g.s[2]; ++k)
              for (int q = 0; q < 3; ++q)
              {
                double x = s->gravity(i, j, k, q);
                fwrite(&x, 8, 1, out);
              }
        return;
      }
      auto   v = slurp(f);
      size_t c = 0;
      for (int i = 0; i < g.s[0]; ++i)
        for (int j = 0; j < g.s[1]; ++j)
          for (int k = 0; k < g.s[2]; ++k)
            for (int q = 0; q < 3; ++q)
              s->gravity(i, j, k, q) = v.at(c++);
    }
  };
  return true;
}

#ifdef HX_SDM
template <int dim, int N>
bool
trySdm(SolverBase * b, Acc & A, const Geo & g)
{
  using S = sdm::SolverHydroSDM<dim, N>;
  S * s = dynamic_cast<S *>(b);
  if (!s)
    return false;
  A.dump = [=](bool full, const std::string & tag) { record(s->U, g, full, *s, tag); };
  A.inj = [=](bool full, const std::string & f) { inject(s->U, g, full, f); };
  A.bnd = [=]() { s->make_boundaries(s->U); };
  A.op = [=](const std::string & o) {
    if (o == "limit")
      s->apply_limiting(s->U);
    else if (o == "pos")
      s->apply_positivity_preserving(s->U);
    else if (o == "pre")
      s->apply_pre_step_computation(s->U);
    else if (o == "dt")
      s->compute_dt();
    else if (o == "fdiv")
      s->compute_fluxes_divergence(s->U, s->Uaux, s->m_dt);
    else if (o == "showfdiv")
      record(s->Uaux, g, false, *s, "fdiv");
    else if (o == "showavg")
      record(s->Uaverage, g, true, *s, "avg");
    else
      die("op " + o);
  };
  A.ok = true;
  return true;
}
#endif

static void
meta(SolverBase * s)
{
  fprintf(out, "meta it=%d t=%a dt=%a fin=%d saved=%d tend=%a\n", s->m_iteration, s->m_t, s->m_dt,
          s->finished(), s->m_times_saved, s->m_tEnd);
}

#ifdef HX_CUSTOM_MAIN
int
hx_main(int argc, char * argv[])
#else
int
main(int argc, char * argv[])
#endif
{
  if (argc < 4)
    return 3;
#ifdef USE_MPI
  hydroSimu::GlobalMpiSession mpiSession(&argc, &argv);
#endif
  Kokkos::initialize(argc, argv);
  {
    std::string fn = argv[3];
#ifdef USE_MPI
    int r;
    MPI_Comm_rank(MPI_COMM_WORLD, &r);
    fn += "." + std::to_string(r);
#endif
    out = fopen(fn.c_str(), "wb");
    if (!out)
      die("cannot open " + fn);

    ConfigMap   cfg = broadcast_parameters(std::string(argv[1]));
    HydroParams params = HydroParams();
    params.setup(cfg);
    SolverBase * s =
      SolverFactory::Instance().create(cfg.getString("run", "solver_name", "Unknown"), params, cfg);
    if (!s)
      die("no solver");
    Geo g = geo(params);
    Acc A;
    tryHydro<2>(s, A, g) || tryHydro<3>(s, A, g) || tryMuscl<muscl::SolverMHDMuscl<2>>(s, A, g) ||
      tryMuscl<muscl::SolverMHDMuscl<3>>(s, A, g)
#ifdef HX_SDM
      || trySdm<2, 1>(s, A, g) || trySdm<2, 2>(s, A, g) || trySdm<2, 3>(s, A, g) || trySdm<2, 4>(s, A, g) ||
      trySdm<2, 5>(s, A, g) || trySdm<2, 6>(s, A, g) || trySdm<3, 2>(s, A, g) || trySdm<3, 3>(s, A, g) ||
      trySdm<3, 4>(s, A, g)
#endif
      ;
    if (!A.ok)
      die("unknown solver type");

    fprintf(out, "geom dx=%a dy=%a dz=%a xmin=%a ymin=%a zmin=%a nbvar=%d gamma=%a\n", (double)params.dx,
            (double)params.dy, (double)params.dz, (double)params.xmin, (double)params.ymin,
            (double)params.zmin, params.nbvar, (double)params.settings.gamma0);
#ifdef USE_MPI
    fprintf(out, "mpi rank=%d pos=%d,%d,%d nbr=%d,%d,%d,%d,%d,%d bc=%d,%d,%d,%d,%d,%d\n", params.myRank,
            params.myMpiPos[0], params.myMpiPos[1], g.dim == 3 ? params.myMpiPos[2] : 0,
            params.neighborsRank[0], params.neighborsRank[1], params.neighborsRank[2], params.neighborsRank[3],
            g.dim == 3 ? params.neighborsRank[4] : -9, g.dim == 3 ? params.neighborsRank[5] : -9,
            params.neighborsBC[0], params.neighborsBC[1], params.neighborsBC[2], params.neighborsBC[3],
            g.dim == 3 ? params.neighborsBC[4] : -9, g.dim == 3 ? params.neighborsBC[5] : -9);
#endif
    meta(s);
    std::ifstream sc(argv[2]);
    std::string   line;
    while (std::getline(sc, line))
    {
      std::istringstream is(line);
      std::string        c, a;
      is >> c >> a;
      if (c.empty() || c[0] == '#')
        continue;
      if (c == "inject")
        A.inj(false, a);
      else if (c == "injectfull")
        A.inj(true, a);
      else if (c == "dump")
        A.dump(false, a);
      else if (c == "dumpfull")
        A.dump(true, a);
      else if (c == "gravity")
        A.grav(a, false);
      else if (c == "dumpgrav")
        A.grav(a, true);
      else if (c == "bnd")
        A.bnd();
      else if (c == "op")
        A.op(a);
      else if (c == "tend")
        s->m_tEnd = s->m_t + std::atof(a.c_str());
      else if (c == "tendabs")
        s->m_tEnd = std::atof(a.c_str());
      else if (c == "save")
        s->save_solution();
      else if (c == "meta")
        meta(s);
      else if (c == "step" || c == "stepq")
      {
        int n = std::atoi(a.c_str());
        for (int q = 0; q < n && !s->finished(); ++q)
        {
          s->next_iteration();
          meta(s);
          if (c == "step")
            A.dump(false, "s");
        }
        if (c == "stepq")
          A.dump(false, "s");
      }
#ifdef HX_EXTRA
      else if (hx_extra(s, line, out))
        ;
#endif
      else
        die("bad command " + c);
    }
#ifdef HX_GOMP
    fprintf(out, "gomp regions=%ld calls=%ld nt=%d conc=%d\n", vomp::regions, vomp::chunks, vomp::maxThreads, Kokkos::OpenMP::concurrency());
#endif
    fprintf(out, "end\n");
    fclose(out);
    delete s;
  }
  Kokkos::finalize();
  return 0;
}
