// Operators of one spectral-difference solver, run one at a time on injected data (no judgement here).
#pragma once
#include "sdm/SolverHydroSDM.h"
#include <cstdio>
#include <cstdlib>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>

namespace sdx
{
using namespace ppkMHD;
using namespace ppkMHD::sdm;

inline double
at(const DataArray2d & a, int i, int j, int, int v)
{
  return a(i, j, v);
}
inline double
at(const DataArray3d & a, int i, int j, int k, int v)
{
  return a(i, j, k, v);
}
inline double &
ref(const DataArray2d & a, int i, int j, int, int v)
{
  return a(i, j, v);
}
inline double &
ref(const DataArray3d & a, int i, int j, int k, int v)
{
  return a(i, j, k, v);
}
inline int
ext(const DataArray2d & a, int d)
{
  return d == 2 ? 1 : d == 3 ? (int)a.extent(2) : (int)a.extent(d);
}
inline int
ext(const DataArray3d & a, int d)
{
  return (int)a.extent(d);
}

template <class A, class F>
void
each(const A & a, F f)
{
  for (int i = 0; i < ext(a, 0); ++i)
    for (int j = 0; j < ext(a, 1); ++j)
      for (int k = 0; k < ext(a, 2); ++k)
        for (int v = 0; v < ext(a, 3); ++v)
          f(i, j, k, v);
}

template <class A, class S>
void
rec(FILE * out, const A & a, S * s, const std::string & tag, int dim)
{
  fprintf(out, "state tag=%s it=%d t=%a dt=%a shape=%d,%d,%d,%d off=0,0,0 tot=0,0,0 full=1 gw=%d dim=%d\n", tag.c_str(),
          s->m_iteration, s->m_t, s->m_dt, ext(a, 0), ext(a, 1), ext(a, 2), ext(a, 3), s->params.ghostWidth, dim);
  std::vector<double> b;
  each(a, [&](int i, int j, int k, int v) { b.push_back(at(a, i, j, k, v)); });
  fwrite(b.data(), 8, b.size(), out);
}

template <int dim, int N>
struct Ops
{
  using S = SolverHydroSDM<dim, N>;
  using A = typename S::DataArray;
  S *    s;
  FILE * out;

  A
  make(int n) const
  {
    if constexpr (dim == 2)
      return A("sdx", s->params.isize, s->params.jsize, n);
    else
      return A("sdx", s->params.isize, s->params.jsize, s->params.ksize, n);
  }
  A
  like(const A & a) const
  {
    A b = make(ext(a, 3));
    Kokkos::deep_copy(b, a);
    return b;
  }
  // b = c0*x + c1*y + c2*dt*f, in place of whatever the integrator under test does
  static void
  comb(const A & b, double c0, const A & x, double c1, const A & y, double c2, const A & f)
  {
    each(b, [&](int i, int j, int k, int v) {
      ref(b, i, j, k, v) = c0 * at(x, i, j, k, v) + c1 * at(y, i, j, k, v) + c2 * at(f, i, j, k, v);
    });
  }
  void
  refstep(const std::string & name)
  {
    A    U = s->U;
    auto L = [&](const A & u) {
      s->make_boundaries(u);
      A f = make(ext(u, 3));
      s->compute_fluxes_divergence(u, f, s->m_dt);
      return f;
    };
    const double dt = s->m_dt;
    if (name == "forward_euler")
    {
      A f = L(U);
      comb(U, 1, U, 0, U, -dt, f);
      return;
    }
    A f0 = L(U); // limits U in place when limiting is on
    if (name == "ssprk2")
    {
      A u1 = like(U);
      comb(u1, 1, U, 0, U, -dt, f0);
      A f1 = L(u1);
      comb(U, .5, U, .5, u1, -.5 * dt, f1);
    }
    else if (name == "ssprk3")
    {
      A u1 = like(U);
      comb(u1, 1, U, 0, U, -dt, f0);
      A f1 = L(u1);
      A u2 = like(U);
      comb(u2, .75, U, .25, u1, -.25 * dt, f1);
      A f2 = L(u2);
      comb(U, 1. / 3, U, 2. / 3, u2, -2. / 3 * dt, f2);
    }
    else if (name == "ssprk54")
    {
      A u1 = like(U), u2 = like(U), u3 = like(U), u4 = like(U), w = like(U);
      comb(u1, 1, U, 0, U, -0.391752226571890 * dt, f0);
      A f1 = L(u1);
      comb(u2, 0.444370493651235, U, 0.555629506348765, u1, -0.368410593050371 * dt, f1);
      A f2 = L(u2);
      comb(u3, 0.620101851488403, U, 0.379898148511597, u2, -0.251891774271694 * dt, f2);
      A f3 = L(u3);
      comb(u4, 0.178079954393132, U, 0.821920045606868, u3, -0.544974750228521 * dt, f3);
      A f4 = L(u4);
      comb(w, 0.517231671970585, u2, 0.096059710526147, u3, -0.063692468666290 * dt, f3);
      comb(U, 1, w, 0.386708617503269, u4, -0.226007483236906 * dt, f4);
    }
    else
    {
      std::cerr << "HX-ERROR refstep " << name << std::endl;
      std::exit(3);
    }
  }
  // powers of the semi-discrete operator acting on the density of a uniform flow
  void
  powers(int K)
  {
    A           U = s->U;
    A           keep = like(U);
    const int   nn = dim == 2 ? N * N : N * N * N;
    const int   nv = dim + 2;
    const double g = s->params.settings.gamma0;
    double      mean = 0;
    long        cnt = 0;
    auto        inner = [&](int i, int j, int k) {
      const int w = s->params.ghostWidth;
      return i >= w && i < ext(U, 0) - w && j >= w && j < ext(U, 1) - w && (dim == 2 || (k >= w && k < ext(U, 2) - w));
    };
    const int w = s->params.ghostWidth, kw = dim == 2 ? 0 : w;
    double    r0 = at(U, w, w, kw, 0), vel[3] = { 0, 0, 0 };
    for (int d = 0; d < dim; ++d)
      vel[d] = at(U, w, w, kw, nn * (2 + d)) / r0;
    double ke = 0;
    for (int d = 0; d < dim; ++d)
      ke += .5 * vel[d] * vel[d];
    const double p = (g - 1) * (at(U, w, w, kw, nn) - r0 * ke);
    each(U, [&](int i, int j, int k, int v) {
      if (v < nn && inner(i, j, k))
      {
        mean += at(U, i, j, k, v);
        ++cnt;
      }
    });
    mean /= cnt;
    A v = make(nn);
    each(v, [&](int i, int j, int k, int q) { ref(v, i, j, k, q) = inner(i, j, k) ? at(U, i, j, k, q) - mean : 0; });
    for (int m = 0; m <= K; ++m)
    {
      rec(out, v, s, "pow" + std::to_string(m), dim);
      double top = 1e-300;
      each(v, [&](int i, int j, int k, int q) { top = std::max(top, std::fabs(at(v, i, j, k, q))); });
      const double al = .3 * mean / top;
      A            u = make(nn * nv), f = make(nn * nv);
      each(v, [&](int i, int j, int k, int q) {
        double d = mean + al * at(v, i, j, k, q);
        ref(u, i, j, k, q) = d;
        ref(u, i, j, k, nn + q) = p / (g - 1) + d * ke;
        for (int c = 0; c < dim; ++c)
          ref(u, i, j, k, nn * (2 + c) + q) = d * vel[c];
      });
      s->make_boundaries(u);
      s->compute_fluxes_divergence(u, f, s->m_dt);
      each(v, [&](int i, int j, int k, int q) { ref(v, i, j, k, q) = inner(i, j, k) ? -at(f, i, j, k, q) / al : 0; });
    }
    Kokkos::deep_copy(U, keep);
  }
  template <int dir>
  void
  perdir(const std::string & op, int mode, const std::string & tag)
  {
    auto & P = s->params;
    auto & G = s->sdm_geom;
    if (op == "s2f")
    {
      Interpolate_At_FluxPoints_Functor<dim, N, dir>::apply(P, G, s->U, s->Fluxes);
      rec(out, s->Fluxes, s, tag, dim);
    }
    else if (op == "f2s")
    {
      A o = like(s->U);
      if (mode == 0)
        Interpolate_At_SolutionPoints_Functor<dim, N, dir, INTERPOLATE_DERIVATIVE>::apply(P, G, s->Fluxes, o);
      else if (mode == 1)
        Interpolate_At_SolutionPoints_Functor<dim, N, dir, INTERPOLATE_SOLUTION>::apply(P, G, s->Fluxes, o);
      else if (mode == 2)
        Interpolate_At_SolutionPoints_Functor<dim, N, dir, INTERPOLATE_DERIVATIVE_NEGATIVE>::apply(P, G, s->Fluxes, o);
      else if (mode == 3)
        Interpolate_At_SolutionPoints_Functor<dim, N, dir, INTERPOLATE_SOLUTION_NEGATIVE>::apply(P, G, s->Fluxes, o);
      else
        Interpolate_At_SolutionPoints_Functor<dim, N, dir, INTERPOLATE_SOLUTION_REGULAR>::apply(P, G, s->Fluxes, o);
      rec(out, o, s, tag, dim);
    }
    else if (op == "grad")
    {
      A o = make(dim + 2);
      Average_Gradient_Functor<dim, N, dir>::apply(P, G, s->U, o);
      rec(out, o, s, tag, dim);
    }
    else if (op == "vels2f")
    {
      A o = make(s->Fluxes.size() ? ext(s->Fluxes, 3) / (dim + 2) * (dim + dim * dim) : 0);
      Interpolate_velocities_Sol2Flux_Functor<dim, N, dir>::apply(P, G, s->U, o);
      rec(out, o, s, tag, dim);
      A q = make(ext(s->U, 3) / (dim + 2) * dim);
      Interp_grad_velocity_at_SolutionPoints_Functor<dim, N, dir>::apply(P, G, o, q);
      rec(out, q, s, tag + "g", dim);
    }
  }
  bool
  run(const std::string & line)
  {
    std::istringstream is(line);
    std::string        c, op, tag;
    int                d = 0, mode = 0;
    is >> c >> op;
    if (c != "sd")
      return false;
    if (op == "refstep")
    {
      is >> tag;
      refstep(tag);
    }
    else if (op == "powers")
    {
      is >> mode;
      powers(mode);
    }
    else if (op == "avg")
    {
      is >> tag;
      A o = make(dim + 2);
      Average_Conservative_Variables_Functor<dim, N>::apply(s->params, s->sdm_geom, s->U, o);
      rec(out, o, s, tag, dim);
    }
    else if (op == "injflux")
    {
      std::string f;
      is >> f;
      FILE *              fp = fopen(f.c_str(), "rb");
      std::vector<double> b(s->Fluxes.size());
      if (!fp || fread(b.data(), 8, b.size(), fp) != b.size())
      {
        std::cerr << "HX-ERROR injflux " << f << std::endl;
        std::exit(3);
      }
      fclose(fp);
      size_t n = 0;
      each(s->Fluxes, [&](int i, int j, int k, int v) { ref(s->Fluxes, i, j, k, v) = b[n++]; });
    }
    else if (op == "showflux")
    {
      is >> tag;
      rec(out, s->Fluxes, s, tag, dim);
    }
    else
    {
      is >> d >> mode >> tag;
      if (d == 0)
        perdir<IX>(op, mode, tag);
      if (d == 1)
        perdir<IY>(op, mode, tag);
      if constexpr (dim == 3)
        if (d == 2)
          perdir<IZ>(op, mode, tag);
    }
    return true;
  }
};

template <int dim, int N>
bool
run(SolverBase * b, const std::string & line, FILE * out);
} // namespace sdx
