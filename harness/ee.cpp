/*
 * ee : records what the Euler / MHD system primitives return.
 *
 *   ee case.ini jobs.txt          jobs.txt lines:  KIND gamma in.bin out.bin [cIso]
 *
 *   euler2 / euler3  in: q[nv] data[nv] g[nd*nd] v[nd] f[nd] mu
 *                    out: pressure, prim[nv], sound(prim), flux x,y(,z), visc flux x,y(,z),
 *                         per direction: L (nv*nv, column by column), R, L data, R data
 *   prim2 / prim3    in: u[nv]  out: prim[nv], c, eos p, eos c       (MUSCL hydro base functors)
 *   mprim2 / mprim3  in: u[8] neighbour fields[3]  out: prim[8], c, eos p, eos c  (MUSCL MHD base functors)
 *   mflux            in: prim[8] out: cons[8] flux[8]                (find_mhd_flux)
 *   array2 array3 marray2 marray3   in: U [cells][nv], grid of the parameter file (with ghosts)
 *                    out: Q [cells][nv] of the whole-array conversion (NaN where nothing was written)
 *   names2 names3    prints the variable names
 * Judges nothing.
 */
#include "shared/kokkos_shared.h"
#include "shared/real_type.h"
#include "shared/HydroParams.h"
#include "shared/HydroState.h"
#include "shared/EulerEquations.h"
#include "shared/mhd_utils.h"
#include "muscl/HydroRunFunctors2D.h"
#include "muscl/HydroRunFunctors3D.h"
#include "muscl/MHDRunFunctors2D.h"
#include "muscl/MHDRunFunctors3D.h"
#include <cstdio>
#include <fstream>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
using namespace ppkMHD;
using V = std::vector<double>;

static V
slurp(const std::string & f)
{
  std::ifstream is(f, std::ios::binary | std::ios::ate);
  size_t        n = is ? (size_t)is.tellg() : 0;
  V             v(n / 8);
  is.seekg(0);
  is.read((char *)v.data(), v.size() * 8);
  return v;
}

template <class E, int NV, int DIR>
static void
charac(const typename E::HydroState & q, const typename E::HydroState & data, real_t c, real_t gamma, V & out)
{
  typename E::HydroState t;
  for (int which = 0; which < 2; ++which)
    for (int col = 0; col < NV; ++col)
    {
      for (int v = 0; v < NV; ++v)
        t[v] = v == col ? 1.0 : 0.0;
      if (which == 0)
        E::template cons_to_charac<DIR>(t, q, c, gamma);
      else
        E::template charac_to_cons<DIR>(t, q, c, gamma);
      for (int v = 0; v < NV; ++v)
        out.push_back(t[v]);
    }
  t = data;
  E::template cons_to_charac<DIR>(t, q, c, gamma);
  for (int v = 0; v < NV; ++v)
    out.push_back(t[v]);
  t = data;
  E::template charac_to_cons<DIR>(t, q, c, gamma);
  for (int v = 0; v < NV; ++v)
    out.push_back(t[v]);
}

template <int ND>
static void
euler(const V & in, V & out, double gamma)
{
  using E = EulerEquations<ND>;
  constexpr int NV = ND + 2;
  const size_t  rec = 2 * NV + ND * ND + 2 * ND + 1;
  for (size_t r = 0; r < in.size() / rec; ++r)
  {
    const double *                 p = &in[r * rec];
    typename E::HydroState         q, data, w, f;
    typename E::GradTensor         g;
    typename E::Vector             vel, fl;
    for (int v = 0; v < NV; ++v) { q[v] = p[v]; data[v] = p[NV + v]; w[v] = std::nan(""); }
    p += 2 * NV;
    for (int k = 0; k < ND * ND; ++k) g[k] = p[k];
    p += ND * ND;
    for (int k = 0; k < ND; ++k) { vel[k] = p[k]; fl[k] = p[ND + k]; }
    p += 2 * ND;
    const double mu = p[0];
    auto put = [&](const typename E::HydroState & s) { for (int v = 0; v < NV; ++v) out.push_back(s[v]); };
    auto bad = [&](typename E::HydroState & s) { for (int v = 0; v < NV; ++v) s[v] = std::nan(""); };
    const real_t pr = E::compute_pressure(q, gamma);
    out.push_back(pr);
    E::convert_to_primitive(q, w, gamma);
    put(w);
    const real_t c = E::compute_speed_of_sound(w, gamma);
    out.push_back(c);
    bad(f); E::flux_x(q, pr, f); put(f);
    bad(f); E::flux_y(q, pr, f); put(f);
    if constexpr (ND == 3) { bad(f); E::flux_z(q, pr, f); put(f); }
    bad(f); E::flux_visc_x(g, vel, fl, mu, f); put(f);
    bad(f); E::flux_visc_y(g, vel, fl, mu, f); put(f);
    if constexpr (ND == 3) { bad(f); E::flux_visc_z(g, vel, fl, mu, f); put(f); }
    charac<E, NV, IX>(q, data, c, gamma, out);
    charac<E, NV, IY>(q, data, c, gamma, out);
    if constexpr (ND == 3) charac<E, NV, IZ>(q, data, c, gamma, out);
  }
}

template <class B>
static void
prim(int nv, const V & in, V & out, const HydroParams & p)
{
  B b(p);
  for (size_t r = 0; r < in.size() / nv; ++r)
  {
    typename B::HydroState u, q;
    for (int v = 0; v < nv; ++v) { u[v] = in[r * nv + v]; q[v] = std::nan(""); }
    real_t c = std::nan(""), ep = c, ec = c;
    b.computePrimitives(u, &c, q);
    for (int v = 0; v < nv; ++v) out.push_back(q[v]);
    out.push_back(c);
    b.eos(u[ID], u[IP] / u[ID], &ep, &ec);
    out.push_back(ep);
    out.push_back(ec);
  }
}

template <class B>
static void
mprim(const V & in, V & out, const HydroParams & p)
{
  B b(p);
  for (size_t r = 0; r < in.size() / 11; ++r)
  {
    MHDState u, q;
    real_t   nb[3];
    for (int v = 0; v < 8; ++v) { u[v] = in[r * 11 + v]; q[v] = std::nan(""); }
    for (int v = 0; v < 3; ++v) nb[v] = in[r * 11 + 8 + v];
    real_t c = std::nan(""), ep = c, ec = c;
    b.constoprim_mhd(u, nb, c, q);
    for (int v = 0; v < 8; ++v) out.push_back(q[v]);
    out.push_back(c);
    b.eos(u[ID], u[IP] / u[ID], &ep, &ec);
    out.push_back(ep);
    out.push_back(ec);
  }
}

template <class F>
static void
array2(int nv, const V & in, V & out, const HydroParams & p)
{
  DataArray2d U("U", p.isize, p.jsize, nv), Q("Q", p.isize, p.jsize, nv);
  size_t      n = 0;
  for (int j = 0; j < p.jsize; ++j)
    for (int i = 0; i < p.isize; ++i)
      for (int v = 0; v < nv; ++v) { U(i, j, v) = in.at(n++); Q(i, j, v) = std::nan(""); }
  F::apply(p, U, Q);
  Kokkos::fence();
  for (int j = 0; j < p.jsize; ++j)
    for (int i = 0; i < p.isize; ++i)
      for (int v = 0; v < nv; ++v) out.push_back(Q(i, j, v));
}

template <class F>
static void
array3(int nv, const V & in, V & out, const HydroParams & p)
{
  DataArray3d U("U", p.isize, p.jsize, p.ksize, nv), Q("Q", p.isize, p.jsize, p.ksize, nv);
  size_t      n = 0;
  for (int k = 0; k < p.ksize; ++k)
    for (int j = 0; j < p.jsize; ++j)
      for (int i = 0; i < p.isize; ++i)
        for (int v = 0; v < nv; ++v) { U(i, j, k, v) = in.at(n++); Q(i, j, k, v) = std::nan(""); }
  F::apply(p, U, Q);
  Kokkos::fence();
  for (int k = 0; k < p.ksize; ++k)
    for (int j = 0; j < p.jsize; ++j)
      for (int i = 0; i < p.isize; ++i)
        for (int v = 0; v < nv; ++v) out.push_back(Q(i, j, k, v));
}

int
main(int argc, char ** argv)
{
  Kokkos::initialize(argc, argv);
  int rc = 0;
  {
    ConfigMap   cfg(argv[1]);
    HydroParams params = HydroParams();
    params.setup(cfg);
    std::ifstream js(argv[2]);
    std::string   line;
    while (std::getline(js, line))
    {
      std::istringstream is(line);
      std::string        kind, fi, fo;
      double             gamma = 0, ciso = 0;
      is >> kind >> gamma >> fi >> fo >> ciso;
      HydroParams p = params;
      p.settings.gamma0 = gamma;
      p.settings.cIso = ciso;
      V in = slurp(fi), out;
      if (kind == "euler2") euler<2>(in, out, gamma);
      else if (kind == "euler3") euler<3>(in, out, gamma);
      else if (kind == "prim2") prim<muscl::HydroBaseFunctor2D>(4, in, out, p);
      else if (kind == "prim3") prim<muscl::HydroBaseFunctor3D>(5, in, out, p);
      else if (kind == "mprim2") mprim<muscl::MHDBaseFunctor2D>(in, out, p);
      else if (kind == "mprim3") mprim<muscl::MHDBaseFunctor3D>(in, out, p);
      else if (kind == "mflux")
      {
        for (size_t r = 0; r < in.size() / 8; ++r)
        {
          MHDState q, c, f;
          for (int v = 0; v < 8; ++v) { q[v] = in[r * 8 + v]; c[v] = f[v] = std::nan(""); }
          find_mhd_flux(q, c, f, p);
          for (int v = 0; v < 8; ++v) out.push_back(c[v]);
          for (int v = 0; v < 8; ++v) out.push_back(f[v]);
        }
      }
      else if (kind == "array2") array2<muscl::ConvertToPrimitivesFunctor2D>(4, in, out, p);
      else if (kind == "array3") array3<muscl::ConvertToPrimitivesFunctor3D>(5, in, out, p);
      else if (kind == "marray2") array2<muscl::ConvertToPrimitivesFunctor2D_MHD>(8, in, out, p);
      else if (kind == "marray3") array3<muscl::ConvertToPrimitivesFunctor3D_MHD>(8, in, out, p);
      else if (kind == "names2" || kind == "names3")
      {
        auto m = kind == "names2" ? EulerEquations<2>::get_variable_names() : EulerEquations<3>::get_variable_names();
        for (auto & e : m) std::cout << "NAME " << kind << " " << e.first << " " << e.second << "\n";
      }
      else
      {
        std::cerr << "HX-ERROR kind " << kind << "\n";
        rc = 3;
        break;
      }
      std::ofstream os(fo, std::ios::binary);
      os.write((const char *)out.data(), out.size() * 8);
    }
  }
  Kokkos::finalize();
  return rc;
}
