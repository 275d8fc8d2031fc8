/*
 * rs : records what the Riemann-solver entry points return.
 *
 *   rs case.ini jobs.txt
 *
 * jobs.txt lines:   KIND RIEMANN N in.bin out.bin [cIso]
 *   hydro2 / hydro3  pairs of primitive states          -> flux
 *   mhd              pairs of 8-component states        -> flux
 *   emfx emfy emfz   4 states, order RT LT RB LB        -> emf
 *   speed            one state -> fast x,y,z ; info3 x,y,z ; info2 x,y ; info ; fastmhd x,y,z ; fastmhd2 x,y
 * Judges nothing.
 */
#include "shared/kokkos_shared.h"
#include "shared/real_type.h"
#include "shared/HydroParams.h"
#include "shared/RiemannSolvers.h"
#include "shared/RiemannSolvers_MHD.h"
#include <cstdio>
#include <fstream>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
using namespace ppkMHD;

static std::vector<double>
slurp(const std::string & f)
{
  std::ifstream       is(f, std::ios::binary | std::ios::ate);
  size_t              n = is ? (size_t)is.tellg() : 0;
  std::vector<double> v(n / 8);
  is.seekg(0);
  is.read((char *)v.data(), v.size() * 8);
  return v;
}

template <class S>
static void
hydro(int nv, const std::vector<double> & in, std::vector<double> & out, const HydroParams & p)
{
  size_t n = in.size() / (2 * nv);
  for (size_t q = 0; q < n; ++q)
  {
    S l, r, g, f;
    for (int v = 0; v < nv; ++v)
    {
      l[v] = in[(2 * q) * nv + v];
      r[v] = in[(2 * q + 1) * nv + v];
      g[v] = 0;
      f[v] = std::nan("");
    }
    riemann_hydro(l, r, g, f, p);
    for (int v = 0; v < nv; ++v)
      out.push_back(f[v]);
  }
}

template <EmfDir D>
static void
emf(const std::vector<double> & in, std::vector<double> & out, const HydroParams & p)
{
  for (size_t q = 0; q < in.size() / 32; ++q)
  {
    MHDState s[4];
    int      idx[4] = { IRT, ILT, IRB, ILB };
    for (int a = 0; a < 4; ++a)
      for (int v = 0; v < 8; ++v)
        s[idx[a]][v] = in[q * 32 + a * 8 + v];
    out.push_back(compute_emf<D>(s, p));
  }
}

int
main(int argc, char ** argv)
{
  Kokkos::initialize(argc, argv);
  {
    ConfigMap   cfg(argv[1]);
    HydroParams params = HydroParams();
    params.setup(cfg);
    std::ifstream js(argv[2]);
    std::string   line;
    while (std::getline(js, line))
    {
      std::istringstream is(line);
      std::string        kind, rs, fi, fo;
      double             ciso = 0;
      is >> kind >> rs >> fi >> fo >> ciso;
      HydroParams p = params;
      p.riemannSolverType = rs == "approx" ? RIEMANN_APPROX
                            : rs == "hll"  ? RIEMANN_HLL
                            : rs == "hllc" ? RIEMANN_HLLC
                            : rs == "hlld" ? RIEMANN_HLLD
                                           : RIEMANN_LLF;
      p.settings.cIso = ciso;
      std::vector<double> in = slurp(fi), out;
      if (kind == "hydro2")
        hydro<HydroState2d>(4, in, out, p);
      else if (kind == "hydro3")
        hydro<HydroState3d>(5, in, out, p);
      else if (kind == "mhd")
      {
        for (size_t q = 0; q < in.size() / 16; ++q)
        {
          MHDState l, r, f;
          for (int v = 0; v < 8; ++v)
          {
            l[v] = in[q * 16 + v];
            r[v] = in[q * 16 + 8 + v];
            f[v] = std::nan("");
          }
          riemann_mhd(l, r, f, p);
          for (int v = 0; v < 8; ++v)
            out.push_back(f[v]);
        }
      }
      else if (kind == "emfx")
        emf<EMFX>(in, out, p);
      else if (kind == "emfy")
        emf<EMFY>(in, out, p);
      else if (kind == "emfz")
        emf<EMFZ>(in, out, p);
      else if (kind == "speed")
      {
        for (size_t q = 0; q < in.size() / 8; ++q)
        {
          MHDState s;
          for (int v = 0; v < 8; ++v)
            s[v] = in[q * 8 + v];
          out.push_back(find_speed_fast<IX>(s, p));
          out.push_back(find_speed_fast<IY>(s, p));
          out.push_back(find_speed_fast<IZ>(s, p));
          real_t a[3] = { 0, 0, 0 };
          find_speed_info<THREE_D>(s, a, p);
          for (double x : a)
            out.push_back(x);
          find_speed_info<TWO_D>(s, a, p);
          out.push_back(a[0]);
          out.push_back(a[1]);
          out.push_back(find_speed_info(s, p));
          fast_mhd_speed<THREE_D>(s, a, p);
          for (double x : a)
            out.push_back(x);
          fast_mhd_speed<TWO_D>(s, a, p);
          out.push_back(a[0]);
          out.push_back(a[1]);
        }
      }
      else
      {
        std::cerr << "HX-ERROR kind " << kind << "\n";
        return 3;
      }
      std::ofstream os(fo, std::ios::binary);
      os.write((const char *)out.data(), out.size() * 8);
    }
  }
  Kokkos::finalize();
  return 0;
}
