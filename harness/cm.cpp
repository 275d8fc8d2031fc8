/*
 * cm : records what the parameter-file getters return.
 *
 *   cm jobs.txt       lines:  MODE ini queries out        MODE = file | buffer | bcast
 *
 * queries (tab separated, hex-encoded texts so that any byte can be passed):
 *   s|i|f|b  section name default      get
 *   S|I|F|B  section name value        set
 *   d                                  dump through operator<<
 * out: one line per query, "ERR n" first.  bcast: every rank writes out.<rank>.  Judges nothing.
 */
#ifdef USE_MPI
#  include <mpi.h>
#endif
#include "utils/config/ConfigMap.h"
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <memory>
#include <sstream>
#include <string>
#include <vector>

static std::string
unhex(const std::string & s)
{
  std::string r;
  for (size_t i = 1; i + 1 < s.size(); i += 2) // leading 'x'
    r.push_back((char)std::stoi(s.substr(i, 2), nullptr, 16));
  return r;
}
static std::string
hex(const std::string & s)
{
  std::string r = "x";
  char        b[4];
  for (unsigned char c : s)
  {
    snprintf(b, 4, "%02x", c);
    r += b;
  }
  return r;
}

static void
interrogate(ConfigMap cfg, const std::string & queries, const std::string & out)
{
  std::ifstream qs(queries);
  FILE *        f = fopen(out.c_str(), "w");
  fprintf(f, "ERR %d\n", cfg.ParseError());
  std::string line;
  while (std::getline(qs, line))
  {
    std::istringstream is(line);
    std::string        t, s, n, d;
    is >> t >> s >> n >> d;
    s = unhex(s);
    n = unhex(n);
    d = unhex(d);
    if (t == "s")
      fprintf(f, "%s\n", hex(cfg.getString(s, n, d)).c_str());
    else if (t == "i")
      fprintf(f, "%ld\n", cfg.getInteger(s, n, atol(d.c_str())));
    else if (t == "f")
      fprintf(f, "%a\n", (double)cfg.getFloat(s, n, strtof(d.c_str(), nullptr)));
    else if (t == "b")
      fprintf(f, "%d\n", (int)cfg.getBool(s, n, d == "1"));
    else if (t == "S")
      cfg.setString(s, n, d);
    else if (t == "I")
      cfg.setInteger(s, n, atol(d.c_str()));
    else if (t == "F")
      cfg.setFloat(s, n, strtof(d.c_str(), nullptr));
    else if (t == "B")
      cfg.setBool(s, n, d == "1");
    else if (t == "d")
    {
      std::ostringstream os;
      os << cfg;
      fprintf(f, "%s\n", hex(os.str()).c_str());
    }
  }
  fclose(f);
}

int
main(int argc, char ** argv)
{
#ifdef USE_MPI
  MPI_Init(&argc, &argv);
  int rank;
  MPI_Comm_rank(MPI_COMM_WORLD, &rank);
#endif
  std::ifstream js(argv[1]);
  std::string   line;
  while (std::getline(js, line))
  {
    std::istringstream is(line);
    std::string        mode, ini, q, out;
    is >> mode >> ini >> q >> out;
    if (mode == "file")
      interrogate(ConfigMap(ini), q, out);
    else if (mode == "buffer")
    {
      std::ifstream      f(ini, std::ios::binary | std::ios::ate);
      int                n = f.tellg();
      std::vector<char>  copy(n);
      f.seekg(0);
      f.read(copy.data(), n);
      // exact-size heap block: a read past its end is caught by the sanitizer build
      std::unique_ptr<char[]> b(new char[n ? n : 1]);
      std::copy(copy.begin(), copy.end(), b.get());
      char *    p = b.get();
      ConfigMap cfg(p, n);
      interrogate(cfg, q, out);
    }
    else
    {
#ifdef USE_MPI
      interrogate(broadcast_parameters(ini), q, out + "." + std::to_string(rank));
#else
      interrogate(broadcast_parameters(ini), q, out);
#endif
    }
  }
#ifdef USE_MPI
  MPI_Finalize();
#endif
  return 0;
}
