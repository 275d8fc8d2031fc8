#include "sd_kind.h"
namespace sdx
{
template <int dim, int N>
bool
run(SolverBase * b, const std::string & line, FILE * out)
{
  auto * s = dynamic_cast<SolverHydroSDM<dim, N> *>(b);
  if (!s)
    return false;
  Ops<dim, N> o{ s, out };
  return o.run(line);
}
} // namespace sdx
