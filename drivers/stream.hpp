// expected value of a fractionally delayed stream (Lagrange interpolation of order N)
#pragma once
#include "drv.hpp"
namespace drv
{
// value at position `pos` of the polynomial of degree N through the N+1 stream samples base..base+N
inline long double lagrange(std::vector<long double> const& x, long base, unsigned N, long double pos)
{
  long double r = 0;
  for (unsigned j = 0; j <= N; ++j)
  {
    long double c = 1;
    for (unsigned m = 0; m <= N; ++m) if (m != j) c *= (pos - (base + (long)m)) / ((long double)j - (long double)m);
    long i = base + j;
    r += c * (i < 0 ? 0 : x.at(i));
  }
  return r;
}
// all admissible values (neighbouring base samples where the rounding is a tie) of stream x at position pos
inline std::vector<long double> delayed(std::vector<long double> const& x, unsigned N, long double pos)
{
  long double const md = N * 0.5L, d = pos - md;
  long const last = (long)x.size() - 1, base = (long)std::floor(d + 0.5L);
  std::vector<long double> r;
  for (long q = -1; q <= 1; ++q)
  {
    if (q && std::fabs((double)(d - (base + q))) > 0.5 + 2e-3) continue;
    long const bb = base + q;
    if (bb + (long)N > last) continue;
    r.push_back(lagrange(x, bb, N, pos));
  }
  return r;
}
} // namespace drv
