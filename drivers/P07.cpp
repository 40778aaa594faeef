#include "drv.hpp"
#include <librbbl/gain_matrix.hpp>
#include <libefl/basic_matrix.hpp>
#include <limits>
#include <stdexcept>
#include <memory>
using namespace visr;
using namespace drv;
static std::size_t const als[] = { 0, 1, 2, 4, 8, 16 };
template<typename T> double gval() { return rnd(6) == 0 ? 0.0 : (int(rnd(65)) - 32) / 8.0; }
template<typename T> void fader(bool first)
{
  std::size_t al = als[rnd(6)], q = al ? al : 1, bs = q * (1 + rnd(9)), interp = rnd(5) == 0 ? 0 : rnd(3) == 0 ? bs * rnd(5) : rnd(5 * bs + 2);
  long h;
  if (first && hint("blockSize", h) && h > 0 && h < 200) { bs = h; al = 0; }
  if (first && hint("interpolationSamples", h) && h >= 0 && h < 2000) interp = h;
  if (first && hint("interpolationSteps", h) && h >= 0 && h < 2000) interp = h;
  setcase("GainFader<%s>(%zu,%zu,%zu)", sizeof(T) == 4 ? "float" : "double", bs, interp, al);
  rbbl::GainFader<T> f(bs, interp, al);
  std::size_t const per = (interp + bs - 1) / bs;
  if (f.interpolationPeriods() != per) fail("interpolationPeriods %zu expected %zu", f.interpolationPeriods(), per);
  if (f.interpolationSamples() != interp) fail("interpolationSamples");
  efl::BasicMatrix<T> in(1, bs, al), out(2, bs, al);
  for (int rep = 0; rep < 12; ++rep)
  {
    std::size_t b = rnd(4) ? rnd(per + 2) : rnd(2) ? per : per + rnd(1000000);
    if (first && rep == 0 && hint("blockIndex", h) && h >= 0) b = h;
    T s = T(gval<T>()), e = T(gval<T>());
    bool acc = rnd(2), inplace = !acc && rnd(3) == 0;
    setcase("GainFader<%s>(%zu,%zu,%zu) %s(start=%g,end=%g,block=%zu)%s", sizeof(T) == 4 ? "float" : "double", bs, interp, al, acc ? "scaleAndAccumulate" : "scale", double(s), double(e), b, inplace ? " in place" : "");
    std::vector<T> x(bs), y(bs);
    for (std::size_t k = 0; k < bs; ++k) { x[k] = T(int(rnd(200)) - 100) / 16; y[k] = T(int(rnd(200)) - 100) / 16; in(0, k) = x[k]; out(0, k) = y[k]; out(1, k) = 77; }
    if (acc) f.scaleAndAccumulate(in.row(0), out.row(0), s, e, b);
    else f.scale(in.row(0), inplace ? in.row(0) : out.row(0), s, e, b);
    T const* r = inplace ? in.row(0) : out.row(0);
    for (std::size_t k = 0; k < bs; ++k)
    {
      double pos = b >= per ? 1.0 : std::min(1.0, double(b * bs + k + 1) / double(interp));
      double want = (double(s) + (double(e) - double(s)) * pos) * x[k] + (acc ? double(y[k]) : 0.0);
      if (std::fabs(r[k] - want) > 3e-6 * (sizeof(T) == 4 ? 1 : 1e-6) * (1 + std::fabs(x[k]) * (std::fabs(s) + std::fabs(e)) * 4 + std::fabs(y[k]))) fail("sample %zu: got %.9g expected %.9g", k, double(r[k]), want);
      if (out(1, k) != 77) fail("wrote outside the block");
      if (!inplace && in(0, k) != x[k]) fail("input changed");
    }
  }
}
template<typename T> void matrix(bool first)
{
  double const eps = std::numeric_limits<T>::epsilon();
  std::size_t al = als[rnd(6)], q = al ? al : 1, bs = q * (1 + rnd(6)), interp = rnd(5) == 0 ? 0 : rnd(3) == 0 ? bs * rnd(5) : rnd(5 * bs + 2);
  std::size_t nin = rnd(9) ? 1 + rnd(5) : 0, nout = rnd(9) ? 1 + rnd(5) : 0;
  long h;
  if (first && hint("blockSize", h) && h > 0 && h < 100) { bs = h; al = 0; }
  if (first && hint("interpolationSamples", h) && h >= 0 && h < 1000) interp = h;
  if (first && hint("numberOfInputs", h) && h >= 0 && h < 8) nin = h;
  if (first && hint("numberOfOutputs", h) && h >= 0 && h < 8) nout = h;
  std::string log;
  char b[300];
  bool const mat = rnd(2);
  double init = gval<T>();
  snprintf(b, sizeof b, "GainMatrix<%s>(in=%zu,out=%zu,block=%zu,interp=%zu,%s,align=%zu);", sizeof(T) == 4 ? "float" : "double", nin, nout, bs, interp, mat ? "matrix" : "value", al);
  log = b;
  setcase("%s", b);
  std::vector<double> start(nin * nout), target(nin * nout), tol(nin * nout, 0.0);
  std::size_t const gal = als[rnd(6)];
  std::unique_ptr<rbbl::GainMatrix<T>> g;
  if (mat)
  {
    std::size_t const wrong = rnd(8) == 0 ? 1 : 0;
    efl::BasicMatrix<T> m(nout + wrong, nin, gal);
    for (std::size_t o = 0; o < nout; ++o) for (std::size_t i = 0; i < nin; ++i) m(o, i) = T(start[o * nin + i] = gval<T>());
    if (wrong)
    {
      try { rbbl::GainMatrix<T> x(nin, nout, bs, interp, m, al); fail("wrong dimension of the initial matrix accepted"); } catch (std::invalid_argument const&) {}
      return;
    }
    g.reset(new rbbl::GainMatrix<T>(nin, nout, bs, interp, m, al));
  }
  else
  {
    for (auto& x : start) x = init;
    g.reset(new rbbl::GainMatrix<T>(nin, nout, bs, interp, T(init), al));
  }
  target = start;
  std::size_t pos = 0; // samples since the start of the transition
  efl::BasicMatrix<T> in(nin, bs, al), out(nout, bs, al);
  std::vector<T const*> ip(nin);
  std::vector<T*> op(nout);
  for (std::size_t i = 0; i < nin; ++i) ip[i] = in.row(i);
  for (std::size_t o = 0; o < nout; ++o) op[o] = out.row(o);
  for (int step = 0; step < 30; ++step)
  {
    int const what = rnd(6); // 0: setNewGains, 1: process(newGains), 2..: process
    if (what < 2)
    {
      bool const wrong = rnd(8) == 0;
      efl::BasicMatrix<T> m(nout + (wrong ? 1 : 0), nin, als[rnd(6)]);
      std::vector<double> n(nin * nout);
      bool const rep = rnd(4) == 0; // repeat the same target
      for (std::size_t o = 0; o < nout; ++o) for (std::size_t i = 0; i < nin; ++i) m(o, i) = T(n[o * nin + i] = rep ? target[o * nin + i] : gval<T>());
      snprintf(b, sizeof b, "%s%s%s;", what ? "process(new)" : "setNewGains", rep ? "=same" : "", wrong ? "(wrong size)" : "");
      log += b;
      setcase("%s", log.c_str());
      bool thrown = false;
      try { if (what == 0) g->setNewGains(m); else g->process(ip.data(), op.data(), m); }
      catch (std::invalid_argument const&) { thrown = true; }
      if (thrown != wrong) fail(wrong ? "wrong dimension accepted" : "rejected");
      if (wrong) continue;
      double const ratio = interp == 0 ? 1.0 : std::min(1.0, double(pos) / interp);
      for (std::size_t x = 0; x < nin * nout; ++x)
      {
        double d = ratio * (target[x] - start[x]);
        if (pos >= interp) { start[x] = target[x]; tol[x] = 0; }
        else
        {
          if (pos > 0 && std::fabs(d) < 4 * eps + ratio * tol[x]) tol[x] += std::min(std::fabs(target[x] - start[x]), 4 * eps / ratio);
          start[x] += d;
          tol[x] += 8 * eps * (std::fabs(start[x]) + std::fabs(target[x]));
        }
      }
      target = n;
      pos = 0;
      if (what == 0) continue;
      // process(new) was already executed with the previous input: check below with that input
    }
    else
    {
      log += "process;";
      setcase("%s", log.c_str());
      for (std::size_t i = 0; i < nin; ++i) for (std::size_t k = 0; k < bs; ++k) in(i, k) = T(int(rnd(200)) - 100) / 16;
      for (std::size_t o = 0; o < nout; ++o) for (std::size_t k = 0; k < bs; ++k) out(o, k) = 1e30;
      g->process(ip.data(), op.data());
    }
    for (std::size_t o = 0; o < nout; ++o)
      for (std::size_t k = 0; k < bs; ++k)
      {
        double want = 0, mag = 0, t = 0;
        for (std::size_t i = 0; i < nin; ++i)
        {
          std::size_t x = o * nin + i;
          double p = pos + k + 1 >= interp ? 1.0 : double(pos + k + 1) / interp;
          double gg = start[x] + (target[x] - start[x]) * p;
          want += gg * in(i, k);
          mag += (std::fabs(start[x]) + std::fabs(target[x])) * std::fabs(in(i, k));
          t += tol[x] * std::fabs(in(i, k));
        }
        if (!(std::fabs(out(o, k) - want) <= 2 * t + 16 * eps * (1 + mag))) fail("output %zu sample %zu: got %.9g expected %.9g", o, k, double(out(o, k)), want);
      }
    // blocks after the end of the transition count as completed
    pos += bs;
    std::size_t const per = (interp + bs - 1) / bs;
    if (pos >= per * bs) pos = std::max(per * bs, std::size_t(interp));
  }
}
int main(int argc, char** argv)
{
  return run(argc, argv, [](bool first) { fader<float>(first); fader<double>(first); matrix<float>(first); matrix<double>(first); });
}
