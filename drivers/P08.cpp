#include "drv.hpp"
#include <librbbl/fractional_delay_factory.hpp>
#include <librbbl/fractional_delay_base.hpp>
#include <librbbl/multichannel_delay_line.hpp>
#include <libefl/lagrange_coefficient_calculator.hpp>
#include <algorithm>
#include <memory>
#include <stdexcept>
using namespace visr;
using namespace drv;

// value at position `pos` of the polynomial of degree N through the N+1 stream samples base..base+N
static long double lagrange(std::vector<long double> const& x, long base, unsigned N, long double pos)
{
  long double r = 0;
  for (unsigned j = 0; j <= N; ++j)
  {
    long double c = 1;
    for (unsigned m = 0; m <= N; ++m) if (m != j) c *= (pos - (base + (long)m)) / ((long double)j - (long double)m);
    long i = base + j;
    r += c * (i < 0 ? 0 : x.at(i));
  }
  return r;
}

template <typename T> void one(char const* tn)
{
  using DL = rbbl::MultichannelDelayLine<T>;
  using Pol = typename DL::MethodDelayPolicy;
  unsigned const N = rnd(10);
  std::string const method = N == 0 && rnd(2) ? "nearestSample" : "lagrangeOrder" + std::to_string(N);
  std::size_t const C = 1 + rnd(3), B = 1 + rnd(rnd(2) ? 6 : 24), fs = rnd(3) ? 1 : (rnd(2) ? 48000 : 16);
  static std::size_t const als[] = { 0, 1, 4, 8 };
  std::size_t const al = als[rnd(4)];
  double const maxS = rnd(4) ? rnd(40) : rnd(120) + 0.25 * rnd(4);
  Pol const pol = (Pol)rnd(3);
  T const maxD = (T)(maxS / fs);
  T const tol = sizeof(T) == 4 ? (T)4e-3 : (T)1e-8;
  std::string desc = std::string(tn) + "(channels=" + std::to_string(C) + ",fs=" + std::to_string(fs) + ",block=" + std::to_string(B) + ",maxDelay=" + std::to_string(maxS) + " samples," + method + ",policy=" +
    (pol == Pol::Add ? "Add" : pol == Pol::Limit ? "Limit" : "Reject") + ",alignment=" + std::to_string(al) + ")";
  setcase("%s", desc.c_str());
  DL dl(C, fs, B, maxD, method.c_str(), pol, al);
  long double const cmax = std::ceil(maxD * fs), md = N * 0.5L;
  if (dl.numberOfChannels() != C || dl.blockLength() != B) fail("dimensions");
  if (std::fabs(dl.methodDelaySamples() - md) > 1e-4 || std::fabs(dl.methodDelaySeconds() * fs - md) > 1e-3) fail("method delay is reported as %g samples, %g s", (double)dl.methodDelaySamples(), (double)dl.methodDelaySeconds());
  std::vector<std::vector<long double>> x(C);
  unsigned const blocks = 1 + rnd(12);
  std::size_t const wal = al < 1 ? 1 : al;
  for (unsigned b = 0; b < blocks; ++b)
  {
    std::size_t const stride = (B + rnd(3) + wal - 1) / wal * wal;
    std::unique_ptr<T[]> raw(new T[C * stride + 64]);
    T* in = (T*)(((uintptr_t)raw.get() + 63) / 64 * 64);
    for (std::size_t c = 0; c < C; ++c)
      for (std::size_t k = 0; k < B; ++k) { T v = (T)rndf(-1, 1); in[c * stride + k] = v; x[c].push_back(v); }
    setcase("%s;write;", desc.c_str());
    if (rnd(12) == 0)
    {
      bool thrown = false;
      try { dl.write(in, stride, C + 1, al); } catch (std::exception const&) { thrown = true; }
      if (!thrown) fail("wrong number of channels accepted");
    }
    dl.write(in, stride, C, al);
    desc += ";write";
    long const last = (long)x[0].size() - 1;
    for (unsigned r = 0; r < 3; ++r)
    {
      std::size_t const c = rnd(C), n = rnd(4) ? B : rnd(B + 1);
      auto pick = [&]() -> T { switch (rnd(5)) { case 0: return (T)0; case 1: return (T)(cmax / fs); case 2: return (T)(md / fs); case 3: return (T)((long double)rnd((unsigned)cmax + 1) / fs); default: return (T)(rndf(0, (double)cmax) / fs); } };
      T s = pick(), e = rnd(3) ? pick() : s, g0 = (T)rndf(-1, 1), g1 = rnd(2) ? g0 : (T)rndf(-1, 1);
      unsigned const bad = rnd(20);
      if (bad == 0) s = (T)((cmax + 1 + rnd(3)) / fs);
      if (bad == 1) e = (T)((cmax + 1 + rnd(3)) / fs);
      if (bad == 2) s = (T)(-1.0 / fs);
      std::size_t ch = bad == 3 ? C + rnd(2) : c;
      auto inval = [&](T d) { long double q = (long double)(d * (T)fs); return q > cmax || (pol == Pol::Add && q < -1e-5L) || (pol == Pol::Reject && q < md); };
      bool edge = std::fabs((double)(s * (T)fs - md)) < 1e-4 || std::fabs((double)(e * (T)fs - md)) < 1e-4 || std::fabs((double)(s * (T)fs - cmax)) < 1e-4 || std::fabs((double)(e * (T)fs - cmax)) < 1e-4;
      bool const invalid = ch >= C || inval(s) || inval(e);
      std::vector<T> out(n + 2, (T)55);
      setcase("%s;interpolate(channel=%zu,n=%zu,delay=%.9g..%.9g samples,gain=%g..%g)", desc.c_str(), ch, n, (double)s * fs, (double)e * fs, (double)g0, (double)g1);
      bool thrown = false;
      try { dl.interpolate(out.data() + 1, ch, n, s, e, g0, g1); }
      catch (std::exception const&) { thrown = true; }
      if (thrown != invalid && (ch >= C || !edge)) fail(thrown ? "valid delay rejected" : "invalid request accepted");
      if (out[0] != (T)55 || out[n + 1] != (T)55) fail("output written out of range");
      if (thrown) { for (T v : out) if (v != (T)55) fail("output written although the request was rejected"); continue; }
      auto eff = [&](T d) -> long double { long double q = (long double)d * fs; return pol == Pol::Add ? q + md : std::max(q, md); };
      for (std::size_t k = 0; k < n; ++k)
      {
        long double const w = (long double)(k + 1) / n, delay = eff(s) + w * (eff(e) - eff(s)), gain = g0 + w * (g1 - g0);
        long double const pos = last - (long double)(n - 1 - k) - delay, d = pos - md;
        long const base = (long)std::floor(d + 0.5L);
        bool ok = false;
        long double best = 0;
        for (long q = -1; q <= 1 && !ok; ++q)
        {
          if (q && std::fabs((double)(d - (base + q))) > 0.5 + 2e-3) continue;
          long const bb = base + q;
          if (bb + (long)N > last && std::fabs((double)(d - bb)) > 0.5) continue;
          long double const y = gain * lagrange(x[c], bb, N, pos);
          if (q == 0) best = y;
          if (std::fabs((double)(y - out[k + 1])) <= tol) ok = true;
        }
        if (!ok) fail("sample %zu is %.9g, expected %.9Lg", k, (double)out[k + 1], best);
      }
    }
  }
}

template <typename T, std::size_t N, bool R> void coeffs(char const* tn)
{
  efl::LagrangeCoefficientCalculator<T, N, R> calc;
  T const mu = rnd(4) == 0 ? (T)((int)rnd(2 * N + 1) * 0.5 - N * 0.5) : (T)rndf(-0.5 * N - 1, 0.5 * N + 1);
  setcase("LagrangeCoefficientCalculator<%s,%zu,%d>(mu=%.9g)", tn, N, (int)R, (double)mu);
  T res[N + 3];
  for (T& v : res) v = (T)55;
  calc.calculateCoefficients(mu, res + 1);
  if (res[0] != (T)55 || res[N + 2] != (T)55) fail("result written out of range");
  for (std::size_t k = 0; k <= N; ++k)
  {
    auto node = [&](std::size_t m) { return R ? N * 0.5L - m : m - N * 0.5L; };
    long double c = 1, mag = 1;
    for (std::size_t m = 0; m <= N; ++m) if (m != k) { c *= (node(m) - mu) / (node(m) - node(k)); }
    mag += std::fabs((double)c);
    if (std::fabs((double)(c - res[k + 1])) > (sizeof(T) == 4 ? 1e-4 : 1e-11) * mag) fail("coefficient %zu is %.9g, expected %.9Lg", k, (double)res[k + 1], c);
  }
}
template <typename T, bool R> void anyc(char const* tn)
{
  switch (rnd(10)) { case 0: coeffs<T, 0, R>(tn); break; case 1: coeffs<T, 1, R>(tn); break; case 2: coeffs<T, 2, R>(tn); break; case 3: coeffs<T, 3, R>(tn); break; case 4: coeffs<T, 4, R>(tn); break;
    case 5: coeffs<T, 5, R>(tn); break; case 6: coeffs<T, 6, R>(tn); break; case 7: coeffs<T, 7, R>(tn); break; case 8: coeffs<T, 8, R>(tn); break; default: coeffs<T, 9, R>(tn); }
}
int main(int argc, char** argv)
{
  return run(argc, argv, [](bool) {
    one<float>("MultichannelDelayLine<float>");
    if (rnd(2)) one<double>("MultichannelDelayLine<double>");
    anyc<float, false>("float"); anyc<float, true>("float"); anyc<double, false>("double"); anyc<double, true>("double");
  });
}
