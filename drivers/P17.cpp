#include "drv.hpp"
#include <libefl/db_linear_conversion.hpp>
#include <librbbl/biquad_coefficient.hpp>
#include <librbbl/parametric_iir_coefficient.hpp>
#include <librbbl/parametric_iir_coefficient_calculator.hpp>
#include <algorithm>
#include <complex>
#include <stdexcept>
using namespace visr;
using namespace drv;
typedef rbbl::ParametricIirCoefficientBase::Type Type;
typedef long double L;
static Type const types[] = { Type::lowpass, Type::highpass, Type::bandpass, Type::bandstop, Type::highshelf, Type::lowshelf, Type::peak, Type::allpass };
static char const* const names[] = { "lowpass", "highpass", "bandpass", "bandstop", "highshelf", "lowshelf", "peak", "allpass" };
struct Set { int t; double f, q, g; };
static L const pi = 3.141592653589793238462643383279502884L;
// analogue prototypes of the audio EQ cookbook under the bilinear transform: response at the angular frequency w
static std::complex<L> analog(Set const& s, L fs, L w)
{
  L const t = std::tan(w / 2) / std::tan(pi * s.f / fs), A = std::pow(10.0L, s.g / 40.0L), Q = s.q; std::complex<L> const z(0, t), z2 = z * z, one(1, 0);
  switch (s.t)
  {
  case 0: return one / (z2 + z / Q + one);
  case 1: return z2 / (z2 + z / Q + one);
  case 2: return (z / Q) / (z2 + z / Q + one);
  case 3: return (z2 + one) / (z2 + z / Q + one);
  case 4: return A * (A * z2 + std::sqrt(A) / Q * z + one) / (z2 + std::sqrt(A) / Q * z + A);
  case 5: return A * (z2 + std::sqrt(A) / Q * z + A) / (A * z2 + std::sqrt(A) / Q * z + one);
  case 6: return (z2 + z * A / Q + one) / (z2 + z / (A * Q) + one);
  default: return (z2 - z / Q + one) / (z2 + z / Q + one);
  }
}
template<class T> static void compare(Set const& s, double fs, rbbl::BiquadCoefficient<T> const& c)
{
  L const eps = sizeof(T) == 4 ? 1e-6L : 1e-14L;
  for (int k = 0; k < 5; ++k) if (!std::isfinite(c[k])) fail("coefficient %d is %g", k, (double)c[k]);
  for (int k = 0; k < 6; ++k)
  {
    L const w = pi * (k == 0 ? s.f * 2 / fs : k == 1 ? 0.001 : k == 2 ? 0.99 : rndf(0.01, 0.99));
    std::complex<L> const z1 = std::polar(1.0L, -w), z2 = z1 * z1;
    std::complex<L> const num = (L)c.b0() + (L)c.b1() * z1 + (L)c.b2() * z2, den = 1.0L + (L)c.a1() * z1 + (L)c.a2() * z2, h = analog(s, fs, w);
    // (1 - cos) and the differences of the shelves lose relative precision: absolute errors of the size of their terms
    L const A = s.t == 4 || s.t == 5 || s.t == 6 ? std::pow(10.0L, s.g / 40.0L) : 1.0L, amp = (A + 1) / std::min(1.0L, A);
    L const size = amp * (A + std::abs(h)) + std::abs(c.b0()) + std::abs(c.b1()) + std::abs(c.b2()) + std::abs(h) * (1 + std::abs(c.a1()) + std::abs(c.a2()));
    // num = h * den up to rounding of the coefficients
    if (!(std::abs(num - h * den) <= 20 * eps * size)) fail("response at %g Hz is %g, expected %g (phase %g, expected %g)", (double)(w * fs / 2 / pi), (double)std::abs(num / den), (double)std::abs(h), (double)std::arg(num / den), (double)std::arg(h));
  }
}
template<class T> static void one()
{
  double const fs = rnd(2) ? 48000 : rndf(8000, 192000);
  auto setting = [&]() { Set s; s.t = rnd(8); s.f = (T)(rnd(3) ? rndf(0.01, 0.49) * fs : rndf(20, 0.3 * fs)); s.q = (T)(rnd(3) ? rndf(0.3, 5) : rndf(0.1, 30)); s.g = (T)(rnd(4) ? rndf(-18, 18) : rnd(2) ? 0 : rndf(-40, 24)); return s; };
  auto text = [&](Set const& s) { char b[160]; std::snprintf(b, sizeof b, "{%s f=%.9g q=%.9g gain=%.9g}", names[s.t], s.f, s.q, s.g); return std::string(b); };
  auto mk = [&](Set const& s) { if (rnd(2)) return rbbl::ParametricIirCoefficient<T>(types[s.t], (T)s.f, (T)s.q, (T)s.g); rbbl::ParametricIirCoefficient<T> p; p.setGain((T)s.g); p.setQuality((T)s.q); p.setType(types[s.t]); p.setFrequency((T)s.f); return p; };
  char const* const tn = sizeof(T) == 4 ? "float" : "double";
  std::size_t const n = rnd(5), m = rnd(6);
  std::vector<Set> list(n); std::string all; 
  for (std::size_t i = 0; i < n; ++i)
  {
    Set& s = list[i]; s = setting();
    // neighbouring bands often share values
    if (i > 0 && rnd(3) == 0) { Set const fresh = s; s = list[rnd(i)]; switch (rnd(5)) { case 0: s.t = fresh.t; break; case 1: s.f = fresh.f; break; case 2: s.q = fresh.q; break; case 3: s.g = fresh.g; break; } }
    all += text(s);
  }
  setcase("calculateIirCoefficients<%s> rate=%.9g, %zu settings %s, %zu sections", tn, fs, n, all.c_str(), m);
  rbbl::ParametricIirCoefficientList<T> pl; pl.resize(n); for (std::size_t i = 0; i < n; ++i) pl[i] = mk(list[i]);
  rbbl::BiquadCoefficientList<T> bl(m); for (std::size_t i = 0; i < m; ++i) for (int k = 0; k < 5; ++k) bl[i][k] = (T)(7 + k);
  bool thrown = false;
  try { rbbl::ParametricIirCoefficientCalculator::calculateIirCoefficients<T>(pl, bl, (T)fs); } catch (std::invalid_argument const&) { thrown = true; }
  if (thrown != (n > m)) fail(thrown ? "valid lists rejected" : "too few sections accepted");
  if (bl.size() != m) fail("list has %zu sections", bl.size());
  if (!thrown) for (std::size_t i = 0; i < m; ++i)
  {
    if (i < n) compare(list[i], (T)fs, bl[i]);
    else for (int k = 0; k < 5; ++k) if (bl[i][k] != (T)(k == 0)) fail("section %zu is not flat", i);
  }
  for (auto const& s : list)
  {
    setcase("calculateIirCoefficients<%s> rate=%.9g %s", tn, fs, text(s).c_str());
    auto const p = mk(s);
    if (p.type() != types[s.t] || p.frequency() != (T)s.f || p.quality() != (T)s.q || p.gain() != (T)s.g) fail("settings are not kept");
    compare(s, (T)fs, rbbl::ParametricIirCoefficientCalculator::calculateIirCoefficients<T>(p, (T)fs));
    rbbl::BiquadCoefficient<T> b; rbbl::ParametricIirCoefficientCalculator::calculateIirCoefficients<T>(p, b, (T)fs);
    compare(s, (T)fs, b);
    if (rbbl::ParametricIirCoefficientBase::stringToTypeId(names[s.t]) != types[s.t] || rbbl::ParametricIirCoefficientBase::typeIdToString(types[s.t]) != names[s.t]) fail("name of the type");
  }
}
int main(int argc, char** argv) { return drv::run(argc, argv, [](bool) { one<float>(); one<double>(); }); }
