#include "drv.hpp"
#include <libefl/vector_conversions.hpp>
#include <limits>
#include <memory>
#include <type_traits>
using namespace visr::efl;
using namespace drv;

template <typename T> struct Name;
template <> struct Name<float> { static char const* n() { return "float"; } };
template <> struct Name<double> { static char const* n() { return "double"; } };
template <> struct Name<int8_t> { static char const* n() { return "int8"; } };
template <> struct Name<int16_t> { static char const* n() { return "int16"; } };
template <> struct Name<int32_t> { static char const* n() { return "int32"; } };
template <> struct Name<int64_t> { static char const* n() { return "int64"; } };

template <typename I, typename O> long double lim()
{
  // values whose conversion is defined: inside the range of the destination
  long double m = std::is_integral<O>::value ? (long double)std::numeric_limits<O>::max() : std::is_same<O, float>::value ? 1e30L : 1e200L;
  if (std::is_integral<I>::value) m = std::min(m, (long double)std::numeric_limits<I>::max());
  else if (!std::is_integral<O>::value) m = std::min(m, std::is_same<I, float>::value ? 1e30L : 1e200L);
  else if (std::is_same<I, float>::value) m *= 1 - 1e-7L;
  else m *= 1 - 1e-15L;
  return m;
}
template <typename I, typename O> I value()
{
  long double m = lim<I, O>();
  switch (rnd(6))
  {
  case 0: { long double x = std::is_integral<I>::value ? (long double)(int)rnd(100) - 50 : ((int)rnd(400) - 200) / 2.0L; return (I)std::max(-m, std::min(m, x)); } // ties
  case 1: return (I)m;
  case 2: return (I)-m;
  case 3: return (I)((long double)rndf(-1, 1) * std::min(m, 1000.0L));
  case 4: return (I)((long double)rndf(-1, 1) * std::min(m, 2.0L) + (std::is_integral<I>::value ? 0 : 0.4999L * (m > 1)));
  default: { long double x = (long double)rndf(-1, 1) * m; if (std::is_integral<I>::value) { int64_t y = (int64_t)x; return (I)(y | 1); } return (I)x; }
  }
}
template <typename I, typename O> O expect(I v)
{
  if (std::is_floating_point<I>::value && std::is_integral<O>::value) return (O)std::llrint(v);
  return static_cast<O>(v);
}

template <typename I, typename O> void one()
{
  unsigned const fn = rnd(4);
  unsigned const ns[] = { 0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 33, 64, 100 };
  std::size_t n = ns[rnd(16)], is = (fn & 1) ? rnd(6) : 1, os = (fn & 2) ? 1 + rnd(5) : 1;
  static std::size_t const als[] = { 0, 1, 2, 4, 8, 16 };
  std::size_t al = als[rnd(6)], oi = rnd(3) ? 0 : rnd(9), oo = rnd(3) ? 0 : rnd(9);
  long h;
  if (hint("n", h) && h < 2000 && rnd(2)) n = h;
  if (hint("alignment", h) && h < 64 && rnd(2)) al = h;
  std::size_t li = n ? (n - 1) * is + 1 : 0, lo = n ? (n - 1) * os + 1 : 0;
  std::unique_ptr<char[]> ib(new char[(li + oi) * sizeof(I) + 256]), ob(new char[(lo + oo + 16) * sizeof(O) + 256]);
  I* in = (I*)(((uintptr_t)ib.get() + 127) / 128 * 128) + oi;
  O* base = (O*)(((uintptr_t)ob.get() + 127) / 128 * 128);
  O* out = base + oo;
  for (std::size_t k = 0; k < li; ++k) in[k] = value<I, O>();
  std::size_t const tot = oo + lo + 8;
  for (std::size_t k = 0; k < tot; ++k) base[k] = (O)77;
  setcase("%s<%s,%s>(n=%zu,inputStride=%zu,outputStride=%zu,alignment=%zu,input offset=%zu,output offset=%zu)",
          fn == 0 ? "vectorConvert" : fn == 1 ? "vectorConvertInputStride" : fn == 2 ? "vectorConvertOutputStride" : "vectorConvertInputOutputStride", Name<I>::n(), Name<O>::n(), n, is, os, al, oi, oo);
  ErrorCode r = fn == 0 ? vectorConvert<I, O>(in, out, n, al) : fn == 1 ? vectorConvertInputStride<I, O>(in, out, n, is, al)
    : fn == 2 ? vectorConvertOutputStride<I, O>(in, out, n, os, al) : vectorConvertInputOutputStride<I, O>(in, out, n, is, os, al);
  bool ok = al == 0 || ((uintptr_t)in % (al * sizeof(I)) == 0 && (uintptr_t)out % (al * sizeof(O)) == 0);
  if (ok != (r == noError)) fail("returned %d", (int)r);
  for (std::size_t k = 0; k < tot; ++k)
  {
    O e = (O)77;
    std::size_t rel = k - oo;
    bool w = ok && k >= oo && rel % os == 0 && rel / os < n;
    if (w) e = expect<I, O>(in[rel / os * is]);
    if (base[k] != e) fail("element %ld is %.17Lg, expected %.17Lg%s", (long)k - (long)oo, (long double)base[k], (long double)e, w ? "" : " (not to be written)");
  }
}
template <typename I> void out()
{
  switch (rnd(6)) { case 0: one<I, float>(); break; case 1: one<I, double>(); break; case 2: one<I, int8_t>(); break; case 3: one<I, int16_t>(); break; case 4: one<I, int32_t>(); break; default: one<I, int64_t>(); }
}
int main(int argc, char** argv)
{
  return run(argc, argv, [](bool) {
    switch (rnd(6)) { case 0: out<float>(); break; case 1: out<double>(); break; case 2: out<int8_t>(); break; case 3: out<int16_t>(); break; case 4: out<int32_t>(); break; default: out<int64_t>(); }
  });
}
