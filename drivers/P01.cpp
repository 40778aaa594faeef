// Executions of the vector kernels against an element-by-element oracle in long double.
#include "drv.hpp"
#include <complex>
#include <libefl/initialise_library.hpp>
#include <libefl/matrix_functions.hpp>
#include <libefl/intel_x86_64/vector_functions.hpp>
#include <libefl/reference/vector_functions.hpp>
#include <libefl/vector_functions.hpp>
using namespace visr::efl;
using std::complex;
using std::size_t;
namespace
{
typedef complex<long double> L;
template <typename T> struct Tr { static T mk() { return T(drv::rndf(-4, 4)); } static double eps() { return sizeof(T) == 4 ? 2e-6 : 1e-13; } };
template <typename S> struct Tr<complex<S>> { static complex<S> mk() { return complex<S>(S(drv::rndf(-4, 4)), S(drv::rndf(-4, 4))); } static double eps() { return sizeof(S) == 4 ? 4e-6 : 1e-13; } };
template <typename T> L toL(T x) { return L(x); }
template <typename S> L toL(complex<S> x) { return L(x.real(), x.imag()); }
bool near(L a, L b, double eps) { return std::abs(a - b) <= eps * (1 + std::abs(a) + std::abs(b)) * 8; }

template <typename T> struct Buf
{
  void* raw; T* p; size_t n; std::vector<T> before;
  Buf(size_t n_, size_t off) : n(n_)
  {
    size_t bytes = (n + off) * sizeof(T);
    if (posix_memalign(&raw, 1024, bytes ? bytes : 1)) abort();
    p = static_cast<T*>(raw) + off;
    T* q = static_cast<T*>(raw);
    for (size_t i = 0; i < n + off; ++i) q[i] = Tr<T>::mk();
    o = off; all.assign(q, q + n + off);
  }
  void snap() { T* q = static_cast<T*>(raw); all.assign(q, q + n + o); }
  T old(size_t i) const { return all[o + i]; }
  bool untouched() const { T* q = static_cast<T*>(raw); return 0 == memcmp(q, all.data(), all.size() * sizeof(T)); }
  bool frontUntouched() const { return 0 == memcmp(raw, all.data(), o * sizeof(T)); }
  ~Buf() { free(raw); }
  size_t o; std::vector<T> all;
};
// kernel ids
char const* names[] = {"Zero", "Fill", "Copy", "Add", "AddInplace", "AddConstant", "AddConstantInplace", "Subtract", "SubtractInplace", "SubtractConstant", "SubtractConstantInplace",
                       "Multiply", "MultiplyInplace", "MultiplyConstant", "MultiplyConstantInplace", "MultiplyAdd", "MultiplyAddInplace", "MultiplyConstantAdd", "MultiplyConstantAddInplace"};
// number of pure inputs, output also read, scalar
struct Shape { int in; bool io; bool s; };
Shape shapes[] = {{0, 0, 0}, {0, 0, 1}, {1, 0, 0}, {2, 0, 0}, {1, 1, 0}, {1, 0, 1}, {0, 1, 1}, {2, 0, 0}, {1, 1, 0}, {1, 0, 1}, {0, 1, 1}, {2, 0, 0}, {1, 1, 0}, {1, 0, 1}, {0, 1, 1}, {3, 0, 0}, {2, 1, 0}, {2, 0, 1}, {1, 1, 1}};
L oracle(int k, L s, L a, L b, L c, L y)
{
  switch (k)
  {
  case 0: return 0;
  case 1: return s;
  case 2: return a;
  case 3: return a + b;
  case 4: return a + y;
  case 5: return a + s;
  case 6: return y + s;
  case 7: return a - b;
  case 8: return a - y;
  case 9: return a - s;
  case 10: return y - s;
  case 11: return a * b;
  case 12: return a * y;
  case 13: return s * a;
  case 14: return s * y;
  case 15: return c + a * b;
  case 16: return y + a * b;
  case 17: return b + s * a;
  default: return y + s * a;
  }
}
#define CALLS(NS)                                                                                                                                                      \
  switch (k)                                                                                                                                                           \
  {                                                                                                                                                                    \
  case 0: return NS vectorZero<T>(y, n, al);                                                                                                                           \
  case 1: return NS vectorFill<T>(s, y, n, al);                                                                                                                        \
  case 2: return NS vectorCopy<T>(a, y, n, al);                                                                                                                        \
  case 3: return NS vectorAdd<T>(a, b, y, n, al);                                                                                                                      \
  case 4: return NS vectorAddInplace<T>(a, y, n, al);                                                                                                                  \
  case 5: return NS vectorAddConstant<T>(s, a, y, n, al);                                                                                                              \
  case 6: return NS vectorAddConstantInplace<T>(s, y, n, al);                                                                                                          \
  case 7: return NS vectorSubtract<T>(a, b, y, n, al);                                                                                                                 \
  case 8: return NS vectorSubtractInplace<T>(a, y, n, al);                                                                                                             \
  case 9: return NS vectorSubtractConstant<T>(s, a, y, n, al);                                                                                                         \
  case 10: return NS vectorSubtractConstantInplace<T>(s, y, n, al);                                                                                                    \
  case 11: return NS vectorMultiply<T>(a, b, y, n, al);                                                                                                                \
  case 12: return NS vectorMultiplyInplace<T>(a, y, n, al);                                                                                                            \
  case 13: return NS vectorMultiplyConstant<T>(s, a, y, n, al);                                                                                                        \
  case 14: return NS vectorMultiplyConstantInplace<T>(s, y, n, al);                                                                                                    \
  case 15: return NS vectorMultiplyAdd<T>(a, b, c, y, n, al);                                                                                                          \
  case 16: return NS vectorMultiplyAddInplace<T>(a, b, y, n, al);                                                                                                      \
  case 17: return NS vectorMultiplyConstantAdd<T>(s, a, b, y, n, al);                                                                                                  \
  default: return NS vectorMultiplyConstantAddInplace<T>(s, a, y, n, al);                                                                                              \
  }
template <typename T> ErrorCode callRef(int k, T s, T const* a, T const* b, T const* c, T* y, size_t n, size_t al) { CALLS(reference::) }
template <typename T> ErrorCode callDisp(int k, T s, T const* a, T const* b, T const* c, T* y, size_t n, size_t al) { CALLS() }
using intel_x86_64::Feature;
bool hasFeat(int f) { return f == 0 ? __builtin_cpu_supports("fma") && __builtin_cpu_supports("avx2") : f == 1 ? bool(__builtin_cpu_supports("avx")) : bool(__builtin_cpu_supports("sse4.2")); }
template <typename T, Feature F> ErrorCode callI(int k, T s, T const* a, T const* b, T const* c, T* y, size_t n, size_t al)
{
  if (k == 11) return intel_x86_64::vectorMultiply<T, F>(a, b, y, n, al);
  return intel_x86_64::vectorMultiplyAddInplace<T, F>(a, b, y, n, al);
}
template <typename T, Feature F> ErrorCode callIC(int k, T s, T const* a, T const* b, T const* c, T* y, size_t n, size_t al)
{
  if (k == 18) return intel_x86_64::vectorMultiplyConstantAddInplace<T, F>(s, a, y, n, al);
  return callI<T, F>(k, s, a, b, c, y, n, al);
}
template <typename T> using Fn = ErrorCode (*)(int, T, T const*, T const*, T const*, T*, size_t, size_t);
template <typename T> struct Intel { static Fn<T> get(int f, int k) { return nullptr; } };
template <> struct Intel<float> { static Fn<float> get(int f, int k) { if (k != 11 && k != 16 && k != 18) return nullptr; return f == 0 ? &callIC<float, Feature::FMA> : f == 1 ? &callIC<float, Feature::AVX> : &callIC<float, Feature::SSE>; } };
template <> struct Intel<complex<float>> { static Fn<complex<float>> get(int f, int k) { if (k != 11 && k != 16 && k != 18) return nullptr; return f == 0 ? &callIC<complex<float>, Feature::FMA> : f == 1 ? &callIC<complex<float>, Feature::AVX> : &callIC<complex<float>, Feature::SSE>; } };
template <> struct Intel<double> { static Fn<double> get(int f, int k) { if (k != 11 && k != 16) return nullptr; return f == 0 ? &callI<double, Feature::FMA> : f == 1 ? &callI<double, Feature::AVX> : &callI<double, Feature::SSE>; } };

bool aligned(void const* p, size_t al, size_t es) { return al == 0 || ((al & (al - 1)) == 0 && reinterpret_cast<uintptr_t>(p) % (al * es) == 0); }

template <typename T> void kernel(char const* tn, char const* impl, Fn<T> fn, int k, size_t n, size_t al, size_t const off[4], int alias)
{
  drv::setcase("%s::vector%s<%s> n=%zu alignment=%zu offsets=%zu,%zu,%zu,%zu alias=%d", impl, names[k], tn, n, al, off[0], off[1], off[2], off[3], alias);
  Buf<T> A(n, off[0]), B(n, off[1]), C(n, off[2]), Y(n, off[3]);
  if (shapes[k].in >= 1 && shapes[k].in < alias) alias = 0;
  T const* in[3] = {A.p, B.p, C.p};
  Buf<T>* ib[3] = {&A, &B, &C};
  if (alias > 0) { in[alias - 1] = Y.p; ib[alias - 1] = &Y; }
  T s = Tr<T>::mk();
  ErrorCode r = fn(k, s, in[0], in[1], in[2], Y.p, n, al);
  bool ok = aligned(Y.p, al, sizeof(T));
  for (int i = 0; i < shapes[k].in; ++i) ok = ok && aligned(in[i], al, sizeof(T));
  if (!ok)
  {
    if (r != alignmentError) drv::fail("misaligned argument accepted, return code %d", int(r));
    if (!Y.untouched()) drv::fail("destination modified although alignmentError was returned");
    return;
  }
  if (r != noError) drv::fail("return code %d for correctly aligned arguments", int(r));
  if (!A.untouched() || !B.untouched() || !C.untouched()) drv::fail("an input vector was modified");
  if (!Y.frontUntouched()) drv::fail("element before the destination modified");
  for (size_t i = 0; i < n; ++i)
  {
    L e = oracle(k, toL(s), toL(ib[0]->old(i)), toL(ib[1]->old(i)), toL(ib[2]->old(i)), toL(Y.old(i)));
    if (!near(e, toL(Y.p[i]), Tr<T>::eps())) drv::fail("element %zu is (%g,%g), expected (%g,%g)", i, double(toL(Y.p[i]).real()), double(toL(Y.p[i]).imag()), double(e.real()), double(e.imag()));
    if (k <= 2) { T w = k == 0 ? T(0) : k == 1 ? s : ib[0]->old(i); if (!(w == Y.p[i])) drv::fail("element %zu not exact", i); }
  }
}
template <typename T> void ramp(char const* tn, bool disp, size_t n, size_t al, size_t off, bool si, bool ei)
{
  drv::setcase("%svectorRamp<%s> n=%zu alignment=%zu offset=%zu startInclusive=%d endInclusive=%d", disp ? "" : "reference::", tn, n, al, off, si, ei);
  Buf<T> Y(n, off);
  T s = Tr<T>::mk(), e = Tr<T>::mk();
  ErrorCode r = disp ? vectorRamp<T>(Y.p, n, s, e, si, ei, al) : reference::vectorRamp<T>(Y.p, n, s, e, si, ei, al);
  if (!aligned(Y.p, al, sizeof(T))) { if (r != alignmentError || !Y.untouched()) drv::fail("misaligned argument accepted"); return; }
  if (r != noError) drv::fail("return code %d", int(r));
  if (!Y.frontUntouched()) drv::fail("element before the destination modified");
  L step = n > 1 ? (toL(e) - toL(s)) / L((long double)(n + 1 - (si ? 1 : 0) - (ei ? 1 : 0))) : L(0);
  for (size_t i = 0; i < n; ++i)
  {
    L x = n == 1 ? (si == ei ? (toL(s) + toL(e)) * L(0.5) : si ? toL(s) : toL(e)) : toL(s) + L((long double)(i + (si ? 0 : 1))) * step;
    if (!near(x, toL(Y.p[i]), Tr<T>::eps() * 4)) drv::fail("element %zu is %g, expected %g", i, double(toL(Y.p[i]).real()), double(x.real()));
  }
}
template <typename T> using RS = ErrorCode (*)(T const*, T const*, T*, T, T, size_t, bool, size_t);
template <typename T> void rampScaling(char const* tn, char const* impl, RS<T> fn, size_t n, size_t al, size_t const* off, bool acc, bool inplace)
{
  drv::setcase("%s::vectorRampScaling<%s> n=%zu alignment=%zu offsets=%zu,%zu,%zu accumulate=%d inplace=%d", impl, tn, n, al, off[0], off[1], off[2], acc, inplace);
  Buf<T> A(n, off[0]), R(n, off[1]), Y(n, off[2]);
  T b = Tr<T>::mk(), g = Tr<T>::mk();
  T const* in = inplace ? Y.p : A.p;
  ErrorCode r = fn(in, R.p, Y.p, b, g, n, acc, al);
  if (!(aligned(in, al, sizeof(T)) && aligned(R.p, al, sizeof(T)) && aligned(Y.p, al, sizeof(T))))
  {
    if (r != alignmentError || !Y.untouched()) drv::fail("misaligned argument accepted, return code %d", int(r));
    return;
  }
  if (r != noError) drv::fail("return code %d", int(r));
  if (!A.untouched() || !R.untouched() || !Y.frontUntouched()) drv::fail("wrote outside the destination");
  for (size_t i = 0; i < n; ++i)
  {
    L x = (toL(b) + toL(g) * toL(R.old(i))) * toL(inplace ? Y.old(i) : A.old(i));
    if (acc) x += toL(Y.old(i));
    if (!near(x, toL(Y.p[i]), Tr<T>::eps() * 8)) drv::fail("element %zu is %g, expected %g", i, double(toL(Y.p[i]).real()), double(x.real()));
  }
}
template <typename T> void strided(char const* tn, bool copy, size_t n, size_t ss, size_t ds, size_t al, size_t off)
{
  drv::setcase("vector%sStrided<%s> n=%zu srcStride=%zu destStride=%zu alignment=%zu offset=%zu", copy ? "Copy" : "Fill", tn, n, ss, ds, al, off);
  Buf<T> A(n ? (n - 1) * ss + 1 : 0, 0), Y(n ? (n - 1) * ds + 1 : 0, off);
  T s = Tr<T>::mk();
  ErrorCode r = copy ? vectorCopyStrided<T>(A.p, Y.p, ss, ds, n, al) : vectorFillStrided<T>(s, Y.p, ds, n, al);
  if (!aligned(Y.p, al, sizeof(T))) { if (r != alignmentError || !Y.untouched()) drv::fail("misaligned argument accepted"); return; }
  if (r != noError) drv::fail("return code %d", int(r));
  if (!A.untouched() || !Y.frontUntouched()) drv::fail("wrote outside the destination");
  for (size_t i = 0; i < Y.n; ++i)
  {
    T e = i % ds ? Y.old(i) : copy ? A.old(i / ds * ss) : s;
    if (!(e == Y.p[i])) drv::fail("element %zu wrong", i);
  }
}
template <typename T> void product(size_t m, size_t q, size_t k)
{
  size_t a = drv::rnd(3), b = drv::rnd(3), c = drv::rnd(3);
  bool t1 = drv::rnd(2), t2 = drv::rnd(2);
  size_t r1 = t1 ? 1 : k + a, c1 = t1 ? m + a : 1, r2 = t2 ? 1 : q + b, c2 = t2 ? k + b : 1, rr = q + c;
  drv::setcase("product<%zu> rows=%zu cols=%zu inner=%zu strides %zu,%zu %zu,%zu %zu", sizeof(T), m, q, k, r1, c1, r2, c2, rr);
  Buf<T> A((m + a) * (k + a), 0), B((k + b) * (q + b), 0), Y(m * (q + c), 0);
  visr::efl::product<T>(A.p, B.p, Y.p, m, q, k, r1, c1, r2, c2, rr, 1);
  if (!A.untouched() || !B.untouched()) drv::fail("operand modified");
  for (size_t i = 0; i < m; ++i)
    for (size_t j = 0; j < q + c; ++j)
    {
      L x = toL(Y.old(i * rr + j));
      if (j < q) { x = 0; for (size_t l = 0; l < k; ++l) x += toL(A.p[i * r1 + l * c1]) * toL(B.p[l * r2 + j * c2]); }
      if (!near(x, toL(Y.p[i * rr + j]), Tr<T>::eps() * 16)) drv::fail("element (%zu,%zu) wrong", i, j);
    }
}
template <typename T> void copyExtra(char const* tn, size_t n)
{
  drv::setcase("vectorCopy<%s> n=%zu", tn, n);
  std::vector<T> a(n), b(n + 2, T(7));
  for (auto& x : a) x = T(drv::rng()());
  vectorCopy<T>(a.data(), b.data() + 1, n, 0);
  for (size_t i = 0; i < n; ++i) if (a[i] != b[i + 1]) drv::fail("element %zu wrong", i);
  if (b[0] != T(7) || b[n + 1] != T(7)) drv::fail("wrote outside the destination");
}
template <typename T> void one(char const* tn, bool first)
{
  static size_t const als[] = {0, 1, 2, 4, 8, 16, 3};
  size_t n = drv::rnd(4) ? drv::rnd(37) : drv::rnd(300);
  long h;
  if (drv::hint("n", h) && h >= 0 && h < 5000 && drv::rnd(2)) n = h;
  size_t al = als[drv::rnd(7)];
  if (drv::hint("alignment", h) && h >= 0 && h < 5000 && drv::rnd(2)) al = h;
  size_t off[4];
  for (auto& o : off) o = drv::rnd(2) ? drv::rnd(9) : al * drv::rnd(2);
  if (drv::rnd(2)) off[0] = off[1] = off[2] = off[3] = drv::rnd(2) ? 0 : al;
  int k = drv::rnd(19), alias = drv::rnd(3) ? 0 : 1 + drv::rnd(3);
  switch (drv::rnd(10))
  {
  case 0: case 1: kernel<T>(tn, "reference", &callRef<T>, k, n, al, off, alias); break;
  case 2: case 3: kernel<T>(tn, "efl", &callDisp<T>, k, n, al, off, alias); break;
  case 4: case 5: case 6:
  {
    int ks[] = {11, 16, 18}, f = drv::rnd(3);
    k = ks[drv::rnd(3)];
    auto fn = Intel<T>::get(f, k);
    if (fn && hasFeat(f)) kernel<T>(tn, f == 0 ? "FMA" : f == 1 ? "AVX" : "SSE", fn, k, n, al, off, drv::rnd(4) ? 0 : alias);
    break;
  }
  case 7: ramp<T>(tn, drv::rnd(2), drv::rnd(2) ? drv::rnd(4) : n, al, off[0], drv::rnd(2), drv::rnd(2)); break;
  case 8:
    if (drv::rnd(2)) rampScaling<T>(tn, "reference", &reference::vectorRampScaling<T>, n, al, off, drv::rnd(2), drv::rnd(2));
    else rampScaling<T>(tn, "efl", &vectorRampScaling<T>, n, al, off, drv::rnd(2), drv::rnd(2));
    break;
  default: strided<T>(tn, drv::rnd(2), n, 1 + drv::rnd(5), 1 + drv::rnd(5), drv::rnd(2) ? 0 : al, off[0]); break;
  }
}
template <Feature F> void rsI(char const* nm, size_t n, size_t al, size_t const* off)
{
  rampScaling<float>("float", nm, &intel_x86_64::vectorRampScaling<float, F>, n, al, off, drv::rnd(2), drv::rnd(4) == 0);
}
} // namespace
int main(int argc, char** argv)
{
  return drv::run(argc, argv, [](bool first) {
    if (first || drv::rnd(500) == 0) { if (drv::rnd(2)) initialiseLibrary(); else uninitialiseLibrary(); }
    one<float>("float", first);
    one<double>("double", first);
    one<complex<float>>("complex<float>", first);
    one<complex<double>>("complex<double>", first);
    size_t n = drv::rnd(40), al = drv::rnd(2) ? 0 : size_t(1) << drv::rnd(5), off[3];
    for (auto& o : off) o = drv::rnd(2) ? drv::rnd(9) : al;
    int f = drv::rnd(3);
    if (hasFeat(f)) { if (f == 0) rsI<Feature::FMA>("FMA", n, al, off); else if (f == 1) rsI<Feature::AVX>("AVX", n, al, off); else rsI<Feature::SSE>("SSE", n, al, off); }
    if (drv::rnd(8) == 0)
    {
      product<float>(drv::rnd(6), drv::rnd(6), drv::rnd(6));
      product<double>(drv::rnd(6), drv::rnd(6), drv::rnd(6));
      copyExtra<int8_t>("int8_t", n); copyExtra<uint8_t>("uint8_t", n); copyExtra<int16_t>("int16_t", n); copyExtra<uint16_t>("uint16_t", n);
      copyExtra<int32_t>("int32_t", n); copyExtra<uint32_t>("uint32_t", n); copyExtra<int64_t>("int64_t", n); copyExtra<uint64_t>("uint64_t", n);
    }
  });
}
