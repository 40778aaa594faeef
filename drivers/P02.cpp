// Histories of operations on AlignedArray, BasicVector and BasicMatrix against a shadow model.
#include "drv.hpp"
#include <complex>
#include <libefl/aligned_array.hpp>
#include <libefl/alignment.hpp>
#include <libefl/basic_matrix.hpp>
#include <libefl/basic_vector.hpp>
using namespace visr::efl;
using std::complex;
using std::size_t;
namespace
{
template <typename T> struct Nm;
template <> struct Nm<float> { static char const* n() { return "float"; } };
template <> struct Nm<double> { static char const* n() { return "double"; } };
template <> struct Nm<complex<float>> { static char const* n() { return "complex<float>"; } };
template <> struct Nm<complex<double>> { static char const* n() { return "complex<double>"; } };
template <typename T> T mk() { return T(float(drv::rnd(1000)) - 500.f); }
bool pow2(size_t a) { if (a == 0) return false; while (a % 2 == 0) a /= 2; return a == 1; }
size_t rndAl() { long h; if (drv::hint("alignment", h) && drv::rnd(4) == 0 && h >= 0 && h < 4096) return size_t(h); static size_t const c[] = {0, 1, 2, 4, 8, 16, 32, 64, 128, 256, 3, 5, 6, 7, 12, 24, 48, 96, 33, 63, 65, 100}; return c[drv::rnd(22)]; }
size_t rndAlOk() { return drv::rnd(9) ? size_t(1) << drv::rnd(8) : 0; }
size_t rndN(size_t m = 70) { return drv::rnd(5) == 0 ? drv::rnd(3) : drv::rnd(m); }
std::string trace;
void tr(char const* f, ...)
{
  char b[200]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap);
  trace += b; drv::setcase("%s", trace.c_str());
}
template <typename T> void checkAl(T const* p, size_t al, char const* w)
{
  if (p && reinterpret_cast<uintptr_t>(p) % ((al ? al : 1) * sizeof(T))) drv::fail("%s: data not aligned to %zu elements", w, al);
}

void fPredicates()
{
  size_t al = rndAl();
  if (drv::rnd(3) == 0) al = size_t(1) << drv::rnd(48);
  if (drv::rnd(4) == 0) al += drv::rnd(3) - 1;
  drv::setcase("alignmentIsPowerOfTwo(%zu)", al);
  if (alignmentIsPowerOfTwo(al) != pow2(al)) drv::fail("wrong result");
  size_t n = drv::rnd(3) ? drv::rnd(500) : (size_t(drv::rng()()) << drv::rnd(20));
  drv::setcase("nextAlignedSize(%zu,%zu)", n, al);
  size_t r = nextAlignedSize(n, al), want = al == 0 ? n : ((n + al - 1) / al) * al;
  if (r != want) drv::fail("got %zu, expected %zu", r, want);
  uintptr_t ad = (uintptr_t(drv::rng()()) << drv::rnd(12)) + (drv::rnd(2) ? 0 : drv::rnd(64));
#define CK(T)                                                                                                              \
  {                                                                                                                        \
    drv::setcase("checkAlignment<%s>(address %#lx, %zu)", #T, (unsigned long)ad, al);                                      \
    bool g = checkAlignment(reinterpret_cast<T const*>(ad), al), w = al == 0 || (pow2(al) && ad % (al * sizeof(T)) == 0); \
    if (g != w) drv::fail("got %d, expected %d", int(g), int(w));                                                          \
  }
  CK(float) CK(double) CK(complex<float>) CK(complex<double>) CK(char) CK(short) CK(int)
}

template <typename T> void ckArr(AlignedArray<T> const& a, size_t n, size_t al, std::vector<T> const* c)
{
  if (a.size() != n) drv::fail("size %zu, expected %zu", a.size(), n);
  if (a.alignmentElements() != al) drv::fail("alignment %zu, expected %zu", a.alignmentElements(), al);
  if (a.alignmentBytes() != al * sizeof(T)) drv::fail("alignmentBytes %zu", a.alignmentBytes());
  if (n && !a.data()) drv::fail("null data");
  if (!n && a.data()) drv::fail("data of an empty array");
  checkAl(a.data(), al, "array");
  if (c) for (size_t i = 0; i < n; ++i) if (a[i] != (*c)[i]) drv::fail("element %zu changed", i);
}
template <typename T> void fArray()
{
  trace.clear();
  size_t al = rndAl(), n = rndN();
  tr("AlignedArray<%s> a(%zu,%zu);", Nm<T>::n(), n, al);
  bool ok = al == 0 || pow2(al);
  try { AlignedArray<T> x(n, al); if (!ok) drv::fail("no exception"); }
  catch (std::invalid_argument&) { if (ok) drv::fail("exception"); return; }
  struct S { AlignedArray<T> a; size_t n, al; std::vector<T> c; };
  std::vector<S*> v;
  size_t al2 = drv::rnd(3) ? al : rndAlOk();
  size_t nn[] = {n, rndN(), rndN()};
  size_t aa[] = {al, al2, al};
  for (int i = 0; i < 3; ++i)
  {
    tr("a%d(%zu,%zu);", i, nn[i], aa[i]);
    v.push_back(new S{AlignedArray<T>(nn[i], aa[i]), nn[i], aa[i] ? aa[i] : 1, {}});
    for (size_t k = 0; k < nn[i]; ++k) { T x = mk<T>(); v[i]->a[k] = x; v[i]->c.push_back(x); }
  }
  for (int op = 0, e = drv::rnd(9); op < e; ++op)
  {
    S &p = *v[drv::rnd(3)], &q = *v[drv::rnd(3)];
    switch (drv::rnd(5))
    {
    case 0:
      p.n = rndN(); tr("resize(%zu);", p.n); p.a.resize(p.n);
      p.c.clear();
      for (size_t k = 0; k < p.n; ++k) { T x = mk<T>(); p.a[k] = x; p.c.push_back(x); }
      break;
    case 1:
      tr("swap(%d);", int(p.al == q.al));
      try { p.a.swap(q.a); if (p.al != q.al) drv::fail("swap with different alignment did not throw"); std::swap(p.n, q.n); std::swap(p.c, q.c); }
      catch (std::logic_error&) { if (p.al == q.al) drv::fail("swap threw"); }
      break;
    case 2:
      if (&p == &q) break;
      tr("move assign(%d);", int(p.al == q.al));
      try { p.a = std::move(q.a); if (p.al != q.al) drv::fail("move assignment with different alignment did not throw"); p.n = q.n; p.c = q.c; q.n = 0; q.c.clear(); }
      catch (std::logic_error&) { if (p.al == q.al) drv::fail("move assignment threw"); }
      break;
    case 3:
    {
      tr("move ctor;");
      AlignedArray<T> x(std::move(p.a));
      ckArr(x, p.n, p.al, &p.c);
      p.n = 0; p.c.clear();
      break;
    }
    default:
    {
      size_t i = drv::rnd(2) ? drv::rnd(80) : p.n + drv::rnd(2);
      tr("at(%zu) size %zu;", i, p.n);
      try { if (&p.a.at(i) != p.a.data() + i) drv::fail("at(): wrong element"); if (i >= p.n) drv::fail("at() did not throw"); }
      catch (std::out_of_range&) { if (i < p.n) drv::fail("at() threw"); }
      AlignedArray<T> const& ca = p.a;
      try { if (&ca.at(i) != p.a.data() + i) drv::fail("at(): wrong element"); if (i >= p.n) drv::fail("at() const did not throw"); }
      catch (std::out_of_range&) { if (i < p.n) drv::fail("at() const threw"); }
    }
    }
    for (S* s : v) ckArr(s->a, s->n, s->al, &s->c);
  }
  for (S* s : v) delete s;
}
template <typename T> void ckVec(BasicVector<T> const& a, std::vector<T> const& c, size_t al)
{
  if (a.size() != c.size()) drv::fail("size %zu, expected %zu", a.size(), c.size());
  if (a.alignmentElements() != al) drv::fail("alignment %zu, expected %zu", a.alignmentElements(), al);
  checkAl(a.data(), al, "vector");
  for (size_t i = 0; i < c.size(); ++i) if (a[i] != c[i] || a.at(i) != c[i] || a.data()[i] != c[i]) drv::fail("element %zu wrong", i);
  bool th = false;
  try { a.at(c.size()); } catch (std::out_of_range&) { th = true; }
  if (!th) drv::fail("at(size) did not throw");
}
template <typename T> void fVector()
{
  trace.clear();
  struct S { BasicVector<T> a; size_t al; std::vector<T> c; };
  std::vector<S*> v;
  size_t al0 = rndAlOk();
  for (int i = 0; i < 3; ++i)
  {
    size_t al = drv::rnd(2) ? al0 : rndAlOk(), n = i && drv::rnd(2) ? v[0]->c.size() : rndN();
    tr("BasicVector<%s> v%d(%zu,%zu);", Nm<T>::n(), i, n, al);
    // dirty heap memory, so that missing initialisation shows
    { std::vector<T> d(n + al + 2, T(7)); volatile T* q = d.data(); (void)q; }
    v.push_back(new S{BasicVector<T>(n, al), al ? al : 1, std::vector<T>(n, T(0))});
    ckVec(v[i]->a, v[i]->c, v[i]->al);
    for (size_t k = 0; k < n; ++k) { T x = mk<T>(); v[i]->a[k] = x; v[i]->c[k] = x; }
  }
  for (int op = 0, e = 1 + drv::rnd(8); op < e; ++op)
  {
    S &p = *v[drv::rnd(3)], &q = *v[drv::rnd(3)];
    bool lay = p.al == q.al && p.c.size() == q.c.size();
    switch (drv::rnd(8))
    {
    case 0: { size_t n = rndN(); tr("resize(%zu);", n); p.a.resize(n); p.c.assign(n, T(0)); break; }
    case 1: tr("zeroFill;"); p.a.zeroFill(); p.c.assign(p.c.size(), T(0)); break;
    case 2: { T x = mk<T>(); tr("fillValue;"); p.a.fillValue(x); p.c.assign(p.c.size(), x); break; }
    case 3:
      if (&p == &q) break;
      tr("copy(sizes %zu<-%zu, alignments %zu<-%zu);", p.c.size(), q.c.size(), p.al, q.al);
      try { p.a.copy(q.a); if (p.c.size() != q.c.size()) drv::fail("copy did not throw"); p.c = q.c; }
      catch (std::invalid_argument&) { if (p.c.size() == q.c.size()) drv::fail("copy threw"); }
      break;
    case 4:
      if (&p == &q) break;
      tr("assign(sizes %zu<-%zu, alignments %zu<-%zu);", p.c.size(), q.c.size(), p.al, q.al); p.a.assign(q.a); p.c = q.c; break;
    case 5:
      tr("swap;");
      try { p.a.swap(q.a); if (!lay) drv::fail("swap did not throw"); std::swap(p.c, q.c); }
      catch (std::logic_error&) { if (lay) drv::fail("swap threw"); }
      break;
    case 6:
      if (&p == &q) break;
      tr("move assign;");
      try { p.a = std::move(q.a); if (p.al != q.al) drv::fail("move assignment did not throw"); p.c = q.c; q.c.clear(); }
      catch (std::logic_error&) { if (p.al == q.al) drv::fail("move assignment threw"); }
      break;
    default:
    {
      tr("list ctor;");
      T a = mk<T>(), b = mk<T>(), c = mk<T>();
      BasicVector<T> x({a, b, c}, p.al);
      ckVec(x, std::vector<T>{a, b, c}, p.al);
    }
    }
    for (S* s : v) ckVec(s->a, s->c, s->al);
  }
  for (S* s : v) delete s;
}
template <typename T> struct MS { BasicMatrix<T> a; size_t al, r, c; std::vector<T> d; };
template <typename T> void ckMat(MS<T> const& s)
{
  BasicMatrix<T> const& a = s.a;
  if (a.numberOfRows() != s.r || a.numberOfColumns() != s.c) drv::fail("matrix is %zux%zu, expected %zux%zu", a.numberOfRows(), a.numberOfColumns(), s.r, s.c);
  if (a.alignmentElements() != s.al) drv::fail("alignment %zu, expected %zu", a.alignmentElements(), s.al);
  if (a.stride() < s.c || (s.c && a.stride() % s.al)) drv::fail("stride %zu", a.stride());
  for (size_t i = 0; i < s.r; ++i)
  {
    if (s.c) checkAl(a.row(i), s.al, "row");
    for (size_t j = 0; j < s.c; ++j)
      if (a(i, j) != s.d[i * s.c + j] || a.at(i, j) != s.d[i * s.c + j] || a.row(i)[j] != s.d[i * s.c + j] || a.data()[i * a.stride() + j] != s.d[i * s.c + j]) drv::fail("element (%zu,%zu) wrong", i, j);
  }
  for (int k = 0; k < 3; ++k)
  {
    size_t i = k == 0 ? s.r : drv::rnd(s.r + 1), j = k == 1 ? s.c : drv::rnd(s.c + 2);
    bool th = false;
    try { a.at(i, j); } catch (std::out_of_range&) { th = true; }
    if (th != (i >= s.r || j >= s.c)) drv::fail("at(%zu,%zu) of a %zux%zu matrix: throws=%d", i, j, s.r, s.c, int(th));
    th = false;
    try { const_cast<BasicMatrix<T>&>(a).at(i, j); } catch (std::out_of_range&) { th = true; }
    if (th != (i >= s.r || j >= s.c)) drv::fail("at(%zu,%zu) of a %zux%zu matrix: throws=%d", i, j, s.r, s.c, int(th));
  }
}
template <typename T> void fMatrix()
{
  trace.clear();
  std::vector<MS<T>*> v;
  size_t al0 = rndAlOk();
  auto dim = [] { return drv::rnd(6) == 0 ? size_t(0) : size_t(1 + drv::rnd(12)); };
  for (int i = 0; i < 3; ++i)
  {
    size_t al = drv::rnd(2) ? al0 : rndAlOk(), r = i && drv::rnd(2) ? v[0]->r : dim(), c = i && drv::rnd(2) ? v[0]->c : dim();
    tr("BasicMatrix<%s> m%d(%zu,%zu,%zu);", Nm<T>::n(), i, r, c, al);
    v.push_back(new MS<T>{BasicMatrix<T>(r, c, al), al ? al : 1, r, c, std::vector<T>(r * c, T(0))});
    ckMat(*v[i]);
    for (size_t k = 0; k < r; ++k) for (size_t j = 0; j < c; ++j) { T x = mk<T>(); v[i]->a(k, j) = x; v[i]->d[k * c + j] = x; }
    ckMat(*v[i]);
  }
  for (int op = 0, e = 1 + drv::rnd(8); op < e; ++op)
  {
    MS<T> &p = *v[drv::rnd(3)], &q = *v[drv::rnd(3)];
    bool dims = p.r == q.r && p.c == q.c;
    switch (drv::rnd(9))
    {
    case 0: { size_t r = dim(), c = dim(); tr("resize(%zu,%zu);", r, c); p.a.resize(r, c); p.r = r; p.c = c; p.d.assign(r * c, T(0)); break; }
    case 1: tr("zeroFill;"); p.a.zeroFill(); p.d.assign(p.d.size(), T(0)); break;
    case 2: { T x = mk<T>(); tr("fillValue;"); p.a.fillValue(x); p.d.assign(p.d.size(), x); break; }
    case 3:
      if (&p == &q) break;
      tr("copy(%zux%zu al %zu <- %zux%zu al %zu);", p.r, p.c, p.al, q.r, q.c, q.al);
      try { p.a.copy(q.a); if (!dims) drv::fail("copy did not throw"); p.d = q.d; }
      catch (std::invalid_argument&) { if (dims) drv::fail("copy threw"); }
      break;
    case 4:
    {
      bool lay = dims && p.al == q.al && p.a.stride() == q.a.stride();
      tr("swap;");
      try { p.a.swap(q.a); if (!lay) drv::fail("swap did not throw"); std::swap(p.d, q.d); }
      catch (std::logic_error&) { if (lay) drv::fail("swap threw"); }
      break;
    }
    case 5:
    {
      if (!p.r) break;
      size_t i = drv::rnd(p.r); tr("setRow(%zu);", i);
      std::vector<T> x; for (size_t k = 0; k < p.c; ++k) x.push_back(mk<T>());
      p.a.setRow(i, x.data()); for (size_t k = 0; k < p.c; ++k) p.d[i * p.c + k] = x[k];
      break;
    }
    case 6:
    {
      if (!p.c) break;
      size_t i = drv::rnd(p.c); tr("setColumn(%zu);", i);
      std::vector<T> x; for (size_t k = 0; k < p.r; ++k) x.push_back(mk<T>());
      p.a.setColumn(i, x.data()); for (size_t k = 0; k < p.r; ++k) p.d[k * p.c + i] = x[k];
      break;
    }
    case 7:
      if (&p == &q) break;
      tr("move assign(%zux%zu al %zu <- %zux%zu al %zu);", p.r, p.c, p.al, q.r, q.c, q.al);
      try
      {
        p.a = std::move(q.a); if (p.al != q.al) drv::fail("move assignment did not throw");
        p.r = q.r; p.c = q.c; p.d = q.d;
        q.a.resize(1, 2); q.r = 1; q.c = 2; q.d.assign(2, T(0));
      }
      catch (std::logic_error&) { if (p.al == q.al) drv::fail("move assignment threw"); }
      break;
    default:
    {
      tr("list ctor;");
      T a = mk<T>(), b = mk<T>(), c = mk<T>(), d = mk<T>(), f = mk<T>(), g = mk<T>();
      MS<T> x{BasicMatrix<T>(2, 3, {{a, b, c}, {d, f, g}}, p.al), p.al, 2, 3, {a, b, c, d, f, g}};
      ckMat(x);
      BasicMatrix<T> y(std::move(x.a));
      MS<T> z{std::move(y), p.al, 2, 3, {a, b, c, d, f, g}};
      ckMat(z);
      int bad = 0;
      try { BasicMatrix<T> w(2, 2, {{a, b, c}, {d, f, g}}, p.al); } catch (std::invalid_argument&) { ++bad; }
      try { BasicMatrix<T> w(3, 3, {{a, b, c}, {d, f, g}}, p.al); } catch (std::invalid_argument&) { ++bad; }
      try { BasicMatrix<T> w(2, 3, {{a, b, c}, {d, f}}, p.al); } catch (std::invalid_argument&) { ++bad; }
      if (bad != 3) drv::fail("inconsistent initialiser accepted");
    }
    }
    for (MS<T>* s : v) ckMat(*s);
  }
  for (MS<T>* s : v) delete s;
}
} // namespace
int main(int argc, char** argv)
{
  return drv::run(argc, argv, [](bool) {
    for (int i = 0; i < 20; ++i) fPredicates();
    fArray<float>(); fArray<double>(); fArray<complex<float>>(); fArray<complex<double>>();
    fVector<float>(); fVector<double>(); fVector<complex<float>>();
    fMatrix<float>(); fMatrix<double>(); fMatrix<complex<double>>();
  });
}
