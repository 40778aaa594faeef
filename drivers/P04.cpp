#include "drv.hpp"
#include <librbbl/circular_buffer.hpp>
#include <libefl/basic_matrix.hpp>
#include <stdexcept>
using namespace visr;
using namespace drv;
template<typename T> void history(bool first)
{
  static std::size_t const als[] = { 0, 1, 2, 4, 8, 16, 32 };
  std::size_t ch = rnd(4) + (rnd(10) ? 1 : 0), len = 1 + rnd(rnd(2) ? 6 : 40), al = als[rnd(7)];
  long h;
  if (first && hint("ring_length", h) && h > 0 && h < 300) len = h;
  if (first && hint("ring_channels", h) && h >= 0 && h < 9) ch = h;
  if (first && hint("alignment", h) && h >= 0 && h <= 64 && (h & (h - 1)) == 0) al = h;
  std::string log;
  char b[200];
  snprintf(b, 200, "CircularBuffer<%s>(%zu,%zu,%zu);", sizeof(T) == 4 ? "float" : "double", ch, len, al);
  log = b;
  setcase("%s", log.c_str());
  rbbl::CircularBuffer<T> r(ch, len, al);
  std::vector<std::vector<T>> hist(ch, std::vector<T>(3 * len + 64, T(0)));
  T next = 1;
  if (r.length() != len || r.numberOfChannels() != ch) fail("length or channel count");
  for (int step = 0; step < 60; ++step)
  {
    int op = rnd(7);
    std::size_t n = rnd(len + 1);
    if (rnd(12) == 0) n = len + 1 + rnd(3);
    if (rnd(6) == 0) n = len;
    long hn;
    if (first && step == 0 && hint("numberOfSamples", hn) && hn >= 0 && hn <= 400) n = hn;
    std::size_t nch = rnd(15) ? ch : ch + 1 + rnd(2);
    if (nch != ch && rnd(2) && ch) nch = ch - 1;
    std::size_t cs = n + rnd(3);
    std::vector<T> data(std::max<std::size_t>(1, (nch ? nch : 1) * (cs + 1)));
    for (auto& x : data) x = next++;
    bool bad = n > len || (op < 3 && nch != ch), thrown = false;
    snprintf(b, 200, "op%d(n=%zu,nch=%zu,cs=%zu);", op, n, nch, cs);
    log += b;
    setcase("%s", log.size() > 3500 ? log.substr(log.size() - 3500).c_str() : log.c_str());
    std::vector<std::vector<T>> in(ch, std::vector<T>(n));
    bool wrote = false;
    try
    {
      if (op == 0)
      {
        std::vector<T const*> p(nch);
        for (std::size_t c = 0; c < nch; ++c) { p[c] = data.data() + c * cs; for (std::size_t i = 0; i < n && c < ch; ++i) in[c][i] = p[c][i]; }
        wrote = true;
        r.write(p.data(), nch, n, rnd(2) ? 0 : 1);
      }
      else if (op == 1)
      {
        for (std::size_t c = 0; c < nch && c < ch; ++c) for (std::size_t i = 0; i < n; ++i) in[c][i] = data[c * cs + i];
        wrote = true;
        r.write(data.data(), cs, nch, n, rnd(2) ? 0 : 1);
      }
      else if (op == 2)
      {
        efl::BasicMatrix<T> m(nch, n, als[1 + rnd(6)]);
        for (std::size_t c = 0; c < nch; ++c) for (std::size_t i = 0; i < n; ++i) { m(c, i) = data[c * cs + i]; if (c < ch) in[c][i] = m(c, i); }
        wrote = true;
        r.write(m);
      }
      else if (op == 3 || op == 4)
      {
        if (n > len) { wrote = true; r.commitWrite(n); }
        else
        {
          std::vector<T*> p(ch);
          if (op == 3) r.getWritePointers(p.data());
          else for (std::size_t c = 0; c < ch; ++c) p[c] = r.getFirstWritePointer() + c * r.stride();
          for (std::size_t c = 0; c < ch; ++c) for (std::size_t i = 0; i < n; ++i) { p[c][i] = next++; in[c][i] = p[c][i]; }
          wrote = true;
          r.commitWrite(n);
        }
      }
      else if (op == 5)
      { // read with common / individual delay; rejected delays throw
        std::vector<T const*> p(ch);
        std::vector<std::size_t> d(ch);
        bool b1 = rnd(4) == 0, b2 = false;
        std::size_t dl = b1 ? len + 1 + rnd(5) : rnd(len);
        bool t1 = false;
        try { r.getReadPointers(dl, p.data()); } catch (std::invalid_argument&) { t1 = true; }
        if (t1 != b1) fail("getReadPointers(%zu) on length %zu: throws=%d", dl, len, t1);
        if (!t1) for (std::size_t c = 0; c < ch; ++c) for (std::size_t k = 0; k < dl; ++k) if (p[c][k] != hist[c][hist[c].size() - dl + k]) fail("common delay %zu channel %zu sample %zu", dl, c, k);
        for (std::size_t c = 0; c < ch; ++c) { d[c] = rnd(6) == 0 ? len + 1 + rnd(9) : rnd(len); b2 |= d[c] > len; }
        t1 = false;
        try { r.getReadPointers(d.data(), p.data()); } catch (std::invalid_argument&) { t1 = true; }
        if (t1 != b2) fail("getReadPointers(individual) throws=%d", t1);
        if (!t1) for (std::size_t c = 0; c < ch; ++c) for (std::size_t k = 0; k < d[c]; ++k) if (p[c][k] != hist[c][hist[c].size() - d[c] + k]) fail("delay %zu channel %zu sample %zu", d[c], c, k);
      }
    }
    catch (std::invalid_argument&) { thrown = true; }
    if (wrote && thrown != bad) fail("throws=%d expected %d", thrown, bad);
    if (wrote && !thrown)
      for (std::size_t c = 0; c < ch; ++c) { hist[c].insert(hist[c].end(), in[c].begin(), in[c].end()); }
    for (std::size_t c = 0; c < ch; ++c)
    {
      std::size_t d = len;
      T const* p = r.getReadPointer(c, d);
      for (std::size_t k = 0; k < d; ++k) if (p[k] != hist[c][hist[c].size() - d + k]) fail("channel %zu: sample written %zu samples ago is %g instead of %g", c, d - k, double(p[k]), double(hist[c][hist[c].size() - d + k]));
      d = rnd(len + 1);
      p = r.getReadPointer(c, d);
      for (std::size_t k = 0; k < d; ++k) if (p[k] != hist[c][hist[c].size() - d + k]) fail("channel %zu delay %zu", c, d);
      if (hist[c].size() > 6 * len + 200) hist[c].erase(hist[c].begin(), hist[c].end() - 2 * len);
    }
  }
}
int main(int argc, char** argv) { return run(argc, argv, [](bool first) { history<float>(first); history<double>(first); }); }
