#include "drv.hpp"
#include <libvisr/atomic_component.hpp>
#include <libvisr/audio_input.hpp>
#include <libvisr/audio_output.hpp>
#include <libvisr/signal_flow_context.hpp>
#include <librrl/audio_signal_flow.hpp>
#include <librrl/flexible_buffer_wrapper.hpp>
#include <algorithm>
using namespace visr;
using namespace drv;
// output channel c, sample k of block b: weighted sum of all input channels (permuted) plus a block counter
class Comp: public AtomicComponent
{
public:
  Comp(SignalFlowContext const& ctx, std::size_t nin, std::size_t nout): AtomicComponent(ctx, "c", nullptr), in("in", *this, nin), out("out", *this, nout) {}
  void process() override
  {
    std::size_t const ni = in.width(), no = out.width(), p = period();
    for (std::size_t c = 0; c < no; ++c)
      for (std::size_t k = 0; k < p; ++k)
      {
        float a = blocks * 4096.0f + c;
        for (std::size_t i = 0; i < ni; ++i) a += float(1 + (i + c) % 3) * in[i][p - 1 - k];
        out[c][k] = a;
      }
    ++blocks;
  }
  AudioInput in;
  AudioOutput out;
  unsigned blocks = 0;
};
void history(bool first)
{
  std::size_t period = 1 + rnd(rnd(3) ? 9 : 40), nin = rnd(8) ? 1 + rnd(4) : 0, nout = rnd(8) ? 1 + rnd(4) : 0;
  long h;
  if (first && hint("period", h) && h > 0 && h < 64) period = h;
  if (first && hint("captureChannels", h) && h >= 0 && h < 8) nin = h;
  if (first && hint("playbackChannels", h) && h >= 0 && h < 8) nout = h;
  char b[300];
  snprintf(b, sizeof b, "period=%zu in=%zu out=%zu;", period, nin, nout);
  std::string log = b;
  setcase("%s", b);
  SignalFlowContext ctx(period, 48000);
  Comp comp(ctx, nin, nout);
  rrl::AudioSignalFlow flow(comp);
  rrl::FlexibleBufferWrapper wrap(flow);
  std::vector<std::vector<float>> X(nin), Z(nout, std::vector<float>(period, 0.0f));
  std::size_t blocks = 0;
  float next = 1;
  for (int step = 0; step < 25; ++step)
  {
    std::size_t n = rnd(4) == 0 ? period * rnd(4) : rnd(3 * period + 2);
    if (first && step == 0 && hint("numFrames", h) && h >= 0 && h < 400) n = h;
    std::size_t const t0 = nin ? X[0].size() : 0, z0 = t0;
    static std::size_t T = 0;
    if (step == 0) T = 0;
    std::size_t const start = T;
    (void)z0;
    int op = rnd(2);
    bool inter = rnd(2), ointer = rnd(2);
    std::size_t css = op == 0 ? 1 : inter ? nin + rnd(2) : 1 + rnd(3), ccs = inter ? 1 : n * std::max<std::size_t>(1, css) + rnd(3);
    std::size_t pss = op == 0 ? 1 : ointer ? nout + rnd(2) : 1 + rnd(3), pcs = ointer ? 1 : n * std::max<std::size_t>(1, pss) + rnd(3);
    if (!css) css = 1;
    if (!pss) pss = 1;
    if (op == 0) { ccs = n; pcs = n; }
    snprintf(b, sizeof b, "%s(n=%zu,css=%zu,ccs=%zu,pss=%zu,pcs=%zu);", op ? "strided" : "pointers", n, css, ccs, pss, pcs);
    log += b;
    setcase("%s", log.size() > 3500 ? log.substr(log.size() - 3500).c_str() : log.c_str());
    // exact extents, so that ASan sees any stray access
    std::size_t const isz = n && nin ? (nin - 1) * ccs + (n - 1) * css + 1 : 0, osz = n && nout ? (nout - 1) * pcs + (n - 1) * pss + 1 : 0;
    std::vector<float> in(isz, -7.0f), out(osz, -9.0f);
    std::vector<char> used(osz, 0);
    for (std::size_t c = 0; c < nin; ++c)
      for (std::size_t i = 0; i < n; ++i) { float const x = float(int(next * 37) % 101); next += 1; in[c * ccs + i * css] = x; X[c].push_back(x); }
    float* inp = new float[isz];
    float* outp = new float[osz];
    std::copy(in.begin(), in.end(), inp);
    std::copy(out.begin(), out.end(), outp);
    if (op == 0)
    {
      std::vector<float const*> ip(nin);
      std::vector<float*> opp(nout);
      for (std::size_t c = 0; c < nin; ++c) ip[c] = inp + c * ccs;
      for (std::size_t c = 0; c < nout; ++c) opp[c] = outp + c * pcs;
      wrap.process(ip.data(), opp.data(), n);
    }
    else wrap.process(inp, ccs, css, outp, pcs, pss, n);
    T += n;
    while ((blocks + 1) * period <= T)
    {
      for (std::size_t c = 0; c < nout; ++c)
        for (std::size_t k = 0; k < period; ++k)
        {
          float a = blocks * 4096.0f + c;
          for (std::size_t i = 0; i < nin; ++i) a += float(1 + (i + c) % 3) * X[i][blocks * period + period - 1 - k];
          Z[c].push_back(a);
        }
      ++blocks;
    }
    if (comp.blocks != blocks) fail("flow executed %u times, expected %zu", comp.blocks, blocks);
    for (std::size_t c = 0; c < nout; ++c)
      for (std::size_t i = 0; i < n; ++i)
      {
        used[c * pcs + i * pss] = 1;
        if (outp[c * pcs + i * pss] != Z[c][start + i]) fail("output channel %zu frame %zu: got %g expected %g", c, i, outp[c * pcs + i * pss], Z[c][start + i]);
      }
    for (std::size_t i = 0; i < osz; ++i) if (!used[i] && outp[i] != -9.0f) fail("output memory between the samples changed at %zu", i);
    for (std::size_t i = 0; i < isz; ++i) if (inp[i] != in[i]) fail("input changed");
    delete[] inp;
    delete[] outp;
  }
}
int main(int argc, char** argv) { return run(argc, argv, history); }
