#include "drv.hpp"
#include <libefl/filter_functions.hpp>
#include <libefl/reference/filter_functions.hpp>
#include <libpml/biquad_parameter.hpp>
#include <libpml/double_buffering_protocol.hpp>
#include <libpml/matrix_parameter_config.hpp>
#include <librbbl/biquad_coefficient.hpp>
#include <librcl/biquad_iir_filter.hpp>
#include <librrl/audio_signal_flow.hpp>
#include <libvisr/audio_input.hpp>
#include <libvisr/audio_output.hpp>
#include <libvisr/composite_component.hpp>
#include <libvisr/parameter_factory.hpp>
#include <libvisr/parameter_output.hpp>
#include <libvisr/communication_protocol_factory.hpp>
#include <libvisr/signal_flow_context.hpp>
#include <algorithm>
#include <cmath>
#include <memory>
#include <stdexcept>
using namespace visr;
using namespace drv;
typedef pml::BiquadParameterMatrix<float> BPM;
static ParameterRegistrar<BPM> sParam;
static CommunicationProtocolRegistrar<pml::DoubleBufferingProtocol> sProt;

struct Sec { double c[5]; double v1 = 0, v2 = 0;
  Sec() { c[0] = 1; for (int i = 1; i < 5; ++i) c[i] = 0; }
  double run(double x) { double y = c[0] * x + v1; v1 = v2 + c[1] * x - c[3] * y; v2 = c[2] * x - c[4] * y; return y; } };
static void randcoef(double (&c)[5])
{
  for (int i = 0; i < 3; ++i) c[i] = (float)rndf(-1, 1);
  double r = rndf(0, 0.8), w = rndf(0, 3.1);
  c[3] = (float)(-2 * r * std::cos(w)); c[4] = (float)(r * r);
}

template <typename T> void kernel(char const* tn)
{
  std::size_t const n = rnd(3) ? rnd(20) : rnd(200), ns = rnd(6), ss = 2 + rnd(3), cs = 5 + rnd(4), blocks = 1 + rnd(4);
  std::size_t const al = rnd(3) ? rnd(2) : 4;
  bool const mis = al == 4 && rnd(2), inplace = rnd(4) == 0;
  int const which = rnd(2);
  double peak = 0;
  setcase("iirFilterBiquadsSingleChannel<%s>(n=%zu,sections=%zu,stateStride=%zu,coeffStride=%zu,alignment=%zu%s%s,blocks=%zu)", tn, n, ns, ss, cs, al, mis ? ",misaligned" : "", inplace ? ",in place" : "", blocks);
  std::vector<T> st(ns * ss + 1, (T)7), co(ns * cs + 1, (T)9);
  std::vector<Sec> ref(ns);
  for (std::size_t s = 0; s < ns; ++s)
  {
    randcoef(ref[s].c);
    for (int j = 0; j < 5; ++j) co[s * cs + j] = (T)ref[s].c[j];
    ref[s].v1 = st[s * ss] = (T)(rnd(2) ? 0 : 0.25); ref[s].v2 = st[s * ss + 1] = (T)(rnd(2) ? 0 : -0.5);
  }
  std::vector<T> st0 = st;
  for (std::size_t b = 0; b < blocks; ++b)
  {
    std::unique_ptr<T[]> ri(new T[n + 64]), ro(new T[n + 64]);
    auto algn = [&](T* p) { return (T*)(((uintptr_t)p + 63) / 64 * 64); };
    T *in = algn(ri.get()), *out = algn(ro.get());
    if (mis) { if (rnd(2)) ++in; else ++out; }
    for (std::size_t k = 0; k < n; ++k) { in[k] = (T)rndf(-1, 1); out[k] = 77; }
    if (inplace) out = in;
    std::vector<T> x(in, in + n);
    T const guard = out[n] = 55;
    auto rc = which ? efl::reference::iirFilterBiquadsSingleChannel<T>(in, out, st.data(), co.data(), n, ns, ss, cs, al)
                    : efl::iirFilterBiquadsSingleChannel<T>(in, out, st.data(), co.data(), n, ns, ss, cs, al);
    if (mis && !inplace)
    {
      if (rc == efl::noError) fail("misaligned argument accepted");
      if (st != st0) fail("state changed on error");
      return;
    }
    if (mis) return;
    if (rc != efl::noError) fail("error code %d", (int)rc);
    if (out[n] != guard) fail("wrote past the end");
    for (std::size_t k = 0; k < n; ++k)
    {
      double y = x[k];
      for (auto& s : ref) { y = s.run(y); peak = std::max({ peak, std::abs(y), std::abs(s.v1), std::abs(s.v2) }); }
      if (!close(out[k], y, sizeof(T) == 4 ? 2e-4 : 1e-10) && std::abs(out[k] - y) > (sizeof(T) == 4 ? 3e-5 : 1e-12) * peak) fail("block %zu sample %zu: %g, expected %g", b, k, (double)out[k], y);
    }
    for (std::size_t s = 0; s < ns; ++s)
      for (std::size_t j = 2; j < ss; ++j) if (st[s * ss + j] != (T)7) fail("state padding changed");
  }
}

class Sender : public AtomicComponent
{
public:
  Sender(SignalFlowContext const& c, CompositeComponent* p, std::size_t nch, std::size_t nb) : AtomicComponent(c, "sender", p), out("out", *this, pml::MatrixParameterConfig(nch, nb)) {}
  void process() override
  {
    if (!next) return;
    out.data() = *next;
    out.swapBuffers();
  }
  ParameterOutput<pml::DoubleBufferingProtocol, BPM> out;
  BPM* next = nullptr;
};
class Flow : public CompositeComponent
{
public:
  Flow(SignalFlowContext const& c, std::size_t nch, std::size_t nb, bool ctl, int init, rbbl::BiquadCoefficient<float> const& bq, rbbl::BiquadCoefficientList<float> const& bl, rbbl::BiquadCoefficientMatrix<float> const& bm)
    : CompositeComponent(c, "top", nullptr), in("in", *this, nch), out("out", *this, nch)
  {
    if (init == 0) f.reset(new rcl::BiquadIirFilter(c, "filter", this, nch, nb, bq, ctl));
    else if (init == 1) f.reset(new rcl::BiquadIirFilter(c, "filter", this, nch, nb, bl, ctl));
    else f.reset(new rcl::BiquadIirFilter(c, "filter", this, nch, nb, bm, ctl));
    audioConnection(in, f->audioPort("in"));
    audioConnection(f->audioPort("out"), out);
    if (ctl) { s.reset(new Sender(c, this, nch, nb)); parameterConnection(s->out, f->parameterPort("eqInput")); }
  }
  AudioInput in; AudioOutput out;
  std::unique_ptr<rcl::BiquadIirFilter> f;
  std::unique_ptr<Sender> s;
};
static rbbl::BiquadCoefficient<float> mk(double const (&c)[5]) { return rbbl::BiquadCoefficient<float>((float)c[0], (float)c[1], (float)c[2], (float)c[3], (float)c[4]); }

void component(bool)
{
  std::size_t const nch = 1 + rnd(4), nb = 1 + rnd(4), B = 4 * (1 + rnd(5)), blocks = 3 + rnd(8);
  bool const ctl = rnd(2);
  int const init = rnd(3);
  std::string log;
  auto say = [&](std::string const& s) { log += s; setcase("BiquadIirFilter(channels=%zu,biquads=%zu,period=%zu,init=%d,control=%d);%s", nch, nb, B, init, (int)ctl, log.c_str()); };
  say("");
  std::vector<std::vector<Sec>> ref(nch, std::vector<Sec>(nb));
  std::vector<double> peak(nch, 0.0);
  rbbl::BiquadCoefficientMatrix<float> bm(nch, nb);
  rbbl::BiquadCoefficientList<float> bl(nb);
  double c0[5]; randcoef(c0);
  for (std::size_t b = 0; b < nb; ++b)
  {
    double cb[5]; randcoef(cb);
    bl[b] = mk(cb);
    for (std::size_t c = 0; c < nch; ++c)
    {
      double cm[5]; randcoef(cm);
      bm(c, b) = mk(cm);
      for (int j = 0; j < 5; ++j) ref[c][b].c[j] = init == 0 ? c0[j] : init == 1 ? cb[j] : cm[j];
    }
  }
  SignalFlowContext ctx(B, 48000);
  Flow flow(ctx, nch, nb, ctl, init, mk(c0), bl, bm);
  rrl::AudioSignalFlow sf(flow);
  BPM newp(pml::MatrixParameterConfig(nch, nb));
  bool pendingInit = ctl; // the default parameter value of the control port may be delivered first
  for (std::size_t blk = 0; blk < blocks; ++blk)
  {
    unsigned const op = rnd(6);
    auto rset = [&](std::size_t c, std::size_t b) { randcoef(ref[c][b].c); return mk(ref[c][b].c); };
    if (ctl)
    {
      flow.s->next = nullptr;
      if (blk == 0 || rnd(3) == 0)
      {
        for (std::size_t c = 0; c < nch; ++c) for (std::size_t b = 0; b < nb; ++b) newp(c, b) = rset(c, b);
        flow.s->next = &newp;
        say("control;");
      }
    }
    else if (op == 0)
    {
      std::size_t const c = rnd(nch + 1), b = rnd(nb + 1);
      say("setCoefficients(" + std::to_string(c) + "," + std::to_string(b) + ");");
      bool thrown = false;
      if (c < nch && b < nb) { auto q = rset(c, b); flow.f->setCoefficients(c, b, q); }
      else { try { flow.f->setCoefficients(c, b, mk(c0)); } catch (std::invalid_argument const&) { thrown = true; } if (!thrown) fail("index out of range accepted"); }
    }
    else if (op == 1)
    {
      std::size_t const c = rnd(nch + 1), len = rnd(5) ? nb : nb + 1;
      say("setChannelCoefficients(" + std::to_string(c) + ",length " + std::to_string(len) + ");");
      rbbl::BiquadCoefficientList<float> l(len);
      bool thrown = false;
      if (c < nch && len == nb) for (std::size_t b = 0; b < nb; ++b) l[b] = rset(c, b);
      try { flow.f->setChannelCoefficients(c, l); } catch (std::invalid_argument const&) { thrown = true; }
      if (thrown != (c >= nch || len != nb)) fail(thrown ? "valid arguments rejected" : "invalid arguments accepted");
    }
    else if (op == 2)
    {
      std::size_t const cc = rnd(5) ? nch : nch + 1, bb = rnd(5) ? nb : nb + 1;
      say("setCoefficientMatrix(" + std::to_string(cc) + "x" + std::to_string(bb) + ");");
      rbbl::BiquadCoefficientMatrix<float> m(cc, bb);
      bool const ok = cc == nch && bb == nb, dummy = false; (void)dummy;
      bool thrown = false;
      if (ok) for (std::size_t c = 0; c < nch; ++c) for (std::size_t b = 0; b < nb; ++b) m(c, b) = rset(c, b);
      try { flow.f->setCoefficientMatrix(m); } catch (std::invalid_argument const&) { thrown = true; }
      if (thrown == ok) fail(thrown ? "valid matrix rejected" : "invalid matrix accepted");
    }
    std::vector<std::vector<float>> x(nch, std::vector<float>(B)), y(nch, std::vector<float>(B, 99.0f));
    std::vector<float const*> xp; std::vector<float*> yp;
    for (std::size_t c = 0; c < nch; ++c) { for (auto& v : x[c]) v = (float)rndf(-1, 1); xp.push_back(x[c].data()); yp.push_back(y[c].data()); }
    say("process;");
    sf.process(xp.data(), yp.data());
    for (std::size_t c = 0; c < nch; ++c)
      for (std::size_t k = 0; k < B; ++k)
      {
        double e = x[c][k];
        // rounding errors scale with the largest value inside the cascade
        for (auto& s : ref[c]) { e = s.run(e); peak[c] = std::max({ peak[c], std::abs(e), std::abs(s.v1), std::abs(s.v2) }); }
        if (!close(y[c][k], e, 1e-3) && std::abs(y[c][k] - e) > 3e-5 * peak[c]) fail("channel %zu sample %zu: %g, expected %g", c, k, y[c][k], e);
      }
    if (log.size() > 3000) log = "...";
  }
  (void)pendingInit;
}
int main(int argc, char** argv)
{
  return run(argc, argv, [](bool first) { kernel<float>("float"); kernel<double>("double"); component(first); });
}
