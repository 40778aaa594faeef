#include "drv.hpp"
#include <libpanningdsp/panning_gain_matrix.hpp>
#include <libpanningdsp/panning_matrix_parameter.hpp>
#include <libpml/double_buffering_protocol.hpp>
#include <libpml/matrix_parameter_config.hpp>
#include <libpml/shared_data_protocol.hpp>
#include <librrl/audio_signal_flow.hpp>
#include <libvisr/communication_protocol_factory.hpp>
#include <libvisr/parameter_factory.hpp>
#include <libvisr/signal_flow_context.hpp>
#include <iostream>
#include <memory>
#include <stdexcept>
using namespace visr;
using namespace drv;
namespace pd = panningdsp;
typedef long double L;
typedef pd::PanningMatrixParameter Par;
static ParameterRegistrar<Par> sPar;
static CommunicationProtocolRegistrar<pml::DoubleBufferingProtocol, pml::SharedDataProtocol> sProt;
static unsigned long const inf = pd::cTimeStampInfinity;
static void same(Par const& a, Par const& b, std::size_t al, char const* what)
{
  if (a.numberOfObjects() != b.numberOfObjects() || a.numberOfLoudspeakers() != b.numberOfLoudspeakers()) fail("%s: %zux%zu, not %zux%zu", what, a.numberOfObjects(), a.numberOfLoudspeakers(), b.numberOfObjects(), b.numberOfLoudspeakers());
  if (a.alignmentElements() != al) fail("%s: alignment %zu, not %zu", what, a.alignmentElements(), al);
  if (a.timeStamps().size() != b.numberOfObjects() || a.transitionTimes().size() != b.numberOfObjects()) fail("%s: number of time stamps", what);
  for (std::size_t o = 0; o < b.numberOfObjects(); ++o)
  {
    if (a.timeStamps()[o] != b.timeStamps()[o] || a.transitionTimes()[o] != b.transitionTimes()[o]) fail("%s: time stamp %zu", what, o);
    for (std::size_t l = 0; l < b.numberOfLoudspeakers(); ++l) if (a.gains()(o, l) != b.gains()(o, l)) fail("%s: gain %zu,%zu", what, o, l);
  }
}
static void randomise(Par& p) { for (std::size_t o = 0; o < p.numberOfObjects(); ++o) { p.timeStamps()[o] = rnd(1000); p.transitionTimes()[o] = rnd(1000); for (std::size_t l = 0; l < p.numberOfLoudspeakers(); ++l) p.gains()(o, l) = rndf(-1, 1); } }
static void parameter()
{
  std::size_t const n = rnd(6), m = 1 + rnd(6), n2 = rnd(6), m2 = 1 + rnd(6), al = 1 << rnd(4), al2 = 1 << rnd(4);
  setcase("PanningMatrixParameter %zux%zu alignment %zu and %zux%zu alignment %zu", n, m, al, n2, m2, al2);
  Par a(n, m, al), b(n2, m2, al2);
  for (std::size_t o = 0; o < n; ++o) { if (a.timeStamps()[o] != inf || a.transitionTimes()[o] != inf) fail("initial time stamps"); for (std::size_t l = 0; l < m; ++l) if (a.gains()(o, l) != 0) fail("initial gains"); }
  if (a.numberOfObjects() != n || a.numberOfLoudspeakers() != m) fail("dimensions");
  randomise(a); randomise(b);
  Par c(a); same(c, a, al, "copy constructor");
  std::unique_ptr<ParameterBase> d = a.clone(); same(dynamic_cast<Par const&>(*d), a, al, "clone");
  b = a; same(b, a, al2, "assignment");
  Par const e(a.gains(), a.timeStamps(), a.transitionTimes()); same(e, a, al, "constructor from values");
  d->assign(e); same(dynamic_cast<Par const&>(*d), a, al, "assign");
  Par const f{ pml::MatrixParameterConfig(n, m) }; if (f.numberOfObjects() != n || f.numberOfLoudspeakers() != m) fail("constructor from the configuration");
}
struct Track   // one object: line from p at t0 to g at t1, and the stored transition
{
  std::vector<L> p, g, h; unsigned long t0 = 0, t1 = inf, s = inf, d = 0;
  L at(std::size_t l, unsigned long t) const { return t1 == inf ? p[l] : p[l] + L(t - t0) / L(t1 - t0) * (g[l] - p[l]); }
  void start(unsigned long t, unsigned long dur, std::vector<L> const& to)
  {
    for (std::size_t l = 0; l < p.size(); ++l) p[l] = dur == 0 ? to[l] : at(l, t);
    g = to; t0 = t; t1 = dur == 0 ? inf : t + dur; s = inf;
  }
  void reach(unsigned long t) { if (t == s) { std::vector<L> const to = h; start(t, d, to); } else if (t == t1) { p = g; t0 = t; t1 = inf; } }
};
static void matrix()
{
  std::size_t const no = rnd(8) ? 1 + rnd(4) : 0, nl = 1 + rnd(4), N = 1 + rnd(rnd(2) ? 8 : 40); bool const initial = rnd(2), trans = initial && rnd(2);
  char txt[3500]; int len = snprintf(txt, sizeof txt, "PanningGainMatrix %zu objects %zu loudspeakers period %zu%s%s:", no, nl, N, initial ? ", initial gains" : "", trans ? " and transitions" : "");
  efl::BasicMatrix<float> g0(no, nl, cVectorAlignmentSamples); Par first(no, nl, cVectorAlignmentSamples);
  for (std::size_t o = 0; o < no; ++o) for (std::size_t l = 0; l < nl; ++l) g0(o, l) = initial ? rndf(-1, 1) : 0;
  std::vector<Track> tr(no);
  for (std::size_t o = 0; o < no; ++o) { for (std::size_t l = 0; l < nl; ++l) tr[o].p.push_back(g0(o, l)); tr[o].g = tr[o].p; }
  auto message = [&](Par& m, unsigned long now, bool past)
  {
    for (std::size_t o = 0; o < no; ++o)
    {
      Track& t = tr[o]; unsigned long s = inf, d = 0;
      switch (rnd(8))
      {
      case 0: break;
      case 1: s = now; break;
      case 2: s = t.t1 != inf && t.t1 >= now ? t.t1 : now + N; break;
      case 3: s = t.s; break;
      default: s = now + rnd(3 * N + 2);
      }
      d = rnd(5) == 0 ? 0 : rnd(3) == 0 ? N : 1 + rnd(4 * N);
      if (past && o == 0 && now) s = rnd(now);
      m.timeStamps()[o] = s; m.transitionTimes()[o] = d; std::vector<L> to;
      bool const keep = rnd(5) == 0;
      for (std::size_t l = 0; l < nl; ++l) { m.gains()(o, l) = keep ? float(t.g[l]) : rndf(-1, 1); to.push_back(m.gains()(o, l)); }
      len += snprintf(txt + len, len < 3300 ? sizeof txt - len : 0, " @%lu obj %zu start %ld duration %ld", now, o, (long)s, (long)d); if (len > 3300) len = 3300;
      if (s == inf || s < now) continue;
      if (s == now) t.start(now, d, to); else { t.s = s; t.d = d; t.h = to; }
    }
  };
  if (trans) message(first, 0, false);
  setcase("%s", txt);
  SignalFlowContext ctx(N, 48000); std::unique_ptr<pd::PanningGainMatrix> c;
  if (trans) c.reset(new pd::PanningGainMatrix(ctx, "p", nullptr, no, nl, g0, first)); else if (initial) c.reset(new pd::PanningGainMatrix(ctx, "p", nullptr, no, nl, g0)); else c.reset(new pd::PanningGainMatrix(ctx, "p", nullptr, no, nl));
  bool thrown = false; try { pd::PanningGainMatrix bad(ctx, "bad", nullptr, no, nl + 1, g0); } catch (std::invalid_argument const&) { thrown = true; } if (!thrown) fail("initial gains of a wrong size are accepted");
  rrl::AudioSignalFlow f(*c); auto& port = dynamic_cast<pml::DoubleBufferingProtocol::OutputBase&>(f.externalParameterReceivePort("gainInput"));
  std::vector<std::vector<float>> in(no, std::vector<float>(N)), out(nl, std::vector<float>(N)); std::vector<float*> pi, po; for (auto& x : in) pi.push_back(x.data()); for (auto& x : out) po.push_back(x.data()); pi.push_back(nullptr);
  unsigned long now = 0; bool const bad = rnd(6) == 0;
  for (int b = 0, nb = 2 + rnd(8); b < nb; ++b, now += N)
  {
    bool const past = bad && b == nb - 1 && now > 0 && no > 0;
    for (auto& x : in) for (auto& y : x) y = rnd(3) ? rndf(-1, 1) : 1;
    if (rnd(2) || past) { Par m(no, nl, rnd(2) ? 1 : cVectorAlignmentSamples); message(m, now, past); setcase("%s", txt); port.data().assign(m); port.swapBuffers(); }
    bool error = false; try { f.process(pi.data(), po.data()); } catch (std::exception const&) { error = true; }
    if (error != past) fail(past ? "no error for a time stamp in the past" : "error");
    if (error) return;
    for (std::size_t k = 0; k < N; ++k)
    {
      for (std::size_t l = 0; l < nl; ++l)
      {
        L w = 0; for (std::size_t o = 0; o < no; ++o) w += tr[o].at(l, now + k + 1 > tr[o].t1 ? tr[o].t1 : now + k + 1) * in[o][k];
        if (!(std::fabs(out[l][k] - w) <= 2e-5L * (1 + no))) fail("sample %lu of loudspeaker %zu is %.8g, not %.8Lg", now + k, l, out[l][k], w);
      }
      for (auto& t : tr) t.reach(now + k + 1);
    }
  }
}
int main(int argc, char** argv)
{
  std::cerr.rdbuf(nullptr); std::cout.rdbuf(nullptr);
  return run(argc, argv, [](bool) { static int k = 0; if (k++ % 8 == 7) parameter(); else matrix(); });
}
