#include "drv.hpp"
#include <libefl/basic_matrix.hpp>
#include <libpml/double_buffering_protocol.hpp>
#include <libpml/matrix_parameter.hpp>
#include <libpml/matrix_parameter_config.hpp>
#include <libpml/message_queue_protocol.hpp>
#include <libpml/shared_data_protocol.hpp>
#include <libpml/signal_routing_parameter.hpp>
#include <libpml/sparse_gain_routing_parameter.hpp>
#include <libpml/vector_parameter.hpp>
#include <librcl/add.hpp>
#include <librcl/gain_matrix.hpp>
#include <librcl/null_source.hpp>
#include <librcl/signal_routing.hpp>
#include <librcl/sparse_gain_matrix.hpp>
#include <librrl/audio_signal_flow.hpp>
#include <libvisr/communication_protocol_factory.hpp>
#include <libvisr/parameter_factory.hpp>
#include <libvisr/signal_flow_context.hpp>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <stdexcept>
using namespace visr;
using namespace drv;
typedef std::vector<std::vector<float>> Sig;
static ParameterRegistrar<pml::VectorParameter<float>, pml::MatrixParameter<float>, pml::SignalRoutingParameter, pml::SparseGainRoutingParameter, pml::SparseGainRoutingListParameter> sParam;
static CommunicationProtocolRegistrar<pml::DoubleBufferingProtocol, pml::MessageQueueProtocol, pml::SharedDataProtocol> sProt;
static std::string gLog;
static std::string gHead;
static void say(std::string const& s)
{
  gLog += s; if (gLog.size() > 1800) gLog = gLog.substr(0, 200) + " ... " + gLog.substr(gLog.size() - 1200);
  setcase("%s;%s", gHead.c_str(), gLog.c_str());
}
static void start(std::string const& h) { gHead = h; gLog.clear(); say(""); }
static Sig randSig(std::size_t n, std::size_t P)
{
  Sig s(n, std::vector<float>(P)); for (auto& c : s) for (auto& x : c) x = (float)((int)rnd(2001) - 1000) / 8;
  return s;
}
static Sig run(rrl::AudioSignalFlow& f, Sig const& in, std::size_t no, std::size_t P)
{
  Sig out(no, std::vector<float>(P, 99.0f));
  std::vector<float const*> ip; std::vector<float*> op;
  for (auto& c : in) ip.push_back(c.data());
  for (auto& c : out) op.push_back(c.data());
  if (f.numberOfCaptureChannels() != in.size() || f.numberOfPlaybackChannels() != no) fail("unexpected number of channels");
  f.process(ip.data(), op.data());
  return out;
}
static void cmp(Sig const& got, std::vector<std::vector<double>> const& want, double tol)
{
  for (std::size_t c = 0; c < got.size(); ++c) for (std::size_t k = 0; k < got[c].size(); ++k)
    if (tol == 0 ? (double)got[c][k] != want[c][k] : !(std::fabs(got[c][k] - want[c][k]) <= tol))
      fail("output channel %zu sample %zu is %.9g, expected %.9g", c, k, got[c][k], want[c][k]);
}
typedef std::vector<std::vector<double>> DSig;

static void add()
{
  std::size_t const P = 1 + rnd(40), n = rnd(6), w = rnd(4);
  start("Add(inputs=" + std::to_string(n) + ",width=" + std::to_string(w) + ",period=" + std::to_string(P) + ")");
  SignalFlowContext ctx(P, 48000); rcl::Add a(ctx, "add", nullptr, w, n); rrl::AudioSignalFlow f(a);
  for (int b = 0; b < 2; ++b)
  {
    Sig in = randSig(n * w, P); DSig want(w, std::vector<double>(P, 0.0));
    for (std::size_t i = 0; i < n; ++i) for (std::size_t c = 0; c < w; ++c) for (std::size_t k = 0; k < P; ++k)
      want[c][k] += in[f.audioCapturePortOffset(f.audioCapturePortIndex(("in" + std::to_string(i)).c_str())) + c][k];
    cmp(run(f, in, w, P), want, 0);
  }
}
static void null()
{
  std::size_t const P = 1 + rnd(40), w = rnd(4);
  start("NullSource(width=" + std::to_string(w) + ",period=" + std::to_string(P) + ")");
  SignalFlowContext ctx(P, 48000); rcl::NullSource a(ctx, "null", nullptr, w); rrl::AudioSignalFlow f(a);
  cmp(run(f, Sig(), w, P), DSig(w, std::vector<double>(P, 0.0)), 0);
}
static void routing()
{
  typedef pml::SignalRoutingParameter RP;
  std::size_t const P = 1 + rnd(20), ni = rnd(5), no = rnd(5); bool const ctl = rnd(2), init = rnd(2);
  start("SignalRouting(in=" + std::to_string(ni) + ",out=" + std::to_string(no) + ",period=" + std::to_string(P) + ",controlPort=" + std::to_string(ctl) + (init ? ",initial routing" : "") + ")");
  SignalFlowContext ctx(P, 48000); rcl::SignalRouting r(ctx, "routing", nullptr);
  std::set<std::pair<unsigned, unsigned>> m;
  auto entry = [&](bool bad) { RP::Entry e; e.input = rnd(8) == 0 ? RP::cInvalidIndex : rnd(ni + (bad ? 2 : 0)); if (!bad && ni == 0) e.input = RP::cInvalidIndex; e.output = rnd(no + (bad ? 2 : 0)); return e; };
  auto ok = [&](RP::Entry const& e) { return (e.input == RP::cInvalidIndex || e.input < ni) && e.output < no; };
  auto str = [&](RP::Entry const& e) { return std::to_string((int)e.input) + "->" + std::to_string((int)e.output); };
  auto param = [&](bool bad) { RP p; if (no || bad) for (unsigned i = rnd(5); i > 0; --i) { auto e = entry(bad && rnd(3) == 0); p.addRouting(e); } return p; };
  auto apply = [&](RP const& p, bool& good) { std::set<std::pair<unsigned, unsigned>> t; good = true; for (auto e : p) { if (!ok(e)) good = false; if (e.input != RP::cInvalidIndex) t.insert(std::make_pair(e.output, e.input)); } return t; };
  auto pstr = [&](RP const& p) { std::string s; for (auto e : p) s += str(e) + ","; return s; };
  if (init) { RP p = param(false); say(" initial " + pstr(p)); r.setup(ni, no, p, ctl); bool g; m = apply(p, g); } else r.setup(ni, no, ctl);
  rrl::AudioSignalFlow f(r);
  pml::DoubleBufferingProtocol::OutputBase* port = nullptr;
  if (ctl)
  {
    try { port = &dynamic_cast<pml::DoubleBufferingProtocol::OutputBase&>(f.externalParameterReceivePort("controlInput")); }
    catch (std::out_of_range const&) { fail("control port is missing"); }
  }
  for (unsigned step = 1 + rnd(8); step > 0; --step)
  {
    switch (rnd(4))
    {
    case 0: if (no || rnd(2)) { auto e = entry(rnd(4) == 0); say(" setRouting " + str(e)); bool t = false; try { r.setRouting(e.input, e.output); } catch (std::invalid_argument const&) { t = true; }
        if (t == ok(e)) fail("routing %s %s", str(e).c_str(), t ? "rejected" : "accepted"); if (!t && e.input != RP::cInvalidIndex) m.insert(std::make_pair(e.output, e.input)); } break;
    case 1: if (no && ni) { RP::Entry e; e.input = rnd(ni); e.output = rnd(no); say(" removeRouting " + str(e)); bool const had = m.erase(std::make_pair(e.output, e.input)) > 0; if (r.removeRouting(e.input, e.output) != had) fail("removeRouting reports %d", !had); } break;
    case 2: { RP p = param(false); say(" setRouting " + pstr(p)); r.setRouting(p); bool g; m = apply(p, g); } break;
    case 3: if (port) { RP p = param(rnd(3) == 0); say(" port " + pstr(p)); static_cast<RP&>(port->data()) = p; port->swapBuffers(); bool g; auto t = apply(p, g); if (g) m = t; } break;
    }
    Sig in = randSig(ni, P); DSig want(no, std::vector<double>(P, 0.0));
    for (auto& e : m) for (std::size_t k = 0; k < P; ++k) want[e.first][k] += in[e.second][k];
    say(" process");
    std::streambuf* const old = std::cerr.rdbuf(nullptr);
    Sig const out = run(f, in, no, P);
    std::cerr.rdbuf(old); std::cerr.clear();
    cmp(out, want, 0);
  }
}
struct G { double prev = 0, next = 0; };
static void gmatrix()
{
  std::size_t const P = 16 * (1 + rnd(3)), ni = rnd(4), no = rnd(4), steps = rnd(3 * P + 1); bool const ctl = rnd(2), mat = rnd(2);
  start("GainMatrix(in=" + std::to_string(ni) + ",out=" + std::to_string(no) + ",period=" + std::to_string(P) + ",interpolationSteps=" + std::to_string(steps) + ",control=" + std::to_string(ctl) + ")");
  SignalFlowContext ctx(P, 48000); rcl::GainMatrix g(ctx, "matrix", nullptr);
  std::vector<std::vector<G>> m(no, std::vector<G>(ni));
  double const g0 = (double)rnd(9) / 4;
  efl::BasicMatrix<float> im(no, ni, cVectorAlignmentSamples);
  for (std::size_t r = 0; r < no; ++r) for (std::size_t c = 0; c < ni; ++c) { double const x = mat ? (double)rnd(9) / 4 : g0; m[r][c].prev = m[r][c].next = x; im(r, c) = (float)x; }
  if (mat) g.setup(ni, no, steps, im, ctl); else g.setup(ni, no, steps, (float)g0, ctl);
  rrl::AudioSignalFlow f(g);
  pml::SharedDataProtocol::OutputBase* port = nullptr;
  if (ctl) port = &dynamic_cast<pml::SharedDataProtocol::OutputBase&>(f.externalParameterReceivePort("gainInput"));
  std::size_t n = steps + P; bool first = true; double tol = 1e-3;
  for (unsigned b = 1 + rnd(8); b > 0; --b)
  {
    if (port)
    {
      auto& d = static_cast<pml::MatrixParameter<float>&>(port->data());
      bool const ch = first || rnd(3) == 0; first = false;
      if (ch) { say(" new gains"); for (std::size_t r = 0; r < no; ++r) for (std::size_t c = 0; c < ni; ++c) d(r, c) = (float)((int)rnd(17) - 8) / 4; }
      for (std::size_t r = 0; r < no; ++r) for (std::size_t c = 0; c < ni; ++c)
      {
        G& x = m[r][c]; double const ratio = steps == 0 ? 1.0 : std::min(1.0, (double)n / steps);
        x.prev += ratio * (x.next - x.prev); x.next = d(r, c);
      }
      n = 0;
    }
    Sig in = randSig(ni, P); DSig want(no, std::vector<double>(P, 0.0));
    for (std::size_t r = 0; r < no; ++r) for (std::size_t c = 0; c < ni; ++c) for (std::size_t k = 0; k < P; ++k)
      want[r][k] += in[c][k] * (m[r][c].prev + (m[r][c].next - m[r][c].prev) * (steps == 0 ? 1.0 : std::min(1.0, (double)(n + k + 1) / steps)));
    n += P;
    say(" process");
    cmp(run(f, in, no, P), want, tol);
  }
}
static void sparse()
{
  typedef rcl::SparseGainMatrix::ControlPortConfig C;
  std::size_t const P = 16 * (1 + rnd(2)), ni = 1 + rnd(3), no = 1 + rnd(3), steps = rnd(3 * P + 1), np = 1 + rnd(5); int const ctl = rnd(4) * 2;
  start("SparseGainMatrix(in=" + std::to_string(ni) + ",out=" + std::to_string(no) + ",period=" + std::to_string(P) + ",interpolationSteps=" + std::to_string(steps) + ",points=" + std::to_string(np) + ",control=" + std::to_string(ctl) + ")");
  struct E { unsigned r, c; };
  std::map<unsigned, E> m; std::vector<G> g(np);
  auto list = [&](rbbl::SparseGainRoutingList& l) {
    m.clear(); l.clear(); std::string s;
    for (unsigned i = rnd(np + 1); i > 0; --i)
    {
      unsigned const e = rnd(np); float const x = (float)((int)rnd(17) - 8) / 4; if (m.count(e)) continue;
      m[e] = E{ rnd(no), rnd(ni) }; l.addRouting(e, m[e].r, m[e].c, x); g[e].next = x; s += std::to_string(e) + ":" + std::to_string(m[e].c) + "->" + std::to_string(m[e].r) + "*" + std::to_string(x) + ",";
    }
    say(" list " + s);
  };
  rbbl::SparseGainRoutingList l0; list(l0);
  SignalFlowContext ctx(P, 48000); rcl::SparseGainMatrix s(ctx, "sparse", nullptr, ni, no, steps, np, l0, static_cast<C>(ctl));
  rrl::AudioSignalFlow f(s);
  pml::DoubleBufferingProtocol::OutputBase *gp = nullptr, *lp = nullptr;
  if (ctl & 4) gp = &dynamic_cast<pml::DoubleBufferingProtocol::OutputBase&>(f.externalParameterReceivePort("gainInput"));
  if (ctl & 2) lp = &dynamic_cast<pml::DoubleBufferingProtocol::OutputBase&>(f.externalParameterReceivePort("routingListInput"));
  std::size_t n = 0; bool known = true;
  for (unsigned b = 1 + rnd(12); b > 0; --b)
  {
    bool const ended = n >= steps;
    int const what = rnd(5);
    if (what == 0 && gp)
    {
      say(ended ? " gains" : " gains during a transition"); auto& d = static_cast<pml::VectorParameter<float>&>(gp->data());
      for (std::size_t i = 0; i < np; ++i) { g[i].prev = g[i].next; d[i] = (float)((int)rnd(17) - 8) / 4; g[i].next = d[i]; }
      gp->swapBuffers(); n = 0; known = ended;
    }
    else if (what == 1 && lp)
    {
      if (!ended) say(" during a transition");
      for (std::size_t i = 0; i < np; ++i) g[i].prev = g[i].next;
      auto const old = m; auto& d = static_cast<pml::SparseGainRoutingListParameter&>(lp->data());
      list(d); lp->swapBuffers(); n = 0; known = false;    // routing points that were not in use before have no previous gain
      if (ended) { known = true; for (auto& e : m) if (!old.count(e.first)) known = false; }
    }
    Sig in = randSig(ni, P); DSig want(no, std::vector<double>(P, 0.0));
    for (auto& e : m) for (std::size_t k = 0; k < P; ++k)
    {
      G const& x = g[e.first];
      want[e.second.r][k] += in[e.second.c][k] * (x.prev + (x.next - x.prev) * (steps == 0 ? 1.0 : std::min(1.0, (double)(n + k + 1) / steps)));
    }
    say(" process");
    Sig const out = run(f, in, no, P);
    if (known || n >= steps) cmp(out, want, 1e-3);
    n += P;
  }
}
int main(int argc, char** argv)
{
  return drv::run(argc, argv, [](bool) { add(); null(); routing(); gmatrix(); sparse(); });
}
