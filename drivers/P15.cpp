#include "drv.hpp"
#include <libpanning/LoudspeakerArray.h>
#include <libpml/double_buffering_protocol.hpp>
#include <libpml/empty_parameter_config.hpp>
#include <libpml/listener_position.hpp>
#include <libpml/vector_parameter.hpp>
#include <librcl/listener_compensation.hpp>
#include <librrl/audio_signal_flow.hpp>
#include <libvisr/communication_protocol_factory.hpp>
#include <libvisr/parameter_factory.hpp>
#include <libvisr/signal_flow_context.hpp>
#include <array>
#include <iostream>
#include <memory>
#include <sstream>
using namespace visr;
using namespace drv;
static ParameterRegistrar<pml::VectorParameter<float>, pml::ListenerPosition> sParam;
static CommunicationProtocolRegistrar<pml::DoubleBufferingProtocol> sProt;
static double srnd() { return 2 * (rnd(1 << 20) / (double)(1 << 20)) - 1; }
typedef std::array<float, 3> V3;
static void one()
{
  std::size_t const n = 1 + rnd(8), nv = rnd(3) ? rnd(4) : 0; unsigned const dim = rnd(3) ? 3 : 2; bool const inf = rnd(4) == 0;
  std::vector<V3> p(n + nv); double const scale = rnd(3) ? 1.0 : 0.1 + 10 * rnd(100);
  for (auto& x : p) { for (auto& c : x) c = (float)(scale * srnd()); if (dim == 2) x[2] = 0; }
  if (rnd(6) == 0 && n > 1) p[n - 1] = p[0];
  std::ostringstream o; o.precision(9);
  o << "<panningConfiguration dimension=\"" << dim << "\" infinite=\"" << (inf ? "true" : "false") << "\">";
  auto cart = [&](std::size_t i) { o << "<cart x=\"" << p[i][0] << "\" y=\"" << p[i][1] << "\""; if (dim == 3) o << " z=\"" << p[i][2] << "\""; o << "/>"; };
  for (std::size_t i = 0; i < n; ++i) { o << "<loudspeaker id=\"L" << i << "\" channel=\"" << i + 1 << "\">"; cart(i); o << "</loudspeaker>"; }
  for (std::size_t i = n; i < n + nv; ++i) { o << "<virtualspeaker id=\"V" << i << "\">"; cart(i); o << "</virtualspeaker>"; }
  o << "</panningConfiguration>";
  std::string const xml = o.str(); setcase("array %s", xml.c_str());
  panning::LoudspeakerArray arr; arr.loadXmlString(xml);
  SignalFlowContext ctx(16, 48000);
  rcl::ListenerCompensation lc(ctx, "comp", nullptr, arr);
  rrl::AudioSignalFlow f(lc);
  auto& in = dynamic_cast<pml::DoubleBufferingProtocol::OutputBase&>(f.externalParameterReceivePort("positionInput"));
  auto& g = dynamic_cast<pml::DoubleBufferingProtocol::InputBase&>(f.externalParameterSendPort("gainOutput"));
  auto& d = dynamic_cast<pml::DoubleBufferingProtocol::InputBase&>(f.externalParameterSendPort("delayOutput"));
  V3 lis{ { 0, 0, 0 } }, old = lis; bool any = false; std::string log;
  for (unsigned step = 1 + rnd(6); step > 0; --step)
  {
    bool const move = rnd(3) != 0;
    if (move)
    {
      for (auto& c : lis) c = (float)((rnd(4) ? 0.5 : 3.0) * scale * srnd());
      if (rnd(8) == 0) lis = p[rnd(p.size())];
      else if (any && rnd(4) == 0) { lis = old; float const tiny = (float)std::pow(10.0, -1.0 - rnd(3)); for (auto& c : lis) if (rnd(2)) c += (float)(tiny * scale * srnd()); }
      old = lis;
      static_cast<pml::ListenerPosition&>(in.data()).set(lis[0], lis[1], lis[2]); in.swapBuffers(); any = true;
    }
    char b[100]; std::snprintf(b, sizeof b, move ? " listener (%.9g,%.9g,%.9g)" : " unchanged", lis[0], lis[1], lis[2]); log += b;
    setcase("ListenerCompensation array %s;%s", xml.c_str(), log.c_str());
    f.process(nullptr, nullptr);
    if (!any) { g.resetChanged(); d.resetChanged(); continue; }
    if (g.changed() != move || d.changed() != move) fail("outputs marked as %schanged", g.changed() ? "" : "not ");
    g.resetChanged(); d.resetChanged();
    auto const& gv = static_cast<pml::VectorParameter<float> const&>(g.data()); auto const& dv = static_cast<pml::VectorParameter<float> const&>(d.data());
    if (gv.size() != n || dv.size() != n) fail("%zu gains and %zu delays", gv.size(), dv.size());
    std::vector<double> r(n); double far = 0;
    for (std::size_t i = 0; i < n; ++i) { double s = 0; for (int k = 0; k < 3; ++k) s += ((double)p[i][k] - lis[k]) * ((double)p[i][k] - lis[k]); r[i] = std::sqrt(s); far = std::max(far, r[i]); }
    if (far < 1e-3 * scale) continue;
    double const tol = 1e-5 * (scale / far + 1);
    for (std::size_t i = 0; i < n; ++i)
    {
      if (!(std::fabs(gv[i] - r[i] / far) <= tol)) fail("gain of loudspeaker %zu is %.9g, expected %.9g", i, gv[i], r[i] / far);
      if (!(std::fabs(dv[i] - (far - r[i]) / 344) <= tol * far / 344)) fail("delay of loudspeaker %zu is %.9g, expected %.9g", i, dv[i], (far - r[i]) / 344);
    }
  }
}
int main(int argc, char** argv) { std::cout.setstate(std::ios::failbit); return drv::run(argc, argv, [](bool) { one(); }); }
