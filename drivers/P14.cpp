#include "drv.hpp"
#include <libobjectmodel/channel_object.hpp>
#include <libobjectmodel/diffuse_source.hpp>
#include <libobjectmodel/hoa_source.hpp>
#include <libobjectmodel/object_vector.hpp>
#include <libobjectmodel/plane_wave.hpp>
#include <libobjectmodel/point_source.hpp>
#include <libobjectmodel/point_source_with_diffuseness.hpp>
#include <libpanning/LoudspeakerArray.h>
#include <libpanning/VBAP.h>
#include <libpml/double_buffering_protocol.hpp>
#include <libpml/listener_position.hpp>
#include <libpml/matrix_parameter.hpp>
#include <libpml/object_vector.hpp>
#include <libpml/shared_data_protocol.hpp>
#include <librcl/panning_calculator.hpp>
#include <librrl/audio_signal_flow.hpp>
#include <libvisr/communication_protocol_factory.hpp>
#include <libvisr/parameter_factory.hpp>
#include <libvisr/signal_flow_context.hpp>
#include <array>
#include <iostream>
#include <memory>
#include <sstream>
#include <stdexcept>
using namespace visr;
using namespace drv;
static ParameterRegistrar<pml::MatrixParameter<float>, pml::ObjectVector, pml::ListenerPosition> sParam;
static CommunicationProtocolRegistrar<pml::DoubleBufferingProtocol, pml::SharedDataProtocol> sProt;
typedef std::array<double, 3> V3;
static double urnd() { return rnd(1 << 20) / (double)(1 << 20); }
static double srnd() { return 2 * urnd() - 1; }
static V3 cross(V3 const& a, V3 const& b) { return V3{ a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0] }; }
static double dot(V3 const& a, V3 const& b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
static V3 sub(V3 const& a, V3 const& b) { return V3{ a[0] - b[0], a[1] - b[1], a[2] - b[2] }; }
static double len(V3 const& a) { return std::sqrt(dot(a, a)); }
static V3 unit(V3 a) { double const l = len(a); for (auto& x : a) x /= l; return a; }
struct Arr
{
  bool flat; std::vector<V3> pos;                       // regular loudspeakers (by channel), then virtual ones
  std::size_t reg; std::vector<std::array<std::size_t, 3>> tri; std::vector<std::vector<double>> rr;
  std::vector<std::string> id; std::string xml, text; double cond;
};
static std::string num(double x) { char b[40]; std::snprintf(b, sizeof b, "%.9g", x); return b; }
static Arr makeArray()
{
  Arr a; a.flat = rnd(4) == 0;
  std::vector<V3> p; std::vector<std::array<std::size_t, 3>> t;
  if (a.flat)
  {
    std::size_t const n = 3 + rnd(6); double const off = urnd() * 6.28318;
    for (std::size_t i = 0; i < n; ++i) { double const w = off + 6.283185307 * (i + 0.4 * (n > 3 ? urnd() : 0.5 * urnd())) / n; p.push_back(V3{ std::cos(w), std::sin(w), 0 }); t.push_back({ { i, (i + 1) % n, 0 } }); }
  }
  else
  {
    int const k = rnd(3);
    if (k == 0)
    {
      p = { V3{1,0,0}, V3{-1,0,0}, V3{0,1,0}, V3{0,-1,0}, V3{0,0,1}, V3{0,0,-1} };
      for (std::size_t x = 0; x < 2; ++x) for (std::size_t y = 2; y < 4; ++y) for (std::size_t z = 4; z < 6; ++z) t.push_back({ { x, y, z } });
    }
    else if (k == 1)
    {
      double const g = 1.6180339887;
      for (int s = -1; s <= 1; s += 2) for (int u = -1; u <= 1; u += 2) { p.push_back(V3{ 0, 1.0 * s, g * u }); p.push_back(V3{ 1.0 * s, g * u, 0 }); p.push_back(V3{ g * u, 0, 1.0 * s }); }
      for (std::size_t i = 0; i < 12; ++i) for (std::size_t j = i + 1; j < 12; ++j) for (std::size_t l = j + 1; l < 12; ++l)
        if (len(sub(p[i], p[j])) < 2.1 && len(sub(p[i], p[l])) < 2.1 && len(sub(p[j], p[l])) < 2.1) t.push_back({ { i, j, l } });
    }
    else
    {
      std::size_t const n = 3 + rnd(5); double const off = urnd() * 6.28;   // ring with two poles
      for (std::size_t i = 0; i < n; ++i) { double const w = off + 6.283185307 * i / n; p.push_back(V3{ std::cos(w), std::sin(w), 0 }); }
      p.push_back(V3{ 0,0,1 }); p.push_back(V3{ 0,0,-1 });
      for (std::size_t i = 0; i < n; ++i) for (std::size_t q = 0; q < 2; ++q) t.push_back({ { i, (i + 1) % n, n + q } });
    }
    if (rnd(3)) for (auto& x : p) { x = unit(x); for (auto& c : x) c += 0.1 * srnd(); }
    if (rnd(2))
    {
      V3 const u = unit(V3{ srnd() + 2, srnd(), srnd() }), w = unit(cross(u, V3{ 0, 0, 1 })), q = cross(u, w);
      for (auto& x : p) x = V3{ dot(x, u), dot(x, w), dot(x, q) };
    }
  }
  if (rnd(2)) for (auto& x : p) { double const r = 0.8 + 0.6 * urnd(); x = unit(x); for (auto& c : x) c *= r; }
  if (rnd(4) == 0) for (auto& x : p) for (auto& c : x) c *= 4.0;
  for (auto& x : p) for (auto& c : x) c = (float)c;
  // shuffle triplets and vertices, choose the virtual loudspeakers
  std::size_t const n = p.size(); std::vector<std::size_t> perm(n); for (std::size_t i = 0; i < n; ++i) perm[i] = i;
  for (std::size_t i = n; i > 1; --i) std::swap(perm[i - 1], perm[rnd(i)]);
  for (std::size_t i = t.size(); i > 1; --i) std::swap(t[i - 1], t[rnd(i)]);
  std::size_t const nv = rnd(2) ? rnd(std::min<std::size_t>(3, n - 2)) : 0; a.reg = n - nv;
  a.pos.resize(n); for (std::size_t i = 0; i < n; ++i) a.pos[perm[i]] = p[i];
  for (auto x : t) { std::array<std::size_t, 3> y = { { perm[x[0]], perm[x[1]], a.flat ? 0 : perm[x[2]] } }; std::size_t const m = a.flat ? 2 : 3; for (std::size_t i = m; i > 1; --i) std::swap(y[i - 1], y[rnd(i)]); a.tri.push_back(y); }
  a.rr.assign(nv, std::vector<double>(a.reg, 0.0));
  for (std::size_t i = 0; i < n; ++i) a.id.push_back((i < a.reg ? "L" : "V") + std::to_string(i));
  std::ostringstream o; o.precision(9);
  o << "<panningConfiguration dimension=\"" << (a.flat ? 2 : 3) << "\" infinite=\"" << (rnd(4) == 0 ? "true" : "false") << "\">";
  std::vector<std::size_t> ord(a.reg); for (std::size_t i = 0; i < a.reg; ++i) ord[i] = i;
  for (std::size_t i = a.reg; i > 1; --i) std::swap(ord[i - 1], ord[rnd(i)]);
  auto cart = [&](std::size_t i) { o << "<cart x=\"" << a.pos[i][0] << "\" y=\"" << a.pos[i][1] << "\""; if (!a.flat) o << " z=\"" << a.pos[i][2] << "\""; o << "/>"; };
  std::size_t const gap = 1 + rnd(3);
  for (std::size_t i : ord) { o << "<loudspeaker id=\"" << a.id[i] << "\" channel=\"" << 1 + i * gap << "\">"; cart(i); o << "</loudspeaker>"; }
  for (std::size_t i = a.reg; i < n; ++i)
  {
    o << "<virtualspeaker id=\"" << a.id[i] << "\">"; cart(i);
    for (std::size_t k = rnd(4); k > 0; --k) { std::size_t const l = rnd(a.reg); double const dB = -(double)rnd(12); a.rr[i - a.reg][l] = std::pow(10.0, dB / 20); o << "<route lspId=\"" << a.id[l] << "\" gainDB=\"" << dB << "\"/>"; }
    o << "</virtualspeaker>";
  }
  for (auto& x : a.tri) { o << "<triplet l1=\"" << a.id[x[0]] << "\" l2=\"" << a.id[x[1]] << "\""; if (!a.flat) o << " l3=\"" << a.id[x[2]] << "\""; o << "/>"; }
  o << "</panningConfiguration>"; a.xml = o.str(); return a;
}
static V3 randDir(Arr const& a)
{
  V3 d; do d = V3{ srnd(), srnd(), srnd() }; while (len(d) < 0.1);
  int const k = rnd(5);
  if (k == 0) { d = a.pos[rnd(a.pos.size())]; if (a.flat) d[2] = 0.2 * srnd(); }             // towards a loudspeaker
  else if (k == 1) { auto& t = a.tri[rnd(a.tri.size())]; double const w = urnd(); for (int i = 0; i < 3; ++i) d[i] = w * a.pos[t[0]][i] + (1 - w) * a.pos[t[1]][i]; }   // edge
  double const r = rnd(2) ? 1.0 : 0.3 + 6 * urnd(); d = unit(d); for (auto& c : d) c = (float)(c * r);
  return d;
}
// gains of all regular loudspeakers: the combination of the directions of one triplet which gives d
static bool oracle(Arr const& a, V3 const& lis, V3 d, std::vector<double>& g, double& tol)
{
  if (a.flat) d[2] = 0;
  double best = -1e30; std::vector<double> bg(3); std::size_t bt = 0; double bdet = 1;
  for (std::size_t j = 0; j < a.tri.size(); ++j)
  {
    auto& t = a.tri[j];
    V3 const l1 = unit(sub(a.pos[t[0]], lis)), l2 = unit(sub(a.pos[t[1]], lis)), l3 = a.flat ? V3{ 0,0,1 } : unit(sub(a.pos[t[2]], lis));
    double const det = dot(l1, cross(l2, l3)); if (std::fabs(det) < 1e-3) return false;
    double const x[3] = { dot(d, cross(l2, l3)) / det, dot(d, cross(l3, l1)) / det, dot(d, cross(l1, l2)) / det };
    double const m = std::min(std::min(x[0], x[1]), a.flat ? 1e30 : x[2]);
    if (m > best) { best = m; bg.assign(x, x + 3); bt = j; bdet = std::fabs(det); }
  }
  double const sc = std::max(len(d), 0.01);
  if (best < -1e-7 * sc) return false;          // not inside any triplet
  tol = 3e-5 * sc / bdet / bdet + 1e-5;
  std::vector<double> all(a.pos.size(), 0.0);
  all[a.tri[bt][0]] = bg[0]; all[a.tri[bt][1]] = bg[1]; if (!a.flat) all[a.tri[bt][2]] = bg[2];
  g.assign(all.begin(), all.begin() + a.reg);
  for (std::size_t v = 0; v < a.rr.size(); ++v) for (std::size_t i = 0; i < a.reg; ++i) g[i] += a.rr[v][i] * all[a.reg + v];
  return true;
}
static double norm(std::vector<double> const& g, int mode)
{
  double s = 0; for (double x : g) s += mode == 1 ? std::fabs(x) : x * x;
  return mode == 1 ? s : std::sqrt(s);
}
static V3 randListener(Arr const& a) { return rnd(3) ? V3{ 0,0,0 } : V3{ (float)(0.15 * srnd()), (float)(0.15 * srnd()), a.flat ? 0.0 : (float)(0.15 * srnd()) }; }
static void vbap()
{
  Arr const a = makeArray(); panning::LoudspeakerArray arr; setcase("loudspeaker array %s", a.xml.c_str()); arr.loadXmlString(a.xml);
  if (arr.getNumRegularSpeakers() != a.reg || arr.getNumSpeakers() != a.pos.size() || arr.getNumTriplets() != a.tri.size()) fail("array has %zu loudspeakers, %zu triplets", arr.getNumSpeakers(), arr.getNumTriplets());
  V3 lis = randListener(a); panning::VBAP vb(arr, lis[0], lis[1], lis[2]);
  for (unsigned k = 20; k > 0; --k)
  {
    if (rnd(6) == 0) { lis = randListener(a); vb.setListenerPosition(lis[0], lis[1], lis[2]); }
    V3 const s = randDir(a); bool const pw = rnd(2);
    setcase("source (%.9g,%.9g,%.9g) %s listener (%.9g,%.9g,%.9g) array %s", s[0], s[1], s[2], pw ? "plane wave" : "point source", lis[0], lis[1], lis[2], a.xml.c_str());
    std::vector<float> un(a.reg + 1, 77.0f), no(a.reg + 1, 77.0f);
    vb.calculateGainsUnNormalised(s[0], s[1], s[2], un.data(), pw); vb.calculateGains(s[0], s[1], s[2], no.data(), pw);
    if (un[a.reg] != 77.0f || no[a.reg] != 77.0f) fail("writes beyond the number of regular loudspeakers");
    std::vector<double> g; double tol;
    if (!oracle(a, lis, pw ? s : sub(s, lis), g, tol)) continue;
    for (std::size_t i = 0; i < a.reg; ++i) if (!(std::fabs(un[i] - g[i]) <= tol)) fail("gain %zu is %.9g, the direction needs %.9g", i, un[i], g[i]);
    double const n = norm(g, 2); if (n < 100 * tol) continue;
    double e = 0; for (std::size_t i = 0; i < a.reg; ++i) e += (double)no[i] * no[i];
    if (!(std::fabs(e - 1) < 1e-4)) fail("power of the normalised gains is %.9g", e);
    for (std::size_t i = 0; i < a.reg; ++i) if (!(std::fabs(no[i] - g[i] / n) <= 4 * tol / n)) fail("normalised gain %zu is %.9g, expected %.9g", i, no[i], g[i] / n);
  }
}
struct Col { int kind; V3 s; bool pw; std::vector<double> base; double ratio; };   // kind 0: unused, 1: panned, 2: given loudspeakers, 3: diffuse only
typedef rcl::PanningCalculator PC;
static void component()
{
  Arr const a = makeArray(); setcase("loudspeaker array %s", a.xml.c_str()); panning::LoudspeakerArray arr; arr.loadXmlString(a.xml);
  std::size_t const no = 1 + rnd(6); bool const adapt = rnd(2);
  int const modes[] = { 1, 2, 4, 3, 5, 7 }; int const mode = modes[rnd(6)]; int const nm[3] = { (int)rnd(3), (int)rnd(3), (int)rnd(3) };
  int const eff[3] = { nm[0] ? nm[0] : ((mode & 2) ? 1 : 2), nm[1] ? nm[1] : 2, nm[2] ? nm[2] : 2 };
  V3 lis = randListener(a);
  std::string const head = "PanningCalculator objects=" + std::to_string(no) + " mode=" + std::to_string(mode) + " normalisation=" + std::to_string(nm[0]) + std::to_string(nm[1]) + std::to_string(nm[2]) + " array " + a.xml;
  setcase("%s", head.c_str());
  SignalFlowContext ctx(16, 48000);
  PC pc(ctx, "pan", nullptr, no, arr, adapt, static_cast<PC::PanningMode>(mode), static_cast<PC::Normalisation>(nm[0]), static_cast<PC::Normalisation>(nm[1]), static_cast<PC::Normalisation>(nm[2]), pml::ListenerPosition(lis[0], lis[1], lis[2]));
  rrl::AudioSignalFlow f(pc);
  auto& op = dynamic_cast<pml::DoubleBufferingProtocol::OutputBase&>(f.externalParameterReceivePort("objectVectorInput"));
  auto* lp = adapt ? &dynamic_cast<pml::DoubleBufferingProtocol::OutputBase&>(f.externalParameterReceivePort("listenerPosition")) : nullptr;
  char const* const names[3] = { "vbapGains", "vbipGains", "diffuseGains" };
  pml::SharedDataProtocol::InputBase* mp[3] = { nullptr, nullptr, nullptr };
  for (int q = 0; q < 3; ++q) if (mode & (1 << q)) mp[q] = &dynamic_cast<pml::SharedDataProtocol::InputBase&>(f.externalParameterSendPort(names[q]));
  std::vector<Col> cols(no); for (auto& c : cols) c.kind = 0;
  std::string log; bool any = false;
  for (unsigned step = 1 + rnd(5); step > 0; --step)
  {
    if (lp && rnd(3) == 0)
    {
      lis = randListener(a); auto& d = static_cast<pml::ListenerPosition&>(lp->data()); d.set(lis[0], lis[1], lis[2]); lp->swapBuffers();
      log += " listener (" + num(lis[0]) + "," + num(lis[1]) + "," + num(lis[2]) + ")";
    }
    if (rnd(4))
    {
      auto& d = static_cast<pml::ObjectVector&>(op.data()); d.clear(); for (auto& c : cols) c.kind = 0;
      log += " objects:"; any = true; std::vector<std::size_t> free; for (std::size_t i = 0; i < no; ++i) free.push_back(i);
      auto chan = [&](bool bad) { if (bad) return (std::size_t)(no + (rnd(2) ? rnd(3) : 1000000 + rnd(1000))); std::size_t const k = rnd(free.size()), c = free[k]; free.erase(free.begin() + k); return c; };
      for (unsigned k = rnd(no + 2), id = rnd(4); k > 0 && !free.empty(); --k, id += 1 + rnd(3))
      {
        int const kind = rnd(6); bool const bad = rnd(8) == 0;
        if (kind == 5)
        {
          std::size_t const nc = std::min<std::size_t>(1 + rnd(3), free.size()); objectmodel::ChannelObject o(id); o.resetNumberOfChannels(nc);
          double const df = rnd(3) ? 0.0 : (float)urnd(); o.setDiffuseness(df); log += " channels(";
          objectmodel::ChannelObject::OutputChannelContainer oc;
          for (std::size_t i = 0; i < nc; ++i)
          {
            bool const b = rnd(8) == 0; std::size_t const c = chan(b); o.setChannelIndex(i, c); objectmodel::ChannelObject::OutputChannelList l; std::vector<double> g(a.reg, 0.0);
            for (unsigned q = rnd(4); q > 0; --q) if (rnd(8)) { std::size_t const s = rnd(a.reg); l.push_back(a.id[s]); g[s] = 1; } else { l.push_back(rnd(2) || a.rr.empty() ? "nowhere" : a.id[a.reg]); if (l.back() != "nowhere" ) l.back() = "nowhere"; }
            oc.push_back(l); log += std::to_string(c) + ":"; for (auto& x : l) log += x + ","; if (!b) { cols[c].kind = 2; cols[c].base = g; cols[c].ratio = df; }
          }
          o.setOutputChannels(oc); log += " diffuseness " + num(df) + ")"; d.insert(o); continue;
        }
        std::size_t const c = chan(bad); V3 const s = randDir(a); double const df = kind == 2 ? (rnd(4) ? (float)urnd() : (float)rnd(2)) : 0.0; Col col; col.kind = 1; col.s = s; col.pw = false; col.ratio = df;
        if (kind <= 1) { objectmodel::PointSource o(id); o.resetNumberOfChannels(1); o.setChannelIndex(0, c); o.setX(s[0]); o.setY(s[1]); o.setZ(s[2]); d.insert(o); log += " point"; }
        else if (kind == 2) { objectmodel::PointSourceWithDiffuseness o(id); o.resetNumberOfChannels(1); o.setChannelIndex(0, c); o.setX(s[0]); o.setY(s[1]); o.setZ(s[2]); o.setDiffuseness(df); d.insert(o); log += " diffuse-point(" + num(df) + ")"; }
        else if (kind == 3)
        {
          double const az = std::atan2(s[1], s[0]) * 180 / 3.14159265358979, el = std::asin(s[2] / len(s)) * 180 / 3.14159265358979;
          objectmodel::PlaneWave o(id); o.resetNumberOfChannels(1); o.setChannelIndex(0, c); o.setIncidenceAzimuth((float)az); o.setIncidenceElevation((float)el); o.setReferenceDistance((float)len(s)); d.insert(o); col.pw = true; log += " plane wave";
        }
        else { objectmodel::DiffuseSource o(id); o.resetNumberOfChannels(1); o.setChannelIndex(0, c); d.insert(o); col.kind = 3; log += " diffuse"; }
        log += " " + std::to_string(c) + "(" + num(s[0]) + "," + num(s[1]) + "," + num(s[2]) + ")";
        if (!bad) cols[c] = col;
      }
      op.swapBuffers();
    }
    if (log.size() > 1500) log = "..." + log.substr(log.size() - 1200);
    setcase("%s; listener (%g,%g,%g);%s", head.c_str(), lis[0], lis[1], lis[2], log.c_str());
    f.process(nullptr, nullptr);
    if (!any) continue;
    for (std::size_t c = 0; c < no; ++c)
    {
      std::vector<double> g(a.reg, 0.0); double tol = 1e-5; bool known = true;
      if (cols[c].kind == 1) known = oracle(a, lis, cols[c].pw ? cols[c].s : sub(cols[c].s, lis), g, tol);
      if (cols[c].kind == 2) g = cols[c].base;
      double const sc = cols[c].kind == 1 ? std::max(norm(g, 2), 1e-3) : 1.0;
      for (int q = 0; q < 3; ++q) if (mp[q])
      {
        auto const& m = static_cast<pml::MatrixParameter<float> const&>(mp[q]->data());
        if (m.numberOfRows() != a.reg || m.numberOfColumns() != no) fail("size of the gain matrix");
        std::vector<double> w = g; double lev = 1 - (cols[c].kind == 1 || cols[c].kind == 2 ? cols[c].ratio : 0.0), tq = 3 * tol / sc; bool ok = known;
        if (cols[c].kind == 0) { w.assign(a.reg, 0.0); lev = 0; }
        else if (cols[c].kind == 3) { w.assign(a.reg, q == 2 ? 1.0 : 0.0); lev = q == 2 ? 1.0 : 0.0; }
        else if (q == 2) { lev = cols[c].ratio; if (cols[c].kind == 1) w.assign(a.reg, 1.0); ok = true; tq = 1e-5; }
        else if (q == 1 && cols[c].kind == 1) { for (auto& x : w) x = std::sqrt(std::max(x, 0.0)); tq = 3 * std::sqrt(tol / sc); }
        double const n = norm(w, eff[q]);
        bool const weak = cols[c].kind == 1 && q != 2 && norm(g, 2) < 100 * tol;
        for (std::size_t i = 0; i < a.reg; ++i)
        {
          double const x = m(i, c); if (!std::isfinite(x)) fail("%s(%zu,%zu) is %g", names[q], i, c, x);
          if (!ok || weak) continue;
          double const want = lev == 0 || n == 0 ? 0.0 : lev * w[i] / n;
          if (!(std::fabs(x - want) <= tq + 1e-5)) fail("%s(%zu,%zu) is %.9g, expected %.9g", names[q], i, c, x, want);
        }
      }
    }
  }
}
int main(int argc, char** argv)
{
  std::cout.setstate(std::ios::failbit);
  return drv::run(argc, argv, [](bool) { vbap(); component(); });
}
