#include "drv.hpp"
#include <libefl/basic_matrix.hpp>
#include <libobjectmodel/channel_object.hpp>
#include <libobjectmodel/diffuse_source.hpp>
#include <libobjectmodel/hoa_source.hpp>
#include <libobjectmodel/plane_wave.hpp>
#include <libobjectmodel/point_source.hpp>
#include <libobjectmodel/point_source_with_diffuseness.hpp>
#include <libobjectmodel/point_source_with_reverb.hpp>
#include <libpanning/LoudspeakerArray.h>
#include <libpanning/VBAP.h>
#include <libpml/biquad_parameter.hpp>
#include <libpml/double_buffering_protocol.hpp>
#include <libpml/empty_parameter_config.hpp>
#include <libpml/listener_position.hpp>
#include <libpml/matrix_parameter.hpp>
#include <libpml/object_vector.hpp>
#include <libpml/shared_data_protocol.hpp>
#include <libpml/signal_routing_parameter.hpp>
#include <libpml/vector_parameter.hpp>
#include <librbbl/parametric_iir_coefficient_calculator.hpp>
#include <librcl/channel_object_routing_calculator.hpp>
#include <librcl/diffusion_gain_calculator.hpp>
#include <librcl/hoa_allrad_gain_calculator.hpp>
#include <librcl/object_gain_eq_calculator.hpp>
#include <librrl/audio_signal_flow.hpp>
#include <libvisr/communication_protocol_factory.hpp>
#include <libvisr/parameter_factory.hpp>
#include <libvisr/signal_flow_context.hpp>
#include <cmath>
#include <memory>
#include <set>
#include <sstream>
using namespace visr;
using namespace drv;
using namespace objectmodel;
typedef pml::DoubleBufferingProtocol DB;
typedef pml::SharedDataProtocol SD;
static ParameterRegistrar<pml::VectorParameter<float>, pml::MatrixParameter<float>, pml::BiquadParameterMatrix<float>, pml::ObjectVector, pml::ListenerPosition, pml::SignalRoutingParameter> sParam;
static CommunicationProtocolRegistrar<DB, SD> sProt;
static double urnd() { return rnd(1 << 20) / (double)(1 << 20); }
static std::string S(std::size_t x) { return std::to_string(x); }

struct Item { int kind; std::size_t id; std::vector<std::size_t> ch; double level, diff; unsigned order; std::vector<rbbl::ParametricIirCoefficient<float>> eq; std::vector<std::vector<std::string>> labels; };
struct Scene { std::vector<Item> items; std::string log; };

static Scene scene(std::size_t no, std::size_t sections, unsigned hoaBias, std::vector<std::string> const& ids)
{
  Scene s; s.log = " objects:";
  std::size_t id = rnd(3);
  for (unsigned k = rnd(6); k > 0; --k, id += 1 + rnd(3))
  {
    Item it; it.id = id; it.kind = rnd(3) < hoaBias ? 7 : (int[]){ 0, 1, 2, 3, 5, 7, 8 }[rnd(7)];
    if (!hoaBias && it.kind == 7 && rnd(2)) it.kind = 3;
    it.level = rnd(8) ? (float)(2 * urnd()) : (float)rnd(2); it.diff = rnd(4) ? (float)urnd() : (float)rnd(2); it.order = rnd(4);
    std::size_t nc = it.kind == 7 ? (rnd(12) ? (it.order + 1) * (it.order + 1) : rnd(10)) : it.kind == 8 ? rnd(4) : 1;
    if (it.kind == 7 && nc > no && rnd(8)) { it.order = 0; nc = 1; }
    std::set<std::size_t> used;
    for (std::size_t i = 0; i < nc; ++i)
    {
      std::size_t c = rnd(no); for (unsigned t = 0; t < 50 && used.count(c); ++t) c = rnd(no);
      if (rnd(20) == 0 || used.count(c)) c = no + (rnd(3) ? i : 100000 + i);
      if (used.count(c)) c = no + 1000 + i;
      used.insert(c); it.ch.push_back(c);
    }
    for (unsigned e = rnd(sections + 1); e > 0; --e)
      it.eq.push_back(rbbl::ParametricIirCoefficient<float>((rbbl::ParametricIirCoefficientBase::Type)rnd(8), 30 + 18000 * urnd(), 0.1 + 4 * urnd(), 24 * (urnd() - 0.5)));
    if (it.kind == 8) for (std::size_t i = 0; i < nc; ++i)
    {
      std::vector<std::string> l; for (unsigned q = rnd(6) ? 1 : rnd(4); q > 0; --q) l.push_back(rnd(8) && !ids.empty() ? ids[rnd(ids.size())] : rnd(2) ? "nowhere" : "");
      it.labels.push_back(l);
    }
    s.log += " {type " + S(it.kind) + " id " + S(id) + " channels"; for (auto c : it.ch) s.log += " " + S(c);
    if (it.kind == 7) s.log += " order " + S(it.order);
    char b[80]; std::snprintf(b, sizeof b, " level %.9g diffuseness %.9g eqs %zu", it.level, it.diff, it.eq.size()); s.log += b;
    for (auto& l : it.labels) { s.log += " ["; for (auto& x : l) s.log += x + ","; s.log += "]"; }
    s.log += "}"; s.items.push_back(it);
  }
  return s;
}
static void put(pml::ObjectVector& v, Scene const& s)
{
  v.clear();
  for (auto const& it : s.items)
  {
    std::unique_ptr<Object> o;
    switch (it.kind)
    {
    case 0: o.reset(new PointSource(it.id)); break;
    case 1: o.reset(new PlaneWave(it.id)); break;
    case 2: o.reset(new DiffuseSource(it.id)); break;
    case 3: { auto* p = new PointSourceWithDiffuseness(it.id); o.reset(p); p->setDiffuseness(it.diff); break; }
    case 5: o.reset(new PointSourceWithReverb(it.id)); break;
    case 7: { auto* p = new HoaSource(it.id); o.reset(p); p->setOrder(it.order); break; }
    default: o.reset(new ChannelObject(it.id));
    }
    o->resetNumberOfChannels(it.ch.size());
    for (std::size_t i = 0; i < it.ch.size(); ++i) o->setChannelIndex(i, it.ch[i]);
    if (it.kind == 8) { ChannelObject::OutputChannelContainer oc; for (auto& l : it.labels) oc.push_back(l); static_cast<ChannelObject&>(*o).setOutputChannels(oc); }
    o->setLevel(it.level);
    rbbl::ParametricIirCoefficientList<float> eq(it.eq.size(), rbbl::ParametricIirCoefficient<float>()); for (std::size_t i = 0; i < it.eq.size(); ++i) eq[i] = it.eq[i];
    o->setEqCoefficients(eq);
    v.insert(*o);
  }
}
template<class P> static P& in(rrl::AudioSignalFlow& f, char const* n) { return dynamic_cast<P&>(f.externalParameterReceivePort(n)); }
template<class P> static P& out(rrl::AudioSignalFlow& f, char const* n) { return dynamic_cast<P&>(f.externalParameterSendPort(n)); }

// an error message of a component ends the processing with an exception
static bool runStep(rrl::AudioSignalFlow& f, bool valid)
{
  try { f.process(nullptr, nullptr); return true; }
  catch (std::exception const& e) { if (valid) fail("exception for valid objects: %s", e.what()); return false; }
}
static bool inRange(Scene const& s, std::size_t no) { for (auto const& it : s.items) for (auto c : it.ch) if (c >= no) return false; return true; }
static void gainEq()
{
  std::size_t const no = 1 + rnd(8), sec = rnd(5); std::size_t const fs = rnd(2) ? 48000 : 44100;
  std::string const head = "ObjectGainEqCalculator channels=" + S(no) + " sections=" + S(sec) + " rate=" + S(fs); setcase("%s", head.c_str());
  SignalFlowContext ctx(16, fs); rcl::ObjectGainEqCalculator c(ctx, "c", nullptr, no, sec); rrl::AudioSignalFlow f(c);
  auto& op = in<DB::OutputBase>(f, "objectIn"); auto& g = out<DB::InputBase>(f, "gainOut"); auto& q = out<DB::InputBase>(f, "eqOut"); std::string log; bool any = false;
  std::vector<double> ref(no, 0.0); std::vector<Item const*> user(no, nullptr); Scene s;
  for (unsigned step = 1 + rnd(4); step > 0; --step)
  {
    bool const upd = rnd(4) != 0;
    if (upd)
    {
      s = scene(no, sec, 0, {}); log += s.log; any = true; std::fill(ref.begin(), ref.end(), 0.0); std::fill(user.begin(), user.end(), nullptr);
      for (auto const& it : s.items) for (auto x : it.ch) if (x < no) { ref[x] = it.level; user[x] = &it; }
      put(static_cast<pml::ObjectVector&>(op.data()), s); op.swapBuffers();
    }
    else log += " unchanged";
    setcase("%s;%s", head.c_str(), log.c_str());
    g.resetChanged(); q.resetChanged();
    if (!runStep(f, inRange(s, no))) return;
    if (any && (g.changed() != upd || q.changed() != upd)) fail("gains marked as %schanged, equalisers as %schanged", g.changed() ? "" : "not ", q.changed() ? "" : "not ");
    if (!any) continue;
    auto const& gv = static_cast<pml::VectorParameter<float> const&>(g.data()); auto const& eq = static_cast<pml::BiquadParameterMatrix<float> const&>(q.data());
    if (gv.size() != no || eq.numberOfFilters() != no || eq.numberOfSections() != sec) fail("outputs have %zu gains, %zux%zu equaliser sections", gv.size(), (std::size_t)eq.numberOfFilters(), (std::size_t)eq.numberOfSections());
    for (std::size_t i = 0; i < no; ++i)
    {
      if (gv[i] != (float)ref[i]) fail("gain of channel %zu is %.9g, level is %.9g", i, gv[i], ref[i]);
      if (!user[i]) continue;
      for (std::size_t k = 0; k < sec; ++k)
      {
        rbbl::BiquadCoefficient<float> e; if (k < user[i]->eq.size()) rbbl::ParametricIirCoefficientCalculator::calculateIirCoefficients(user[i]->eq[k], e, (float)fs);
        for (std::size_t m = 0; m < 5; ++m) if (std::abs(eq(i, k)[m] - e[m]) > 1e-5 * (1 + std::abs(e[m]))) fail("channel %zu section %zu coefficient %zu is %.9g, not %.9g", i, k, m, eq(i, k)[m], e[m]);
      }
    }
  }
}
static void diffusion()
{
  std::size_t const no = 1 + rnd(8); std::string const head = "DiffusionGainCalculator channels=" + S(no); setcase("%s", head.c_str());
  SignalFlowContext ctx(16, 48000); rcl::DiffusionGainCalculator c(ctx, "c", nullptr, no); rrl::AudioSignalFlow f(c);
  auto& op = in<DB::OutputBase>(f, "objectInput"); auto& g = out<SD::InputBase>(f, "gainOutput"); std::string log; std::vector<double> ref(no, 0.0);
  for (unsigned step = 1 + rnd(4); step > 0; --step)
  {
    if (rnd(4))
    {
      Scene const s = scene(no, 2, 0, {}); log += s.log; std::fill(ref.begin(), ref.end(), 0.0);
      for (auto const& it : s.items) if (it.ch.size() == 1 && it.ch[0] < no) ref[it.ch[0]] = it.kind == 2 ? 1.0 : it.kind == 3 ? it.diff : 0.0;
      put(static_cast<pml::ObjectVector&>(op.data()), s); op.swapBuffers();
    }
    else log += " unchanged";
    setcase("%s;%s", head.c_str(), log.c_str());
    f.process(nullptr, nullptr);
    auto const& m = static_cast<pml::MatrixParameter<float> const&>(g.data());
    if (m.numberOfRows() != 1 || m.numberOfColumns() != no) fail("gains are %zux%zu", m.numberOfRows(), m.numberOfColumns());
    for (std::size_t i = 0; i < no; ++i) if (m(0, i) != (float)ref[i]) fail("diffusion gain of channel %zu is %.9g, expected %.9g", i, m(0, i), ref[i]);
  }
}
struct Arr { std::string xml; std::vector<std::string> id; };
static Arr layout(int kind, char const* pre)
{
  Arr a; std::ostringstream o; o << "<panningConfiguration dimension=\"3\" infinite=\"" << (rnd(2) ? "true" : "false") << "\">";
  double const octa[6][3] = { { 1, 0, 0 }, { 0, 1, 0 }, { -1, 0, 0 }, { 0, -1, 0 }, { 0, 0, 1 }, { 0, 0, -1 } };
  int const ot[8][3] = { { 0, 1, 4 }, { 1, 2, 4 }, { 2, 3, 4 }, { 3, 0, 4 }, { 0, 1, 5 }, { 1, 2, 5 }, { 2, 3, 5 }, { 3, 0, 5 } };
  double const tet[4][3] = { { 1, 1, 1 }, { 1, -1, -1 }, { -1, 1, -1 }, { -1, -1, 1 } };
  int const tt[4][3] = { { 0, 1, 2 }, { 0, 1, 3 }, { 0, 2, 3 }, { 1, 2, 3 } };
  std::size_t const n = kind ? 6 : 4, m = kind ? 8 : 4; std::size_t const nv = kind && rnd(3) == 0 && *pre == 'L' ? 1 : 0;
  double const rot = urnd();
  for (std::size_t i = 0; i < n; ++i)
  {
    double const* p = kind ? octa[i] : tet[i]; double const x = p[0] * std::cos(rot) - p[1] * std::sin(rot), y = p[0] * std::sin(rot) + p[1] * std::cos(rot);
    bool const v = i >= n - nv;
    if (v) o << "<virtualspeaker id=\"" << pre << i << "\">"; else { o << "<loudspeaker id=\"" << pre << i << "\" channel=\"" << i + 1 << "\">"; a.id.push_back(pre + S(i)); }
    o << "<cart x=\"" << x << "\" y=\"" << y << "\" z=\"" << p[2] << "\"/>" << (v ? "<route lspId=\"" + std::string(pre) + "0\" gainDB=\"-6\"/></virtualspeaker>" : "</loudspeaker>");
  }
  for (std::size_t i = 0; i < m; ++i) { int const* t = kind ? ot[i] : tt[i]; o << "<triplet l1=\"" << pre << t[0] << "\" l2=\"" << pre << t[1] << "\" l3=\"" << pre << t[2] << "\"/>"; }
  o << "</panningConfiguration>"; a.xml = o.str(); return a;
}
static void routing()
{
  std::size_t const no = 1 + rnd(8); Arr const a = layout(rnd(2), "L"); panning::LoudspeakerArray arr; arr.loadXmlString(a.xml);
  std::string const head = "ChannelObjectRoutingCalculator channels=" + S(no) + " loudspeakers=" + S(a.id.size()); setcase("%s", head.c_str());
  SignalFlowContext ctx(16, 48000); rcl::ChannelObjectRoutingCalculator c(ctx, "c", nullptr, no, arr); rrl::AudioSignalFlow f(c);
  auto& op = in<DB::OutputBase>(f, "objectIn"); auto& r = out<DB::InputBase>(f, "routingOut"); std::string log; bool any = false; std::set<std::pair<std::size_t, std::size_t>> ref; std::set<std::size_t> outs;
  for (unsigned step = 1 + rnd(4); step > 0; --step)
  {
    bool const upd = rnd(4) != 0;
    if (upd)
    {
      Scene s = scene(no, 2, 0, a.id); for (auto& it : s.items) (void)it; log += s.log; any = true; ref.clear(); std::map<std::size_t, std::size_t> byOut;
      for (auto const& it : s.items) if (it.kind == 8) for (std::size_t k = 0; k < it.ch.size(); ++k)
        if (it.ch[k] < no && it.labels[k].size() == 1) for (std::size_t i = 0; i < a.id.size(); ++i) if (a.id[i] == it.labels[k][0]) byOut[i] = it.ch[k]; // one input per output, the last wins
      for (auto& x : byOut) ref.insert({ x.second, x.first });
      put(static_cast<pml::ObjectVector&>(op.data()), s); op.swapBuffers();
    }
    else log += " unchanged";
    setcase("%s;%s", head.c_str(), log.c_str());
    r.resetChanged(); f.process(nullptr, nullptr);
    if (any && r.changed() != upd) fail("routings marked as %schanged", r.changed() ? "" : "not ");
    if (!any) continue;
    auto const& t = static_cast<pml::SignalRoutingParameter const&>(r.data()); std::set<std::pair<std::size_t, std::size_t>> got; for (auto const& e : t) got.insert({ e.input, e.output });
    if (got.size() != t.size() || got != ref) { std::string x; for (auto& p : got) x += " " + S(p.first) + "=" + S(p.second); std::string y; for (auto& p : ref) y += " " + S(p.first) + "=" + S(p.second); fail("routings are%s, expected%s", x.c_str(), y.c_str()); }
  }
}
static void hoa()
{
  Arr const ra = layout(rnd(2), "R"), la = layout(rnd(2), "L"); panning::LoudspeakerArray reg, real; reg.loadXmlString(ra.xml); real.loadXmlString(la.xml);
  unsigned const order = rnd(4); std::size_t const nh = (order + 1) * (order + 1), no = 1 + rnd(20), nr = ra.id.size(), nl = la.id.size(); bool const adapt = rnd(2);
  efl::BasicMatrix<float> dec(nh, nr, 16); for (std::size_t i = 0; i < nh; ++i) for (std::size_t j = 0; j < nr; ++j) dec(i, j) = 2 * urnd() - 1;
  std::string const head = "HoaAllRadGainCalculator channels=" + S(no) + " decoder order=" + S(order) + " array " + la.xml; setcase("%s", head.c_str());
  SignalFlowContext ctx(16, 48000); float lis[3] = { 0, 0, 0 }; if (rnd(2)) for (auto& x : lis) x = 0.2 * (2 * urnd() - 1);
  rcl::HoaAllRadGainCalculator c(ctx, "c", nullptr, no, reg, real, dec, pml::ListenerPosition(lis[0], lis[1], lis[2]), adapt); rrl::AudioSignalFlow f(c);
  auto& op = in<DB::OutputBase>(f, "objectInput"); auto& gi = in<SD::OutputBase>(f, "gainInput"); auto& go = out<SD::InputBase>(f, "gainOutput");
  auto* lp = adapt ? &in<DB::OutputBase>(f, "listenerInput") : nullptr; std::string log; Scene s; bool valid = true;
  for (unsigned step = 1 + rnd(4); step > 0; --step)
  {
    if (lp && rnd(3) == 0) { for (auto& x : lis) x = 0.2 * (2 * urnd() - 1); static_cast<pml::ListenerPosition&>(lp->data()).set(lis[0], lis[1], lis[2]); lp->swapBuffers(); char b[90]; std::snprintf(b, sizeof b, " listener (%.9g,%.9g,%.9g)", lis[0], lis[1], lis[2]); log += b; }
    if (rnd(4))
    {
      s = scene(no, 2, 2, {}); log += s.log; valid = true;
      for (auto const& it : s.items) if (it.kind == 7) { if (it.ch.size() != (it.order + 1) * (it.order + 1) || it.ch.size() > nh) valid = false; for (auto x : it.ch) if (x >= no) valid = false; }
      put(static_cast<pml::ObjectVector&>(op.data()), s); op.swapBuffers();
    }
    else log += " unchanged";
    auto& mi = static_cast<pml::MatrixParameter<float>&>(gi.data()); for (std::size_t i = 0; i < nl; ++i) for (std::size_t j = 0; j < no; ++j) mi(i, j) = urnd();
    setcase("%s;%s", head.c_str(), log.c_str());
    if (!runStep(f, valid)) return;
    if (!valid) continue; // an object that does not fit is reported; the gains are unspecified
    panning::VBAP vb(real, lis[0], lis[1], lis[2]); std::vector<std::vector<double>> g2(nr, std::vector<double>(nl));
    for (std::size_t k = 0; k < nr; ++k) { std::vector<float> tmp(real.getNumSpeakers() + 16); auto const& p = reg.getPosition(k); vb.calculateGains(p.x, p.y, p.z, tmp.data(), false); for (std::size_t l = 0; l < nl; ++l) g2[k][l] = tmp[l]; }
    auto const& m = static_cast<pml::MatrixParameter<float> const&>(go.data()); if (m.numberOfRows() != nl || m.numberOfColumns() != no) fail("gains are %zux%zu", m.numberOfRows(), m.numberOfColumns());
    for (std::size_t ch = 0; ch < no; ++ch)
    {
      long row = -1; for (auto const& it : s.items) if (it.kind == 7) for (std::size_t k = 0; k < it.ch.size(); ++k) if (it.ch[k] == ch) row = k;
      for (std::size_t l = 0; l < nl; ++l)
      {
        double e = mi(l, ch); if (row >= 0) { e = 0; for (std::size_t k = 0; k < nr; ++k) e += dec(row, k) * g2[k][l]; }
        if (std::abs(m(l, ch) - e) > 1e-5 * (1 + std::abs(e))) fail("gain of loudspeaker %zu for channel %zu is %.9g, expected %.9g", l, ch, m(l, ch), e);
      }
    }
  }
}
int main(int argc, char** argv)
{
  std::cerr.setstate(std::ios::failbit);
  return drv::run(argc, argv, [](bool) { gainEq(); diffusion(); routing(); hoa(); });
}
