// Partitioned convolution against the direct (time-domain, double precision) convolution.
#include "drv.hpp"
#include <libefl/basic_matrix.hpp>
#include <libpml/double_buffering_protocol.hpp>
#include <libpml/filter_routing_parameter.hpp>
#include <libpml/indexed_value_parameter.hpp>
#include <libpml/interpolation_parameter.hpp>
#include <libpml/message_queue_protocol.hpp>
#include <libpml/shared_data_protocol.hpp>
#include <librbbl/core_convolver_uniform.hpp>
#include <librbbl/crossfading_convolver_uniform.hpp>
#include <librbbl/interpolating_convolver_uniform.hpp>
#include <librbbl/multichannel_convolver_uniform.hpp>
#include <librcl/crossfading_fir_filter_matrix.hpp>
#include <librcl/fir_filter_matrix.hpp>
#include <librcl/interpolating_fir_filter_matrix.hpp>
#include <librrl/audio_signal_flow.hpp>
#include <libvisr/communication_protocol_factory.hpp>
#include <libvisr/parameter_factory.hpp>
#include <libvisr/signal_flow_context.hpp>
#include <iostream>
#include <map>
#include <memory>
#include <stdexcept>
using namespace visr;
using namespace drv;
static ParameterRegistrar<pml::IndexedValueParameter<std::size_t, std::vector<float>>, pml::FilterRoutingParameter, pml::FilterRoutingListParameter, pml::InterpolationParameter> sParam;
static CommunicationProtocolRegistrar<pml::DoubleBufferingProtocol, pml::MessageQueueProtocol, pml::SharedDataProtocol> sProt;
static std::string gLog, gHead;
static void say(std::string const& s)
{
  gLog += s; if (gLog.size() > 1800) gLog = gLog.substr(0, 200) + " ... " + gLog.substr(gLog.size() - 1200);
  setcase("%s;%s", gHead.c_str(), gLog.c_str());
}
static std::string str(double x) { char b[40]; snprintf(b, sizeof b, "%g", x); return b; }
typedef std::vector<double> Vec;
struct Filt { Vec cur, prev; std::size_t pos; };          // pos: samples since the transition was started
struct Model
{
  std::size_t ni, no, bl, len, nf, np, T;                 // nf: filter slots of the convolution
  bool fading;
  std::vector<Filt> f;
  std::map<std::pair<std::size_t, std::size_t>, std::pair<std::size_t, double>> r;  // (out,in) -> (filter,gain)
  std::vector<Vec> x;                                     // input history
  void init() { f.assign(nf, Filt{ Vec(), Vec(), (std::size_t)-1 / 2 }); x.assign(ni, Vec()); }
  void set(std::size_t i, Vec const& h, bool start) { if (start) { f[i].prev = f[i].cur; f[i].pos = 0; } f[i].cur = h; }
  void reset(std::size_t i, Vec const& h) { f[i] = Filt{ h, Vec(), (std::size_t)-1 / 2 }; }
  static double at(Vec const& h, Vec const& s, std::size_t n)
  {
    double a = 0; for (std::size_t k = 0; k < h.size() && k <= n; ++k) a += h[k] * s[n - k];
    return a;
  }
  std::vector<Vec> step(std::vector<Vec> const& in)
  {
    std::size_t const n0 = x[0].size();
    for (std::size_t c = 0; c < ni; ++c) x[c].insert(x[c].end(), in[c].begin(), in[c].end());
    std::vector<Vec> y(no, Vec(bl, 0.0));
    for (auto& e : r)
    {
      Filt const& q = f[e.second.first]; double const g = e.second.second;
      for (std::size_t k = 0; k < bl; ++k)
      {
        double const w = (!fading || T == 0 || q.pos + k >= T) ? 1.0 : (q.pos + k + 1.0) / T;
        double v = w * at(q.cur, x[e.first.second], n0 + k);
        if (w != 1.0) v += (1 - w) * at(q.prev, x[e.first.second], n0 + k);
        y[e.first.first][k] += g * v;
      }
    }
    for (auto& q : f) q.pos += bl;
    return y;
  }
};
static Vec randIr(std::size_t n) { Vec v(n); for (auto& x : v) x = ((int)rnd(33) - 16) / 8.0; return v; }
template <class T> static void near(T const* got, Vec const& want, std::size_t out, double tol)
{
  for (std::size_t k = 0; k < want.size(); ++k)
    if (!(std::fabs((double)got[k] - want[k]) <= tol)) fail("output %zu sample %zu is %.9g, the direct convolution gives %.9g", out, k, (double)got[k], want[k]);
}
template <class F> static bool throws(F f) { try { f(); } catch (std::exception const&) { return true; } return false; }

template <class T> struct Common
{
  Model m; std::size_t al; std::unique_ptr<efl::BasicMatrix<T>> pin, pout;
  std::size_t maxEntries = 0;
  Common(char const* name, bool fading)
    : al(std::size_t(1) << (1 + rnd(4)))
  {
    m.ni = 1 + rnd(3); m.no = 1 + rnd(3); m.bl = al * (1 + rnd(rnd(3) ? 3 : 12)); m.len = 1 + rnd(rnd(3) ? 40 : 200);
    m.nf = 1 + rnd(5); m.np = 1 + rnd(6); m.T = rnd(4) ? rnd(4 * m.bl) : 0; m.fading = fading;
    if (rnd(6) == 0) { al = 0; m.bl = 1 + rnd(20); }       // no alignment: every block length is admissible
    gHead = std::string(name) + (sizeof(T) == 4 ? "<float>" : "<double>") + " inputs=" + std::to_string(m.ni) + " outputs=" + std::to_string(m.no) + " block=" + std::to_string(m.bl)
      + " maxlength=" + std::to_string(m.len) + " filters=" + std::to_string(m.nf) + " routings=" + std::to_string(m.np) + " alignment=" + std::to_string(al) + (fading ? " transition=" + std::to_string(m.T) : "");
    gLog.clear(); say("");
    m.init();
    pin.reset(new efl::BasicMatrix<T>(m.ni, m.bl, al)); pout.reset(new efl::BasicMatrix<T>(m.no, m.bl, al));
  }
  efl::BasicMatrix<T> mat(std::vector<Vec> const& h) const
  {
    std::size_t const c = h.empty() ? 0 : h[0].size();
    efl::BasicMatrix<T> r(h.size(), c, al);
    for (std::size_t i = 0; i < h.size(); ++i) for (std::size_t k = 0; k < c; ++k) r(i, k) = (T)h[i][k];
    return r;
  }
  std::vector<Vec> randSet(std::size_t max) { std::size_t const n = rnd(max + 1), l = 1 + rnd(m.len); std::vector<Vec> h; for (std::size_t i = 0; i < n; ++i) h.push_back(randIr(l)); return h; }
  template <class C> void process(C& c)
  {
    std::vector<Vec> x(m.ni, Vec(m.bl)); auto &in = *pin, &out = *pout;
    for (std::size_t i = 0; i < m.ni; ++i) for (std::size_t k = 0; k < m.bl; ++k) in(i, k) = (T)(x[i][k] = ((int)rnd(65) - 32) / 16.0);
    for (std::size_t i = 0; i < m.no; ++i) for (std::size_t k = 0; k < m.bl; ++k) out(i, k) = (T)77;
    say(" process");
    c.process(in.data(), in.stride(), out.data(), out.stride(), al);
    auto const y = m.step(x);
    for (std::size_t o = 0; o < m.no; ++o) near(out.row(o), y[o], o, tol());
  }
  double tol() const { return (sizeof(T) == 4 ? 2e-4 : 1e-9) * (10 + m.len); }
  rbbl::FilterRoutingList randRoutings(Model& md)
  {
    rbbl::FilterRoutingList l; md.r.clear();
    for (unsigned i = rnd(md.np + 1); i > 0; --i)
    {
      std::size_t const a = rnd(md.ni), b = rnd(md.no), f = rnd(md.nf); double const g = ((int)rnd(17) - 8) / 4.0;
      if (md.r.count({ b, a })) continue;
      md.r[{ b, a }] = { f, g }; l.addRouting(a, b, f, g); say(" (" + std::to_string(a) + "," + std::to_string(b) + "," + std::to_string(f) + "," + str(g) + ")");
    }
    return l;
  }
  template <class C> void routingOps(C& c)
  {
    if (c.maxNumberOfRoutingPoints() != m.np) fail("maxNumberOfRoutingPoints() is %zu", (std::size_t)c.maxNumberOfRoutingPoints());
    std::size_t const a = rnd(m.ni + (rnd(8) == 0)), b = rnd(m.no + (rnd(8) == 0)), f = rnd(m.nf + (rnd(8) == 0)); double const g = ((int)rnd(17) - 8) / 4.0;
    switch (rnd(8))
    {
    case 0: { say(" initRoutings"); c.initRoutingTable(randRoutings(m)); break; }
    case 1: if (rnd(3) == 0) { say(" clearRoutings"); c.clearRoutingTable(); m.r.clear(); } break;
    case 2: case 3:
    {
      say(" removeRouting(" + std::to_string(a) + "," + std::to_string(b) + ")");
      bool const got = c.removeRoutingEntry(a, b), want = m.r.erase({ b, a }) != 0;
      if (got != want) fail("removeRoutingEntry returned %d, entry %s", got, want ? "existed" : "did not exist");
      break;
    }
    default:
    {
      say(" setRouting(" + std::to_string(a) + "," + std::to_string(b) + "," + std::to_string(f) + "," + str(g) + ")");
      bool const bad = a >= m.ni || b >= m.no || f >= m.nf || (!m.r.count({ b, a }) && m.r.size() >= m.np);
      bool const t = throws([&] { if (rnd(2)) c.setRoutingEntry(a, b, f, (T)g); else c.setRoutingEntry(rbbl::FilterRouting(a, b, f, g)); });
      if (t != bad) fail(bad ? "an inadmissible routing was accepted" : "an admissible routing was rejected");
      if (!bad) m.r[{ b, a }] = { f, g };
    }
    }
    if (c.numberOfRoutingPoints() != m.r.size()) fail("numberOfRoutingPoints() is %zu, expected %zu", (std::size_t)c.numberOfRoutingPoints(), m.r.size());
  }
};
template <class T> struct Single
{
  explicit Single(Vec const& h, std::size_t al) : v(h.size() + 1, al ? al : 0) { for (std::size_t k = 0; k < h.size(); ++k) v[k] = (T)h[k]; }
  efl::BasicVector<T> v;
};
template <class T> static void multi()
{
  Common<T> t("MultichannelConvolverUniform", false); Model& m = t.m;
  auto h = t.randSet(m.nf); for (std::size_t i = 0; i < h.size(); ++i) m.reset(i, h[i]);
  auto const mm = t.mat(h); auto const l = t.randRoutings(m); say(" initial filters=" + std::to_string(h.size()));
  rbbl::MultichannelConvolverUniform<T> c(m.ni, m.no, m.bl, m.len, m.np, m.nf, l, mm, t.al);
  for (unsigned b = 1 + rnd(14); b > 0; --b)
  {
    if (rnd(2)) t.routingOps(c);
    if (rnd(3) == 0)
    {
      std::size_t const f = rnd(m.nf + (rnd(8) == 0)), n = rnd(m.len + 1 + 2 * (rnd(8) == 0)); Vec const ir = randIr(n); Single<T> s(ir, t.al);
      say(" setFilter " + std::to_string(f) + " length " + std::to_string(n));
      bool const bad = f >= m.nf || n > m.len;
      if (throws([&] { c.setImpulseResponse(s.v.data(), n, f, t.al); }) != bad) fail(bad ? "an inadmissible filter was accepted" : "an admissible filter was rejected");
      if (f < m.nf && !bad) m.reset(f, ir);
    }
    if (rnd(10) == 0) { auto q = t.randSet(m.nf); say(" initFilters " + std::to_string(q.size())); c.initFilters(t.mat(q)); for (std::size_t i = 0; i < m.nf; ++i) m.reset(i, i < q.size() ? q[i] : Vec()); }
    if (rnd(20) == 0) { say(" clearFilters"); c.clearFilters(); for (std::size_t i = 0; i < m.nf; ++i) m.reset(i, Vec()); }
    t.process(c);
  }
}
template <class T> static void cross()
{
  Common<T> t("CrossfadingConvolverUniform", true); Model& m = t.m;
  auto h = t.randSet(m.nf); for (std::size_t i = 0; i < h.size(); ++i) m.reset(i, h[i]);
  auto const mm = t.mat(h); auto const l = t.randRoutings(m); say(" initial filters=" + std::to_string(h.size()));
  rbbl::CrossfadingConvolverUniform<T> c(m.ni, m.no, m.bl, m.len, m.np, m.nf, m.T, l, mm, t.al);
  if (c.maxNumberOfFilterEntries() != m.nf) fail("maxNumberOfFilterEntries() is %zu", (std::size_t)c.maxNumberOfFilterEntries());
  for (unsigned b = 1 + rnd(14); b > 0; --b)
  {
    if (rnd(2)) t.routingOps(c);
    if (rnd(2) == 0)
    {
      std::size_t const f = rnd(m.nf + (rnd(8) == 0)), n = rnd(m.len + 1 + 2 * (rnd(8) == 0)); bool const start = rnd(3) != 0, td = rnd(3) == 0; Vec const ir = randIr(n); Single<T> s(ir, t.al);
      say(std::string(td ? " setTransformedFilter " : " setFilter ") + std::to_string(f) + " length " + std::to_string(n) + (start ? " start" : " nostart"));
      bool const bad = f >= m.nf || n > m.len;
      if (throws([&] {
            if (td) { efl::BasicVector<std::complex<T>> q(c.dftFilterRepresentationSize(), c.complexAlignment()); c.transformImpulseResponse(s.v.data(), n, q.data(), t.al); c.setTransformedFilter(q.data(), f, start, c.complexAlignment()); }
            else c.setImpulseResponse(s.v.data(), n, f, start, t.al); }) != bad) fail(bad ? "an inadmissible filter was accepted" : "an admissible filter was rejected");
      if (!bad) m.set(f, ir, start);
    }
    if (rnd(8) == 0)
    {
      bool const many = rnd(6) == 0; auto q = t.randSet(m.nf);
      if (many) { q.clear(); for (std::size_t i = 0; i < m.nf + 1; ++i) q.push_back(Vec(1, 0.0)); }
      say(" initFilters " + std::to_string(q.size()));
      if (throws([&] { c.initFilters(t.mat(q)); }) != many) fail(many ? "more filters than slots were accepted" : "admissible filters were rejected");
      if (many) { c.clearFilters(); q.clear(); }
      for (std::size_t i = 0; i < m.nf; ++i) if (!many) m.reset(i, i < q.size() ? q[i] : Vec()); else { m.f[i].cur.clear(); m.f[i].prev.clear(); }
    }
    if (rnd(20) == 0) { say(" clearFilters"); c.clearFilters(); for (auto& q : m.f) { q.cur.clear(); q.prev.clear(); } }
    t.process(c);
  }
}
struct Ipol
{
  std::size_t nd, N; std::vector<Vec> db;
  Vec mix(std::vector<std::size_t> const& id, std::vector<float> const& w) const
  {
    Vec v; for (std::size_t i = 0; i < id.size(); ++i) { Vec const& q = db[id[i]]; if (q.size() > v.size()) v.resize(q.size(), 0.0); for (std::size_t k = 0; k < q.size(); ++k) v[k] += w[i] * q[k]; }
    return v;
  }
  void rand(std::vector<std::size_t>& id, std::vector<float>& w, std::size_t lim) const
  {
    id.clear(); w.clear(); for (std::size_t i = 0; i < N; ++i) { id.push_back(rnd(lim)); w.push_back(((int)rnd(9) - 4) / 4.0f); say(" " + std::to_string(id[i]) + "*" + str(w[i])); }
  }
};
template <class T> static void inter()
{
  Common<T> t("InterpolatingConvolverUniform", true); Model& m = t.m;
  m.nf = m.np; m.init();                                  // one (interpolated) filter per routing id
  Ipol d; d.nd = 1 + rnd(6); d.N = 1 + rnd(3); d.db.assign(d.nd, Vec());
  gHead += " database=" + std::to_string(d.nd) + " interpolants=" + std::to_string(d.N);
  auto h = t.randSet(d.nd); for (std::size_t i = 0; i < h.size(); ++i) d.db[i] = h[i];
  auto const mm = t.mat(h); auto const l = t.randRoutings(m);
  rbbl::InterpolationParameterSet ps; std::vector<std::size_t> id; std::vector<float> w;
  for (std::size_t i = 0; i < m.np; ++i) if (rnd(2)) { say(" interpolant " + std::to_string(i)); d.rand(id, w, d.nd); ps.insert(rbbl::InterpolationParameter(i, id, w)); m.set(i, d.mix(id, w), false); }
  rbbl::InterpolatingConvolverUniform<T> c(m.ni, m.no, m.bl, m.len, m.np, d.nd, d.N, m.T, l, ps, mm, t.al);
  if (c.maxNumberOfFilterEntries() != d.nd) fail("maxNumberOfFilterEntries() is %zu", (std::size_t)c.maxNumberOfFilterEntries());
  for (unsigned b = 1 + rnd(14); b > 0; --b)
  {
    if (rnd(2)) t.routingOps(c);
    if (rnd(3) == 0)
    {
      std::size_t const f = rnd(d.nd + (rnd(8) == 0)), n = rnd(m.len + 1 + 2 * (rnd(8) == 0)); Vec const ir = randIr(n); Single<T> s(ir, t.al);
      say(" setFilter " + std::to_string(f) + " length " + std::to_string(n)); bool const bad = f >= d.nd || n > m.len;
      if (throws([&] { c.setImpulseResponse(s.v.data(), n, f, t.al); }) != bad) fail(bad ? "an inadmissible filter was accepted" : "an admissible filter was rejected");
      if (!bad) d.db[f] = ir;
    }
    if (rnd(2) == 0)
    {
      std::size_t const i = rnd(m.np + (rnd(8) == 0)); bool const start = rnd(3) != 0, over = rnd(8) == 0, cnt = rnd(10) == 0;
      say(std::string(start ? " start" : " nostart") + " interpolant " + std::to_string(i)); std::size_t const N = d.N; if (cnt) ++d.N; d.rand(id, w, d.nd); d.N = N;
      if (over) { id[rnd(id.size())] = d.nd; say(" (one index out of range)"); }
      bool const bad = i >= m.np || over || cnt;
      if (throws([&] { c.setInterpolant(rbbl::InterpolationParameter(i, id, w), start); }) != bad) fail(bad ? "an inadmissible interpolant was accepted" : "an admissible interpolant was rejected");
      if (!bad) m.set(i, d.mix(id, w), start);
    }
    if (rnd(10) == 0) { auto q = t.randSet(d.nd); say(" initFilters " + std::to_string(q.size())); c.initFilters(t.mat(q)); for (std::size_t i = 0; i < d.nd; ++i) d.db[i] = i < q.size() ? q[i] : Vec(); }
    if (rnd(20) == 0) { say(" clearFilters"); c.clearFilters(); for (auto& q : m.f) { q.cur.clear(); q.prev.clear(); } for (auto& q : d.db) q.clear(); }
    if (rnd(20) == 0) { say(" clearInterpolants"); c.clearInterpolants(); for (auto& q : m.f) { q.cur.clear(); q.prev.clear(); } }
    t.process(c);
  }
}
typedef pml::IndexedValueParameter<std::size_t, std::vector<float>> Indexed;
static void component(int kind)
{
  static char const* const nm[] = { "FirFilterMatrix", "CrossfadingFirFilterMatrix", "InterpolatingFirFilterMatrix" };
  Common<float> t(nm[kind], kind > 0); Model& m = t.m;
  t.al = 16; m.bl = 16 * (1 + rnd(4)); Ipol d; d.nd = m.nf; d.N = 1 + rnd(3); d.db.assign(d.nd, Vec()); if (kind == 2) m.nf = m.np; m.init();
  gHead += " (block is " + std::to_string(m.bl) + ", interpolants=" + std::to_string(d.N) + ")"; say("");
  auto h = t.randSet(d.nd); for (std::size_t i = 0; i < h.size(); ++i) { d.db[i] = h[i]; if (kind < 2) m.reset(i, h[i]); }
  auto const mm = t.mat(h); auto const l = t.randRoutings(m);
  rbbl::InterpolationParameterSet ps; std::vector<std::size_t> id; std::vector<float> w;
  if (kind == 2) for (std::size_t i = 0; i < m.np; ++i) if (rnd(2)) { say(" interpolant " + std::to_string(i)); d.rand(id, w, d.nd); ps.insert(rbbl::InterpolationParameter(i, id, w)); m.set(i, d.mix(id, w), false); }
  SignalFlowContext ctx(m.bl, 48000);
  std::unique_ptr<rcl::FirFilterMatrix> a; std::unique_ptr<rcl::CrossfadingFirFilterMatrix> b; std::unique_ptr<rcl::InterpolatingFirFilterMatrix> c;
  bool const ctl = rnd(3) != 0; std::unique_ptr<rrl::AudioSignalFlow> f;
  if (kind == 0)
  {
    typedef rcl::FirFilterMatrix::ControlPortConfig P;
    a.reset(new rcl::FirFilterMatrix(ctx, "fir", nullptr, m.ni, m.no, m.len, m.nf, m.np, mm, l, ctl ? P::All : P::None)); f.reset(new rrl::AudioSignalFlow(*a));
  }
  else if (kind == 1)
  {
    typedef rcl::CrossfadingFirFilterMatrix::ControlPortConfig P;
    b.reset(new rcl::CrossfadingFirFilterMatrix(ctx, "fir", nullptr, m.ni, m.no, m.len, m.nf, m.np, m.T, mm, l, ctl ? P::Filters : P::None)); f.reset(new rrl::AudioSignalFlow(*b));
  }
  else
  {
    typedef rcl::InterpolatingFirFilterMatrix::ControlPortConfig P;
    c.reset(new rcl::InterpolatingFirFilterMatrix(ctx, "fir", nullptr, m.ni, m.no, m.len, d.nd, m.np, d.N, m.T, mm, ps, l, ctl ? P::Filters | P::Interpolants : P::None)); f.reset(new rrl::AudioSignalFlow(*c));
  }
  auto queue = [&](char const* n) -> pml::MessageQueueProtocol::OutputBase& { return dynamic_cast<pml::MessageQueueProtocol::OutputBase&>(f->externalParameterReceivePort(n)); };
  for (unsigned k = 1 + rnd(10); k > 0; --k)
  {
    for (unsigned q = rnd(3); q > 0; --q)
    {
      std::size_t const i = rnd(d.nd), n = 1 + rnd(m.len); Vec const ir = randIr(n); std::vector<float> v(ir.begin(), ir.end());
      say((ctl ? " message: filter " : " setFilter ") + std::to_string(i) + " length " + std::to_string(n));
      if (ctl) queue("filterInput").enqueue(std::unique_ptr<ParameterBase>(new Indexed(i, v)));
      else if (a) a->setFilter(i, v.data(), n); else if (b) b->setFilter(i, v.data(), n); else c->setFilter(i, v.data(), n);
      if (kind == 2) d.db[i] = ir; else if (kind == 1) m.set(i, ir, true); else m.reset(i, ir);
    }
    if (kind == 2) for (unsigned q = rnd(3); q > 0; --q)
    {
      std::size_t const i = rnd(m.np); bool const start = ctl || rnd(2); say(std::string(ctl ? " message: " : start ? " start " : " nostart ") + "interpolant " + std::to_string(i)); d.rand(id, w, d.nd);
      if (ctl) queue("interpolantInput").enqueue(std::unique_ptr<ParameterBase>(new pml::InterpolationParameter(i, id, w))); else c->setInterpolant(i, id, w, start);
      m.set(i, d.mix(id, w), start);
    }
    if (rnd(3) == 0 && (kind == 0 || !ctl))
    {
      say(" set routings"); auto const r = t.randRoutings(m);
      if (kind == 0 && ctl)
      {
        auto& p = dynamic_cast<pml::DoubleBufferingProtocol::OutputBase&>(f->externalParameterReceivePort("allRoutings"));
        static_cast<rbbl::FilterRoutingList&>(static_cast<pml::FilterRoutingListParameter&>(p.data())) = r; p.swapBuffers();
      }
      else if (a) a->setRoutings(r); else if (b) b->setRoutings(r); else c->setRoutings(r);
    }
    for (unsigned q = rnd(3); q > 0; --q)
    {
      std::size_t const i = rnd(m.ni), o = rnd(m.no), fi = rnd(m.nf); double const g = ((int)rnd(17) - 8) / 4.0;
      if (!m.r.count({ o, i }) && m.r.size() >= m.np) continue;
      if (kind > 0 && ctl) continue;
      say(" routing(" + std::to_string(i) + "," + std::to_string(o) + "," + std::to_string(fi) + "," + str(g) + ")");
      if (kind == 0 && ctl) queue("singleRouting").enqueue(std::unique_ptr<ParameterBase>(new pml::FilterRoutingParameter(i, o, fi, g)));
      else if (a) a->addRouting(i, o, fi, (float)g); else if (b) b->addRouting(i, o, fi, (float)g); else c->addRouting(i, o, fi, (float)g);
      m.r[{ o, i }] = { fi, g };
    }
    std::vector<Vec> x(m.ni, Vec(m.bl)); std::vector<std::vector<float>> xi(m.ni, std::vector<float>(m.bl)), yo(m.no, std::vector<float>(m.bl, 77.0f));
    std::vector<float const*> ip; std::vector<float*> op;
    for (std::size_t i = 0; i < m.ni; ++i) { for (std::size_t j = 0; j < m.bl; ++j) xi[i][j] = (float)(x[i][j] = ((int)rnd(65) - 32) / 16.0); ip.push_back(xi[i].data()); }
    for (auto& y : yo) op.push_back(y.data());
    say(" process"); f->process(ip.data(), op.data());
    auto const y = m.step(x);
    for (std::size_t o = 0; o < m.no; ++o) near(yo[o].data(), y[o], o, t.tol());
  }
}
int main(int argc, char** argv)
{
  std::cout.setstate(std::ios_base::failbit);
  return drv::run(argc, argv, [](bool) { multi<float>(); multi<double>(); cross<float>(); cross<double>(); inter<float>(); inter<double>(); component(rnd(3)); });
}
