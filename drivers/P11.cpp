#include "drv.hpp"
#include <deque>
#include <memory>
#include <stdexcept>
#include <libpml/double_buffering_protocol.hpp>
#include <libpml/message_queue_protocol.hpp>
#include <libpml/shared_data_protocol.hpp>
#include <libpml/vector_parameter.hpp>
#include <libpml/vector_parameter_config.hpp>
#include <libpml/matrix_parameter.hpp>
#include <libpml/matrix_parameter_config.hpp>
#include <libvisr/communication_protocol_factory.hpp>
#include <libvisr/parameter_factory.hpp>
#include <complex>
#include <libobjectmodel/plane_wave.hpp>
#include <libobjectmodel/point_source_with_diffuseness.hpp>
#include <libpml/biquad_parameter.hpp>
#include <libpml/filter_routing_parameter.hpp>
#include <libpml/interpolation_parameter.hpp>
#include <libpml/object_vector.hpp>
#include <libpml/scalar_parameter.hpp>
#include <libpml/signal_routing_parameter.hpp>
#include <libpml/sparse_gain_routing_parameter.hpp>
#include <libpml/string_parameter.hpp>
using namespace visr;
using namespace drv;
typedef pml::VectorParameter<float> VP;
typedef pml::MatrixParameter<float> MP;
static ParameterRegistrar<VP, MP> sParam;
typedef pml::DoubleBufferingProtocol DB;
typedef pml::MessageQueueProtocol MQ;
typedef pml::SharedDataProtocol SD;

template <class P> struct T;
template <> struct T<VP>
{
  static pml::VectorParameterConfig cfg() { return pml::VectorParameterConfig(3); }
  static VP make(float x) { VP p(3, 0); set(p, x); return p; }
  static void set(VP& p, float x) { for (int i = 0; i < 3; ++i) p[i] = x + i; }
  static bool is(VP const& p, float x) { if (p.size() != 3) return false; for (int i = 0; i < 3; ++i) if (p[i] != x + i) return false; return true; }
};
template <> struct T<MP>
{
  static pml::MatrixParameterConfig cfg() { return pml::MatrixParameterConfig(2, 3); }
  static MP make(float x) { MP p(2, 3, 0); set(p, x); return p; }
  static void set(MP& p, float x) { for (int i = 0; i < 6; ++i) p(i / 3, i % 3) = x + i; }
  static bool is(MP const& p, float x) { if (p.numberOfRows() != 2 || p.numberOfColumns() != 3) return false; for (int i = 0; i < 6; ++i) if (p(i / 3, i % 3) != x + i) return false; return true; }
};
static float fresh() { static unsigned n = 0; n = (n + 8) & 0xfffff; return (float)n; }
template <class F> bool throws(F f) { try { f(); } catch (std::invalid_argument const&) { return true; } catch (std::logic_error const&) { return true; } return false; }

struct Log
{
  std::string s; char const* head;
  explicit Log(char const* h) : head(h) {}
  void operator()(std::string const& x) { s += x; if (s.size() > 1500) s = "..." + s.substr(s.size() - 1200); setcase("%s: %s", head, s.c_str()); }
};

template <class P> void doubleBuffering()
{
  Log log("DoubleBufferingProtocol");
  DB pr(ParameterToId<P>::id, T<P>::cfg());
  struct In { std::unique_ptr<typename DB::template Input<P>> p; bool con = false, ch = false; };
  std::vector<In> in(1 + rnd(4));
  for (auto& i : in) i.p.reset(new typename DB::template Input<P>());
  typename DB::template Output<P> out, other;
  MQ::Input<P> wrongIn; MQ::Output<P> wrongOut; SD::Input<P> wrong2;
  bool ocon = false;
  bool pubKnown = false, frontKnown = false; float pub = 0, front = 0;
  for (unsigned n = 5 + rnd(40), i = 0; i < n; ++i)
  {
    unsigned const k = rnd(in.size()); In& q = in[k]; std::string const nm = std::to_string(k);
    switch (rnd(12))
    {
    case 0: log("connectInput " + nm + ";"); if (throws([&] { pr.connectInput(q.p.get()); })) fail("connecting an input failed"); q.con = true; break;
    case 1: { log("disconnectInput " + nm + ";"); bool const r = pr.disconnectInput(q.p.get()); if (r != q.con) fail("disconnectInput returns %d", r); if (r && q.p->getProtocol()) fail("disconnected input keeps its protocol"); q.con = false; break; }
    case 2: log("connectOutput;"); if (throws([&] { pr.connectOutput(&out); }) != ocon) fail("a second output was %s", ocon ? "accepted" : "rejected"); ocon = true; break;
    case 3: { if (rnd(3)) break; log("disconnectOutput;"); if (pr.disconnectOutput(&other)) fail("disconnecting an output that is not connected succeeded"); bool const r = pr.disconnectOutput(&out); if (r != ocon) fail("disconnectOutput returns %d", r); ocon = false; break; }
    case 4: log("wrong port types;"); if (!throws([&] { pr.connectInput(&wrongIn); }) || !throws([&] { pr.connectInput(&wrong2); }) || !throws([&] { pr.connectOutput(&wrongOut); })) fail("port of another protocol accepted"); if (pr.disconnectInput(&wrongIn) || pr.disconnectOutput(&wrongOut)) fail("port of another protocol disconnected");
      if (!throws([&] { MQ m(ParameterToId<P>::id, T<P>::cfg()); q.p->setProtocolInstance(static_cast<CommunicationProtocolBase*>(&m)); })) fail("protocol of another type accepted by the port"); break;
    case 5: case 6: if (!ocon) break; front = fresh(); frontKnown = true; log("write " + std::to_string((int)front) + ";"); T<P>::set(out.data(), front); break;
    case 7: case 8:
    {
      if (!ocon || !frontKnown) break;
      bool const copy = rnd(2);
      log(copy ? "swap(copy);" : "swap;");
      bool def = !copy && rnd(2);
      if (def) out.swapBuffers(); else out.swapBuffers(copy);
      pub = front; pubKnown = true; frontKnown = copy;
      for (auto& x : in) if (x.con) x.ch = true;
      break;
    }
    case 9: log("resetChanged " + nm + ";"); q.p->resetChanged(); q.ch = false; break;
    default: break;
    }
    for (std::size_t j = 0; j < in.size(); ++j)
    {
      if (in[j].p->changed() != in[j].ch) fail("input %zu: changed() is %d, expected %d", j, in[j].p->changed(), in[j].ch);
      if (in[j].con && in[j].p->getProtocol() != &pr) fail("input %zu is not attached", j);
      if (in[j].con && pubKnown && !T<P>::is(in[j].p->data(), pub)) fail("input %zu does not see the published value %g", j, pub);
    }
    if (ocon && frontKnown && !T<P>::is(out.data(), front)) fail("output does not see its value %g", front);
  }
}

template <class P> void queue()
{
  Log log("MessageQueueProtocol");
  MQ pr(ParameterToId<P>::id, T<P>::cfg());
  MQ::Input<P> in, in2; MQ::Output<P> out, out2; DB::Input<P> wi; DB::Output<P> wo;
  bool ic = false, oc = false;
  std::deque<float> m;
  for (unsigned n = 5 + rnd(60), i = 0; i < n; ++i)
  {
    switch (rnd(12))
    {
    case 0: log("connectInput;"); if (throws([&] { pr.connectInput(&in); }) != ic) fail("second input %s", ic ? "accepted" : "rejected"); ic = true; break;
    case 1: log("connectOutput;"); if (throws([&] { pr.connectOutput(&out); }) != oc) fail("second output %s", oc ? "accepted" : "rejected"); oc = true; break;
    case 2: if (rnd(4)) break; log("disconnect;"); if (pr.disconnectInput(&in2) || pr.disconnectOutput(&out2)) fail("unconnected port disconnected"); if (pr.disconnectInput(&in) != ic || pr.disconnectOutput(&out) != oc) fail("disconnect reports the wrong result"); ic = oc = false; if (in.getProtocol() || out.getProtocol()) fail("disconnected port keeps its protocol"); break;
    case 3: log("wrong ports;"); if (!throws([&] { pr.connectInput(&wi); }) || !throws([&] { pr.connectOutput(&wo); })) fail("port of another protocol accepted"); break;
    case 4: case 5: case 6: case 7:
      if (!oc) break;
      for (unsigned z = rnd(rnd(6) ? 3 : 200) + 1; z; --z)
      {
        float const x = fresh(); log("put;"); m.push_back(x);
        if (rnd(2)) { P p = T<P>::make(x); out.enqueue(p); } else out.enqueue(T<P>::make(x));
      }
      break;
    case 8: case 9: case 10:
      if (!ic) break;
      for (unsigned z = rnd(rnd(6) ? 3 : 200) + 1; z; --z)
      {
        log("pop;");
        if (m.empty()) { if (!throws([&] { in.front(); }) || !throws([&] { in.pop(); })) fail("access to an empty queue is not rejected"); break; }
        if (!T<P>::is(in.front(), m.front())) fail("message out of order or changed (expected %g)", m.front());
        in.pop(); m.pop_front();
      }
      break;
    case 11: if (ic && rnd(4) == 0) { log("clear;"); in.clear(); m.clear(); } break;
    }
    if (ic && (in.empty() != m.empty() || in.size() != m.size())) fail("input reports %zu messages, %zu are queued", in.size(), m.size());
    if (oc && (out.empty() != m.empty() || out.size() != m.size())) fail("output reports %zu messages, %zu are queued", out.size(), m.size());
    if (pr.numberOfElements() != m.size()) fail("protocol reports %zu messages, %zu are queued", pr.numberOfElements(), m.size());
    if (ic && !m.empty() && !T<P>::is(in.front(), m.front())) fail("next message is not the oldest one (expected %g)", m.front());
  }
}

template <class P> void shared()
{
  Log log("SharedDataProtocol");
  SD pr(ParameterToId<P>::id, T<P>::cfg());
  std::vector<std::unique_ptr<SD::Input<P>>> in; std::vector<bool> con;
  for (unsigned n = 1 + rnd(4); n; --n) { in.emplace_back(new SD::Input<P>()); con.push_back(false); }
  SD::Output<P> out, out2; DB::Input<P> wi; DB::Output<P> wo;
  bool oc = false, known = false; float val = 0;
  for (unsigned n = 5 + rnd(40), i = 0; i < n; ++i)
  {
    unsigned const k = rnd(in.size());
    switch (rnd(8))
    {
    case 0: case 1: log("connectInput;"); pr.connectInput(in[k].get()); con[k] = true; break;
    case 2: log("disconnectInput;"); if (pr.disconnectInput(in[k].get()) != con[k]) fail("disconnectInput reports the wrong result"); con[k] = false; if (in[k]->getProtocol()) fail("disconnected port keeps its protocol"); break;
    case 3: log("connectOutput;"); if (throws([&] { pr.connectOutput(&out); }) != oc) fail("second output %s", oc ? "accepted" : "rejected"); oc = true; break;
    case 4: if (rnd(3)) break; log("disconnectOutput;"); if (pr.disconnectOutput(&out2) || pr.disconnectOutput(&out) != oc) fail("disconnectOutput reports the wrong result"); oc = false; break;
    case 5: log("wrong ports;"); if (!throws([&] { pr.connectInput(&wi); }) || !throws([&] { pr.connectOutput(&wo); })) fail("port of another protocol accepted"); break;
    default: if (oc) { val = fresh(); known = true; log("write;"); T<P>::set(out.data(), val); }
    }
    for (std::size_t j = 0; j < in.size(); ++j) if (con[j] && known && !T<P>::is(in[j]->data(), val)) fail("input %zu does not see the value %g", j, val);
    if (oc && known && !T<P>::is(out.data(), val)) fail("output does not see its own value");
  }
}

template <class P> void params()
{
  setcase("clone and assign of parameters");
  float const x = fresh(), y = fresh();
  P a = T<P>::make(x), b = T<P>::make(y);
  std::unique_ptr<ParameterBase> c = static_cast<ParameterBase const&>(a).clone();
  if (!T<P>::is(static_cast<P const&>(*c), x)) fail("clone differs from the original");
  static_cast<ParameterBase&>(b).assign(a);
  if (!T<P>::is(b, x)) fail("assigned parameter differs from the source");
  T<P>::set(a, y);
  if (!T<P>::is(b, x) || !T<P>::is(static_cast<P const&>(*c), x)) fail("copy shares storage with the original");
  if (c->type() != ParameterToId<P>::id) fail("clone has another parameter type");
}

// values of every parameter type: fill(p, x) writes the value number x, is(p, x) compares; sized(p, x) makes a parameter
template <class P, class Mk, class Fill, class Is> void value(char const* name, Mk make, Fill fill, Is is)
{
  unsigned const x = rnd(50), y = 50 + rnd(50);
  setcase("%s: clone and assign of value %u, other value %u", name, x, y);
  P a = make(), b = make(); fill(a, x); fill(b, y);
  if (!is(a, x) || !is(b, y)) fail("parameter does not hold what was written");
  std::unique_ptr<ParameterBase> c = static_cast<ParameterBase const&>(a).clone();
  if (c->type() != ParameterToId<P>::id || !dynamic_cast<P*>(c.get())) fail("clone has another parameter type");
  if (!is(static_cast<P const&>(*c), x) || !is(a, x)) fail("clone differs from the original");
  static_cast<ParameterBase&>(b).assign(a);
  if (!is(b, x) || !is(a, x)) fail("assigned parameter differs from the source");
  fill(a, y);
  if (!is(a, y) || !is(b, x) || !is(static_cast<P const&>(*c), x)) fail("copy shares storage with the original");
  fill(b, y); c->assign(b); if (!is(static_cast<P const&>(*c), y)) fail("assigned clone differs from the source");
  P const d(b); static_cast<ParameterBase&>(b).assign(b); if (!is(b, y) || !is(d, y)) fail("parameter assigned to itself has changed");
  pml::StringParameter str; pml::ScalarParameter<bool> flag; ParameterBase& other = ParameterToId<P>::id == ParameterToId<pml::StringParameter>::id ? static_cast<ParameterBase&>(flag) : str;
  if (!throws([&] { static_cast<ParameterBase&>(b).assign(other); })) fail("a parameter of another type is assigned");
  if (!is(b, y)) fail("rejected assignment has changed the parameter");
}
template <class S> static S num(unsigned x, unsigned i) { return S(x * 16 + i); }
template <> std::complex<float> num(unsigned x, unsigned i) { return std::complex<float>(x * 16 + i, i); }
template <> std::complex<double> num(unsigned x, unsigned i) { return std::complex<double>(x * 16 + i, i); }
template <class S> void numeric(char const* name)
{
  std::string const v = std::string("VectorParameter<") + name + ">", m = std::string("MatrixParameter<") + name + ">";
  std::size_t const n = rnd(12), r = rnd(5), c = r ? rnd(7) : 0;
  typedef pml::VectorParameter<S> V; typedef pml::MatrixParameter<S> M;
  value<V>(v.c_str(), [&] { return V(n, 1u << rnd(5)); }, [&](V& p, unsigned x) { for (std::size_t i = 0; i < n; ++i) p[i] = num<S>(x, i); },
           [&](V const& p, unsigned x) { if (p.size() != n) return false; for (std::size_t i = 0; i < n; ++i) if (p[i] != num<S>(x, i)) return false; return true; });
  V small(n, 0), big(n + 1, 0); if (!throws([&] { static_cast<ParameterBase&>(small).assign(big); })) fail("a vector of another size is assigned");
  value<M>(m.c_str(), [&] { return M(r, c, 1u << rnd(5)); }, [&](M& p, unsigned x) { for (std::size_t i = 0; i < r; ++i) for (std::size_t k = 0; k < c; ++k) p(i, k) = num<S>(x, 7 * i + k); },
           [&](M const& p, unsigned x) { if (p.numberOfRows() != r || p.numberOfColumns() != c) return false; for (std::size_t i = 0; i < r; ++i) for (std::size_t k = 0; k < c; ++k) if (p(i, k) != num<S>(x, 7 * i + k)) return false; return true; });
}
template <class S> void scalar(char const* name)
{
  typedef pml::ScalarParameter<S> P;
  value<P>(name, [] { return P(S()); }, [](P& p, unsigned x) { p = num<S>(x, 3); }, [](P const& p, unsigned x) { return p.value() == num<S>(x, 3); });
}
static void values()
{
  switch (rnd(10))
  {
  case 0: numeric<float>("float"); break;
  case 1: numeric<double>("double"); break;
  case 2: numeric<std::complex<float>>("std::complex<float>"); break;
  case 3: numeric<std::complex<double>>("std::complex<double>"); break;
  case 4: scalar<float>("ScalarParameter<float>"); scalar<double>("ScalarParameter<double>"); scalar<int>("ScalarParameter<int>"); scalar<unsigned>("ScalarParameter<unsigned int>"); break;
  case 5:
  {
    typedef pml::StringParameter P; auto text = [](unsigned x) { return std::string(x, 'a') + std::to_string(x); };
    value<P>("StringParameter", [] { return P(200); }, [&](P& p, unsigned x) { p = text(x); }, [&](P const& p, unsigned x) { return std::string(p.str()) == text(x) && p.size() == text(x).size(); });
    typedef pml::SignalRoutingParameter R;
    value<R>("SignalRoutingParameter", [] { return R(); }, [&](R& p, unsigned x) { p.clear(); for (unsigned k = 0; k < x % 7; ++k) p.addRouting(x + k / 2, 3 * k); },
             [](R const& p, unsigned x) { if (p.size() != x % 7) return false; for (unsigned k = 0; k < x % 7; ++k) if (p.getInput(3 * k) != x + k / 2) return false; return true; });
    break;
  }
  case 6:
  {
    typedef pml::SparseGainRoutingListParameter P; typedef pml::FilterRoutingListParameter R;
    value<P>("SparseGainRoutingListParameter", [] { return P(); }, [](P& p, unsigned x) { static_cast<rbbl::SparseGainRoutingList&>(p) = rbbl::SparseGainRoutingList(); for (unsigned k = 0; k < x % 6; ++k) p.addRouting(k, x + k, x * 2 + k, x + k + 0.5f); },
             [](P const& p, unsigned x) { unsigned k = 0; for (auto const& e : p) { if (e.entryIndex != k || e.rowIndex != x + k || e.columnIndex != x * 2 + k || e.gain != x + k + 0.5f) return false; ++k; } return k == x % 6; });
    value<R>("FilterRoutingListParameter", [] { return R(); }, [](R& p, unsigned x) { static_cast<rbbl::FilterRoutingList&>(p) = rbbl::FilterRoutingList(); for (unsigned k = 0; k < x % 6; ++k) p.addRouting(k, x + k, x * 2 + k, x + k + 0.5f); },
             [](R const& p, unsigned x) { unsigned k = 0; for (auto const& e : p) { if (e.inputIndex != k || e.outputIndex != x + k || e.filterIndex != x * 2 + k || e.gainLinear != x + k + 0.5f) return false; ++k; } return k == x % 6; });
    break;
  }
  case 7:
  {
    typedef pml::BiquadParameterMatrix<float> P;
    value<P>("BiquadParameterMatrix", [] { return P(2, 3); }, [](P& p, unsigned x) { for (unsigned i = 0; i < 6; ++i) p(i / 3, i % 3) = rbbl::BiquadCoefficient<float>(x + i, x, i, 2 * x, 3 * i); },
             [](P const& p, unsigned x) { if (p.numberOfFilters() != 2 || p.numberOfSections() != 3) return false; for (unsigned i = 0; i < 6; ++i) { auto const& q = p(i / 3, i % 3); if (q.b0() != x + i || q.b1() != x || q.b2() != i || q.a1() != 2 * x || q.a2() != 3 * i) return false; } return true; });
    typedef pml::InterpolationParameter I;
    std::size_t const n = rnd(5);
    value<I>("InterpolationParameter", [&] { return I(pml::InterpolationParameterConfig(n)); }, [&](I& p, unsigned x) { p.setId(x); for (std::size_t k = 0; k < n; ++k) { p.setIndex(k, x + k); p.setWeight(k, x + 0.5f * k); } },
             [&](I const& p, unsigned x) { if (p.id() != x || p.numberOfInterpolants() != n) return false; for (std::size_t k = 0; k < n; ++k) if (p.index(k) != x + k || p.weight(k) != x + 0.5f * k) return false; return true; });
    break;
  }
  default:
  {
    typedef pml::ObjectVector P; namespace om = objectmodel;
    value<P>("ObjectVector", [] { return P(); }, [](P& p, unsigned x)
    {
      p.clear();
      for (unsigned k = 0; k < x % 5; ++k)
      {
        unsigned const id = (x * 7 + k * 3) % 16;
        if (k % 2) { om::PlaneWave o(id); o.resetNumberOfChannels(1); o.setChannelIndex(0, x + k); o.setIncidenceAzimuth(x); o.setLevel(k + 0.5f); p.insert(o); }
        else { om::PointSourceWithDiffuseness o(id); o.resetNumberOfChannels(1); o.setChannelIndex(0, x + k); o.setX(x); o.setZ(k); o.setDiffuseness(0.25f); o.setPriority(k + 1); o.setGroupId(9); p.insert(o); }
      }
    }, [](P const& p, unsigned x)
    {
      std::size_t n = 0; for (auto const& o : p) { (void)o; ++n; }
      if (n != x % 5) return false;
      for (unsigned k = 0; k < n; ++k)
      {
        unsigned const id = (x * 7 + k * 3) % 16; om::Object const& o = p.at(id);
        if (o.id() != id || o.numberOfChannels() != 1 || o.channelIndex(0) != x + k) return false;
        if (k % 2) { auto const* w = dynamic_cast<om::PlaneWave const*>(&o); if (!w || w->incidenceAzimuth() != x || o.level() != k + 0.5f) return false; }
        else { auto const* w = dynamic_cast<om::PointSourceWithDiffuseness const*>(&o); if (!w || w->x() != x || w->y() != 0 || w->z() != k || w->diffuseness() != 0.25f || o.priority() != k + 1 || o.groupId() != 9) return false; }
      }
      return true;
    });
  }
  }
}

int main(int argc, char** argv)
{
  return run(argc, argv, [](bool) {
    doubleBuffering<VP>(); doubleBuffering<MP>(); queue<VP>(); queue<MP>(); shared<VP>(); shared<MP>(); params<VP>(); params<MP>(); values(); });
}
