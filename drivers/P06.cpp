#include "drv.hpp"
#include <functional>
#include <map>
#include <memory>
#include <stdexcept>
#include <libpml/double_buffering_protocol.hpp>
#include <libpml/vector_parameter.hpp>
#include <libpml/vector_parameter_config.hpp>
#include <librrl/audio_signal_flow.hpp>
#include <libvisr/atomic_component.hpp>
#include <libvisr/audio_input.hpp>
#include <libvisr/audio_output.hpp>
#include <libvisr/channel_list.hpp>
#include <libvisr/communication_protocol_factory.hpp>
#include <libvisr/composite_component.hpp>
#include <libvisr/parameter_factory.hpp>
#include <libvisr/parameter_input.hpp>
#include <libvisr/parameter_output.hpp>
#include <libvisr/signal_flow_context.hpp>
#include <libvisr/time.hpp>
using namespace visr;
using namespace drv;
typedef pml::VectorParameter<float> VP;
static ParameterRegistrar<VP> sParam;
static CommunicationProtocolRegistrar<pml::DoubleBufferingProtocol> sProt;

struct Node;
// one audio port: bridge between the library object and the model
struct Port
{
  Node* owner; bool isIn; bool dbl; std::size_t width; std::string name;
  std::unique_ptr<AudioPortBase> p;
  std::vector<std::pair<Port*, std::size_t>> src;      // per channel: sender inside the enclosing (or own) composite
  std::vector<std::vector<double>> val;                // model values of the current block
};
struct Node
{
  std::string name; int id = 0; Node* parent = nullptr; bool composite = false;
  std::unique_ptr<Component> comp;                     // outlives its children and ports
  std::vector<std::unique_ptr<Node>> kids;
  std::vector<std::unique_ptr<Port>> ports;
  // parameters (atomic nodes)
  std::unique_ptr<ParameterOutput<pml::DoubleBufferingProtocol, VP>> pout;
  std::unique_ptr<ParameterInput<pml::DoubleBufferingProtocol, VP>> pin;
  Node* psrc = nullptr;                                // sender of the parameter (own composite: its parameter input)
  Node* pinner = nullptr;                              // composite: component that feeds the parameter output
  int calls = 0;
  std::vector<std::vector<double>> seen;               // inputs observed in the latest block
  bool timeOk = true;
};
static std::size_t gPeriod; static long gBlock;
static double wrap(double v) { return v - 997 * std::floor(v / 997); }
static double fn(Node const& n, std::vector<std::vector<double>> const& in, double par, std::size_t outCh, std::size_t k)
{
  double v = 13.0 * n.id + 5.0 * outCh + k + 3.0 * (gBlock % 100) + par;
  for (std::size_t i = 0; i < in.size(); ++i) v += (double)((i + 1 + outCh) % 5 + 1) * in[i][k];
  return wrap(v);
}
static double parval(Node const& n) { return (double)((n.id * 7 + gBlock * 11) % 500); }
static double extval() { return (double)((gBlock * 31 + 5) % 500); }
static double psent(Node const& n) { return n.composite ? psent(*n.pinner) : parval(n); }
// value that arrives at the parameter input of n
static double received(Node const& n)
{
  if (!n.parent) return extval();
  return n.psrc == n.parent ? received(*n.parent) : psent(*n.psrc);
}

class Atom : public AtomicComponent
{
public:
  Atom(SignalFlowContext const& c, char const* nm, CompositeComponent* p, Node& n) : AtomicComponent(c, nm, p), node(n) {}
  void process() override
  {
    ++node.calls;
    if (time().sampleCount() != (std::uint64_t)gBlock * gPeriod) node.timeOk = false;
    std::vector<std::vector<double>> in;
    for (auto& q : node.ports) if (q->isIn) for (std::size_t c = 0; c < q->width; ++c)
    {
      std::vector<double> v(gPeriod);
      if (q->dbl) { double const* s = static_cast<AudioInputT<double>&>(*q->p)[c]; std::copy(s, s + gPeriod, v.begin()); }
      else { float const* s = static_cast<AudioInputT<float>&>(*q->p)[c]; std::copy(s, s + gPeriod, v.begin()); }
      in.push_back(v);
    }
    double par = 0;
    if (node.pin) par = node.pin->data()[0];
    std::size_t oc = 0;
    for (auto& q : node.ports) if (!q->isIn) for (std::size_t c = 0; c < q->width; ++c, ++oc)
      for (std::size_t k = 0; k < gPeriod; ++k)
      {
        double const y = fn(node, in, par, oc, k);
        if (q->dbl) static_cast<AudioOutputT<double>&>(*q->p)[c][k] = y; else static_cast<AudioOutputT<float>&>(*q->p)[c][k] = (float)y;
      }
    if (node.pout) { node.pout->data()[0] = (float)parval(node); node.pout->swapBuffers(); }
    node.seen = in;
  }
  Node& node;
};
class Comp : public CompositeComponent
{
public:
  Comp(SignalFlowContext const& c, char const* nm, CompositeComponent* p) : CompositeComponent(c, nm, p) {}
  using CompositeComponent::audioConnection;
  using CompositeComponent::parameterConnection;
};

struct Builder
{
  SignalFlowContext ctx; int ids = 0; int mutate; bool mutated = false; std::string desc;
  std::vector<Node*> atoms;
  Builder(std::size_t period, int mut) : ctx(period, 48000), mutate(mut) {}
  Port& port(Node& n, bool in, std::size_t w, bool dbl)
  {
    n.ports.emplace_back(new Port()); Port& p = *n.ports.back();
    p.owner = &n; p.isIn = in; p.dbl = dbl; p.width = w; p.name = std::string(in ? "i" : "o") + std::to_string(n.ports.size());
    if (in && dbl) p.p.reset(new AudioInputT<double>(p.name.c_str(), *n.comp, w));
    else if (in) p.p.reset(new AudioInputT<float>(p.name.c_str(), *n.comp, w));
    else if (dbl) p.p.reset(new AudioOutputT<double>(p.name.c_str(), *n.comp, w));
    else p.p.reset(new AudioOutputT<float>(p.name.c_str(), *n.comp, w));
    p.src.resize(w); p.val.assign(w, std::vector<double>(ctx.period()));
    return p;
  }
  CompositeComponent* parentOf(Node* p) { return p ? static_cast<CompositeComponent*>(p->comp.get()) : nullptr; }
  std::unique_ptr<Node> node(Node* parent, bool composite)
  {
    std::unique_ptr<Node> n(new Node()); n->id = ++ids; n->parent = parent; n->composite = composite;
    // names do not follow the order of creation
    n->name = std::string(1, (char)('a' + rnd(26))) + std::to_string(n->id);
    if (composite) n->comp.reset(new Comp(ctx, n->name.c_str(), parentOf(parent))); else { n->comp.reset(new Atom(ctx, n->name.c_str(), parentOf(parent), *n)); atoms.push_back(n.get()); }
    return n;
  }
  void randomPorts(Node& n, bool top)
  {
    unsigned const ni = rnd(3), no = rnd(3);
    std::vector<bool> dirs; for (unsigned i = 0; i < ni; ++i) dirs.push_back(true); for (unsigned i = 0; i < no; ++i) dirs.push_back(false);
    for (std::size_t i = dirs.size(); i > 1; --i) { std::size_t j = rnd(i); bool t = dirs[i - 1]; dirs[i - 1] = dirs[j]; dirs[j] = t; }
    for (bool d : dirs) port(n, d, rnd(5) ? 1 + rnd(3) : 0, !top && rnd(3) == 0);
  }
  void connect(Node& c, Port& s, std::vector<std::size_t> sc, Port& r, std::vector<std::size_t> rc)
  {
    static_cast<Comp&>(*c.comp).audioConnection(*s.p, ChannelList(sc), *r.p, ChannelList(rc));
  }
  void fillComposite(Node& c, int depth)
  {
    unsigned const nk = 1 + rnd(5);
    for (unsigned i = 0; i < nk; ++i)
    {
      bool const sub = depth > 0 && rnd(3) == 0;
      c.kids.push_back(node(&c, sub));
      randomPorts(*c.kids.back(), false);
    }
    typedef std::pair<Port*, std::size_t> Ch;
    std::map<Ch, int> used; std::vector<Ch> avail[2];
    std::vector<std::pair<Ch, Ch>> con;                // sender, receiver
    for (auto& p : c.ports) if (p->isIn) for (std::size_t k = 0; k < p->width; ++k) { avail[p->dbl].push_back(Ch(p.get(), k)); used[Ch(p.get(), k)] = 0; }
    std::unique_ptr<Node> source;                      // provides senders where there are none
    auto need = [&](bool dbl) {
      if (!avail[dbl].empty()) return;
      if (!source) source = node(&c, false);
      Port& p = port(*source, false, 1 + rnd(2), dbl);
      for (std::size_t k = 0; k < p.width; ++k) { avail[dbl].push_back(Ch(&p, k)); used[Ch(&p, k)] = 0; }
    };
    auto receive = [&](Port& p) {
      std::size_t start = 0; bool const run = rnd(2);
      for (std::size_t k = 0; k < p.width; ++k)
      {
        need(p.dbl);
        auto& a = avail[p.dbl];
        if (k == 0 || !run) start = rnd(a.size());
        Ch const s = a[run ? (start + k) % a.size() : start];
        ++used[s]; con.push_back(std::make_pair(s, Ch(&p, k))); p.src[k] = s;
      }
    };
    std::vector<Node*> order; for (auto& k : c.kids) order.push_back(k.get());
    for (std::size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[rnd(i)]);   // dependency order differs from creation order
    std::vector<Node*> senders;
    for (Node* k : order)
    {
      for (auto& p : k->ports) if (p->isIn) receive(*p);
      for (auto& p : k->ports) if (!p->isIn) for (std::size_t q = 0; q < p->width; ++q) { avail[p->dbl].push_back(Ch(p.get(), q)); used[Ch(p.get(), q)] = 0; }
      if (rnd(3) == 0 && (!senders.empty() || c.pin))
      {
        k->psrc = !senders.empty() && (!c.pin || rnd(2)) ? senders[rnd(senders.size())] : &c;
        k->pin.reset(new ParameterInput<pml::DoubleBufferingProtocol, VP>("pin", *k->comp, pml::VectorParameterConfig(1)));
      }
      if (rnd(3) == 0) senders.push_back(k);
    }
    for (auto& p : c.ports) if (!p->isIn) receive(*p);
    // every sender needs a receiver
    std::unique_ptr<Node> sink;
    for (int d = 0; d < 2; ++d)
    {
      std::vector<Ch> idle; for (auto& u : used) if (u.second == 0 && u.first.first->dbl == (d == 1)) idle.push_back(u.first);
      if (idle.empty()) continue;
      if (!sink) sink = node(&c, false);
      Port& p = port(*sink, true, idle.size(), d == 1);
      for (std::size_t k = 0; k < idle.size(); ++k) { con.push_back(std::make_pair(idle[k], Ch(&p, k))); p.src[k] = idle[k]; }
    }
    if (source) c.kids.push_back(std::move(source));
    if (sink) c.kids.push_back(std::move(sink));
    // parameter connections
    bool pinUsed = !c.pin;
    for (auto& k : c.kids) if (k->psrc == &c) pinUsed = true;
    if (!pinUsed)
    {
      c.kids.push_back(node(&c, false)); Node& k = *c.kids.back(); k.psrc = &c;
      k.pin.reset(new ParameterInput<pml::DoubleBufferingProtocol, VP>("pin", *k.comp, pml::VectorParameterConfig(1)));
    }
    auto needOut = [](Node& k) { if (!k.pout) k.pout.reset(new ParameterOutput<pml::DoubleBufferingProtocol, VP>("pout", *k.comp, pml::VectorParameterConfig(1))); };
    if (c.pout)
    {
      Node* k = nullptr;
      if (rnd(2)) for (auto& q : c.kids) if (!q->composite) k = q.get();
      if (!k) { c.kids.push_back(node(&c, false)); k = c.kids.back().get(); }
      c.pinner = k; needOut(*k);
      static_cast<Comp&>(*c.comp).parameterConnection(*k->pout, *c.pout);
    }
    for (auto& k : c.kids) if (k->psrc && k->psrc != &c) needOut(*k->psrc);
    for (auto& k : c.kids) if (k->psrc)
    {
      if (mutate == 5 && !mutated && rnd(2)) { mutated = true; desc = "unconnected parameter input of " + k->name; continue; }
      if (k->psrc == &c) static_cast<Comp&>(*c.comp).parameterConnection(*c.pin, *k->pin);
      else static_cast<Comp&>(*c.comp).parameterConnection(*k->psrc->pout, *k->pin);
    }
    // defects
    if (mutate && !mutated && !con.empty() && (depth == 0 || rnd(2)))
    {
      auto const x = con[rnd(con.size())];
      if (mutate == 1) { for (std::size_t i = 0; i < con.size(); ++i) if (con[i] == x) { con.erase(con.begin() + i); break; } mutated = true; desc = "unconnected receive channel " + x.second.first->owner->name + ":" + x.second.first->name; }
      if (mutate == 2)
      {
        for (auto& y : con) if (y.first != x.first && y.first.first->dbl == x.first.first->dbl) { con.push_back(std::make_pair(y.first, x.second)); mutated = true; desc = "receive channel " + x.second.first->owner->name + ":" + x.second.first->name + " with two senders"; break; }
      }
      if (mutate == 3)
      {
        // an atomic component that depends on its own output
        for (auto& y : con) if (!mutated && !y.second.first->owner->composite && y.second.first->owner != &c)
        {
          Node* t = y.second.first->owner;
          for (unsigned step = rnd(4); step > 0; --step)   // a component downstream
          {
            Node* nx = nullptr;
            for (auto& z : con) if (z.first.first->owner == t && z.second.first->owner != &c && !z.second.first->owner->composite) { nx = z.second.first->owner; if (rnd(2)) break; }
            if (nx) { bool sends = false; for (auto& p : nx->ports) if (!p->isIn && p->width && p->dbl == y.second.first->dbl) sends = true; if (sends) t = nx; }
          }
          for (auto& p : t->ports) if (!mutated && !p->isIn && p->width && p->dbl == y.second.first->dbl)
          { y.first = Ch(p.get(), 0); mutated = true; desc = "cyclic dependency between components " + y.second.first->owner->name + " and " + t->name; break; }
        }
        if (mutated)
        {
          // keep every sender connected
          std::map<Ch, int> u2; for (auto& y : con) ++u2[y.first];
          std::vector<Ch> idle; for (auto& u : used) if (!u2[u.first]) idle.push_back(u.first);
          if (!idle.empty()) { c.kids.push_back(node(&c, false)); for (auto& s : idle) { Port& p = port(*c.kids.back(), true, 1, s.first->dbl); con.push_back(std::make_pair(s, Ch(&p, 0))); } }
        }
      }
      if (mutate == 4)
      {
        // sender and receiver of different sample types
        for (auto& y : con) if (!mutated) for (auto& z : con) if (z.second.first->dbl != y.first.first->dbl)
        {
          Ch const old = z.first; z.first = y.first; mutated = true; desc = "float and double channels connected at " + z.second.first->owner->name + ":" + z.second.first->name;
          bool still = false; for (auto& w : con) if (w.first == old) still = true;
          if (!still) { c.kids.push_back(node(&c, false)); Port& p = port(*c.kids.back(), true, 1, old.first->dbl); con.push_back(std::make_pair(old, Ch(&p, 0))); }
          break;
        }
      }
    }
    // issue the connections in random order, grouped at random
    for (std::size_t i = con.size(); i > 1; --i) std::swap(con[i - 1], con[rnd(i)]);
    bool const group = rnd(2);
    while (!con.empty())
    {
      auto const x = con.back(); con.pop_back();
      std::vector<std::size_t> sc(1, x.first.second), rc(1, x.second.second);
      if (group) for (std::size_t i = 0; i < con.size();)
        if (con[i].first.first == x.first.first && con[i].second.first == x.second.first) { sc.push_back(con[i].first.second); rc.push_back(con[i].second.second); con.erase(con.begin() + i); } else ++i;
      connect(c, *x.first.first, sc, *x.second.first, rc);
    }
    for (auto& k : c.kids) if (k->composite) fillComposite(*k, depth - 1);
  }
};

// model -------------------------------------------------------------------
// value of a channel as it leaves port p (an input port of a composite passes its outer value on)
struct Model
{
  Node& top; std::map<Node*, bool> done;
  explicit Model(Node& t) : top(t) {}
  // sample vector delivered by sender channel (p, c)
  std::vector<double> const& sent(Port* p, std::size_t c)
  {
    Node* n = p->owner;
    if (!n->composite) { eval(*n); return p->val[c]; }
    if (p->isIn) { if (n == &top) return p->val[c]; return sent(p->src[c].first, p->src[c].second); }   // seen from inside
    return sent(p->src[c].first, p->src[c].second);                                                       // seen from outside
  }
  void eval(Node& n)
  {
    if (done[&n]) return;
    done[&n] = true;
    std::vector<std::vector<double>> in = inputs(n);
    double par = n.pin ? received(n) : 0;
    std::size_t oc = 0;
    for (auto& q : n.ports) if (!q->isIn) for (std::size_t c = 0; c < q->width; ++c, ++oc) for (std::size_t k = 0; k < gPeriod; ++k) q->val[c][k] = fn(n, in, par, oc, k);
  }
  std::vector<std::vector<double>> inputs(Node& n)
  {
    std::vector<std::vector<double>> in;
    for (auto& q : n.ports) if (q->isIn) for (std::size_t c = 0; c < q->width; ++c) in.push_back(&n == &top && !n.composite ? q->val[c] : sent(q->src[c].first, q->src[c].second));
    return in;
  }
};

static std::string describe(Node const& n)
{
  std::string s = n.name + (n.composite ? "{" : "(");
  for (auto& p : n.ports)
  {
    s += p->name + (p->dbl ? ":double[" : "[");
    for (std::size_t c = 0; c < p->width; ++c) { if (c) s += ","; if (p->src[c].first) s += p->src[c].first->owner->name + "." + p->src[c].first->name + "#" + std::to_string(p->src[c].second); }
    s += "] ";
  }
  if (n.psrc) s += "par<-" + n.psrc->name + " "; if (n.pinner) s += "parout<-" + n.pinner->name + " ";
  for (auto& k : n.kids) s += describe(*k);
  return s + (n.composite ? "}" : ")");
}

static void flow()
{
  gPeriod = 1 + rnd(9);
  int const mut = rnd(3) ? 0 : 1 + rnd(5);
  Builder b(gPeriod, mut);
  setcase("construction of a random signal flow (mutation %d)", mut);
  std::unique_ptr<Node> top;
  bool const atomic = !mut && rnd(8) == 0;
  bool built = false;
  std::unique_ptr<rrl::AudioSignalFlow> sf;
  std::string why;
  try
  {
    top = b.node(nullptr, !atomic);
    b.randomPorts(*top, true);
    if (!atomic && rnd(3) == 0) top->pin.reset(new ParameterInput<pml::DoubleBufferingProtocol, VP>("pin", *top->comp, pml::VectorParameterConfig(1)));
    if (!atomic) b.fillComposite(*top, rnd(3));
    std::string d = describe(*top); if (d.size() > 1500) d = d.substr(0, 1500) + "...";
    setcase("period=%zu flow %s %s", gPeriod, d.c_str(), b.desc.c_str());
    sf.reset(new rrl::AudioSignalFlow(*top->comp));
    built = true;
  }
  catch (std::exception const& e) { why = e.what(); }
  if (b.mutated && built) fail("invalid signal flow accepted: %s", b.desc.c_str());
  if (!b.mutated && !built) fail("valid signal flow rejected: %s", why.c_str());
  if (!built) { sf.reset(); return; }
  std::vector<Port*> ti, to;
  std::size_t ni = 0, no = 0;
  for (std::size_t i = 0; i < sf->numberOfAudioCapturePorts(); ++i)
  {
    Port* p = nullptr; for (auto& q : top->ports) if (q->isIn && q->name == sf->audioCapturePortName(i)) p = q.get();
    if (!p) fail("unknown capture port %zu", i);
    if (sf->audioCapturePortOffset(i) != ni || sf->audioCapturePortWidth(i) != p->width) fail("capture port %s: offset %zu width %zu", p->name.c_str(), sf->audioCapturePortOffset(i), sf->audioCapturePortWidth(i));
    ti.push_back(p); ni += p->width;
  }
  for (std::size_t i = 0; i < sf->numberOfAudioPlaybackPorts(); ++i)
  {
    Port* p = nullptr; for (auto& q : top->ports) if (!q->isIn && q->name == sf->audioPlaybackPortName(i)) p = q.get();
    if (!p) fail("unknown playback port %zu", i);
    if (sf->audioPlaybackPortOffset(i) != no || sf->audioPlaybackPortWidth(i) != p->width) fail("playback port %s: offset %zu width %zu", p->name.c_str(), sf->audioPlaybackPortOffset(i), sf->audioPlaybackPortWidth(i));
    to.push_back(p); no += p->width;
  }
  std::size_t xi = 0, xo = 0; for (auto& q : top->ports) (q->isIn ? xi : xo) += q->width;
  if (ni != xi || no != xo || sf->numberOfCaptureChannels() != ni || sf->numberOfPlaybackChannels() != no) fail("wrong number of external channels");
  unsigned const blocks = 1 + rnd(4);
  for (unsigned bl = 0; bl < blocks; ++bl)
  {
    gBlock = bl;
    int const how = rnd(3);
    std::size_t const is = how ? 1 + rnd(3) : 1, os = how ? 1 + rnd(3) : 1, icS = gPeriod * is + rnd(3), ocS = gPeriod * os + rnd(3);
    std::vector<float> in(ni * icS + 1, 77.0f), out(no * ocS + 1, -77.0f);
    std::vector<float const*> ip; std::vector<float*> op;
    for (std::size_t i = 0; i < ni; ++i) ip.push_back(&in[i * icS]);
    for (std::size_t i = 0; i < no; ++i) op.push_back(&out[i * ocS]);
    std::size_t ch = 0;
    for (Port* p : ti) for (std::size_t c = 0; c < p->width; ++c, ++ch) for (std::size_t k = 0; k < gPeriod; ++k) in[ch * icS + k * is] = (float)(p->val[c][k] = (double)rnd(900));
    if (top->pin)
    {
      auto& ep = dynamic_cast<pml::DoubleBufferingProtocol::OutputBase&>(sf->externalParameterReceivePort("pin"));
      static_cast<VP&>(ep.data())[0] = (float)extval(); ep.swapBuffers();
    }
    if (how == 2) sf->process(in.data(), icS, is, out.data(), ocS, os); else sf->process(ip.data(), op.data(), is, os);
    Model m(*top);
    ch = 0;
    for (Port* p : to) for (std::size_t c = 0; c < p->width; ++c, ++ch)
    {
      std::vector<double> const& w = m.sent(p, c);
      for (std::size_t k = 0; k < gPeriod; ++k) if (out[ch * ocS + k * os] != (float)w[k]) fail("block %u: output channel %zu sample %zu is %g, expected %g", bl, ch, k, out[ch * ocS + k * os], w[k]);
      for (std::size_t k = 0; k < ocS; ++k) if ((k % os || k / os >= gPeriod) && out[ch * ocS + k] != -77.0f) fail("block %u: sample outside of output channel %zu written", bl, ch);
    }
    for (Node* a : b.atoms)
    {
      if (a->calls != (int)bl + 1) fail("component %s executed %d times in %u blocks", a->name.c_str(), a->calls, bl + 1);
      if (!a->timeOk) fail("component %s sees a wrong sample count", a->name.c_str());
      if (a->seen != m.inputs(*a)) fail("block %u: component %s received wrong input samples", bl, a->name.c_str());
    }
  }
}
int main(int argc, char** argv)
{
  return run(argc, argv, [](bool) { flow(); });
}
