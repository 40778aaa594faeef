#include "stream.hpp"
#include <libefl/basic_matrix.hpp>
#include <libefl/basic_vector.hpp>
#include <libpml/double_buffering_protocol.hpp>
#include <libpml/matrix_parameter.hpp>
#include <libpml/matrix_parameter_config.hpp>
#include <libpml/vector_parameter.hpp>
#include <libpml/vector_parameter_config.hpp>
#include <librcl/delay_matrix.hpp>
#include <librcl/delay_vector.hpp>
#include <librcl/gain_vector.hpp>
#include <librrl/audio_signal_flow.hpp>
#include <libvisr/atomic_component.hpp>
#include <libvisr/audio_input.hpp>
#include <libvisr/audio_output.hpp>
#include <libvisr/communication_protocol_factory.hpp>
#include <libvisr/composite_component.hpp>
#include <libvisr/parameter_factory.hpp>
#include <libvisr/parameter_output.hpp>
#include <libvisr/signal_flow_context.hpp>
#include <memory>
#include <stdexcept>
using namespace visr;
using namespace drv;
typedef pml::VectorParameter<float> VP;
typedef pml::MatrixParameter<float> MP;
static ParameterRegistrar<VP, MP> sParam;
static CommunicationProtocolRegistrar<pml::DoubleBufferingProtocol> sProt;
typedef efl::BasicMatrix<float> Mtx;
typedef efl::BasicVector<float> Vec;

// parameter trajectory: linear from the value in effect when the target was set to the target, over `len` samples
struct Traj
{
  double cur = 0, tgt = 0; long n = 0, len = 1;
  double at(long k) const { return len == 0 || n + k >= len ? tgt : cur + (tgt - cur) * double(n + k) / len; }
  void init(double v, long l) { cur = tgt = v; n = 0; len = l; }
  void set(double v) { cur = at(0); tgt = v; n = 0; }
  void advance(long k) { n += k; }
};

template <class P> struct Cfg;
template <> struct Cfg<VP> { static pml::VectorParameterConfig mk(std::size_t, std::size_t c) { return pml::VectorParameterConfig(c); } };
template <> struct Cfg<MP> { static pml::MatrixParameterConfig mk(std::size_t r, std::size_t c) { return pml::MatrixParameterConfig(r, c); } };
inline void put(VP& p, std::size_t, std::size_t c, float v) { p[c] = v; }
inline void put(MP& p, std::size_t r, std::size_t c, float v) { p(r, c) = v; }

template <class P> class Sender : public AtomicComponent
{
public:
  Sender(SignalFlowContext const& c, CompositeComponent* p, std::size_t rows, std::size_t cols, bool w0, bool w1)
    : AtomicComponent(c, "sender", p)
  {
    if (w0) out0.reset(new Port("out0", *this, Cfg<P>::mk(rows, cols)));
    if (w1) out1.reset(new Port("out1", *this, Cfg<P>::mk(rows, cols)));
  }
  void process() override
  {
    if (next0) { next0(out0->data()); out0->swapBuffers(); next0 = nullptr; }
    if (next1) { next1(out1->data()); out1->swapBuffers(); next1 = nullptr; }
  }
  typedef ParameterOutput<pml::DoubleBufferingProtocol, P> Port;
  std::unique_ptr<Port> out0, out1;
  std::function<void(P&)> next0, next1;
};

class Flow : public CompositeComponent
{
public:
  Flow(SignalFlowContext const& c, std::size_t ni, std::size_t no) : CompositeComponent(c, "top", nullptr), in("in", *this, ni), out("out", *this, no) {}
  AudioInput in; AudioOutput out;
};

static char const* const names[] = { "GainVector", "DelayVector", "DelayMatrix" };

// kind 0: GainVector, 1: DelayVector, 2: DelayMatrix
template <int kind> void history()
{
  typedef typename std::conditional<kind == 2, MP, VP>::type P;
  typedef typename std::conditional<kind == 2, Mtx, Vec>::type Arg;
  // GainVector requires a period that is a multiple of the vector alignment
  std::size_t const B = kind == 0 ? cVectorAlignmentSamples * (1 + rnd(2)) : 4 * (1 + rnd(4)), ni = 1 + rnd(3), no = kind == 2 ? 1 + rnd(3) : ni, rows = kind == 2 ? no : 1, fs = rnd(2) ? 48000 : 8;
  std::size_t const periods = kind == 0 ? rnd(5) : 1 + rnd(4), steps = kind == 0 ? (rnd(2) ? periods * B : rnd(4 * B)) : periods * B;
  unsigned const N = rnd(rnd(2) ? 4 : 10);
  std::string const method = "lagrangeOrder" + std::to_string(N);
  double const md = 0.5 * N, maxS = md + 1 + rnd(30);
  typedef rbbl::MultichannelDelayLine<float>::MethodDelayPolicy Pol;
  Pol const pol = (Pol)rnd(3);
  bool const ctlG = kind == 0 || rnd(2), ctlD = kind != 0 && rnd(2);
  std::string log;
  auto say = [&](std::string const& s) { log += s; if (log.size() > 1800) log = log.substr(0, 200) + " ... " + log.substr(log.size() - 1200);
    setcase("%s(inputs=%zu,outputs=%zu,period=%zu,fs=%zu,interpolationSteps=%zu,maxDelay=%g samples,%s,policy=%d,gain port=%d,delay port=%d);%s", names[kind], ni, no, B, fs, steps, maxS, method.c_str(), (int)pol, ctlG, ctlD, log.c_str()); };
  say("");
  std::vector<std::vector<Traj>> G(rows, std::vector<Traj>(ni)), D = G;
  auto rgain = [] { return (double)(float)(rnd(5) ? rndf(-2, 2) : 0); };
  auto rdelay = [&] { double lo = pol == Pol::Reject ? md + 0.01 : 0; double s = rnd(6) == 0 ? maxS : rndf(lo, maxS); if (s > maxS) s = maxS; return (double)(float)(s / fs * (1 - 1e-6)); };
  Arg g0(cVectorAlignmentSamples), d0(cVectorAlignmentSamples);
  bool const uniform = rnd(2);
  double const ug = rgain(), ud = rdelay();
  std::vector<std::vector<double>> ig(rows, std::vector<double>(ni)), id = ig;
  for (std::size_t r = 0; r < rows; ++r) for (std::size_t c = 0; c < ni; ++c)
  {
    ig[r][c] = uniform ? ug : rgain(); id[r][c] = uniform ? ud : rdelay();
    G[r][c].init(ig[r][c], steps); D[r][c].init(id[r][c], steps);
  }
  struct Fill
  {
    static void f(Vec& a, std::vector<std::vector<double>> const& v) { a.resize(v[0].size()); for (std::size_t c = 0; c < v[0].size(); ++c) a[c] = (float)v[0][c]; }
    static void f(Mtx& a, std::vector<std::vector<double>> const& v) { a.resize(v.size(), v[0].size()); for (std::size_t r = 0; r < v.size(); ++r) for (std::size_t c = 0; c < v[0].size(); ++c) a(r, c) = (float)v[r][c]; }
  };
  Fill::f(g0, ig); Fill::f(d0, id);
  SignalFlowContext ctx(B, fs);
  Flow flow(ctx, ni, no);
  std::unique_ptr<rcl::GainVector> gv; std::unique_ptr<rcl::DelayVector> dv; std::unique_ptr<rcl::DelayMatrix> dm;
  Component* comp = nullptr;
  float const maxD = (float)(maxS / fs);
  if (kind == 0)
  {
    gv.reset(new rcl::GainVector(ctx, "comp", &flow)); comp = gv.get();
    if (uniform) gv->setup(ni, steps, ctlG, (float)ug); else gv->setup(ni, steps, ctlG, *reinterpret_cast<Vec*>(&g0));
  }
  else if (kind == 1)
  {
    dv.reset(new rcl::DelayVector(ctx, "comp", &flow)); comp = dv.get();
    typedef rcl::DelayVector::ControlPortConfig C;
    C const cc = ctlG ? (ctlD ? C::All : C::Gain) : (ctlD ? C::Delay : C::None);
    if (uniform) dv->setup(ni, steps, maxD, method.c_str(), pol, cc, (float)ud, (float)ug);
    else dv->setup(ni, steps, maxD, method.c_str(), pol, cc, *reinterpret_cast<Vec*>(&d0), *reinterpret_cast<Vec*>(&g0));
  }
  else
  {
    dm.reset(new rcl::DelayMatrix(ctx, "comp", &flow)); comp = dm.get();
    typedef rcl::DelayMatrix::ControlPortConfig C;
    C const cc = ctlG ? (ctlD ? C::All : C::Gain) : (ctlD ? C::Delay : C::None);
    if (uniform) dm->setup(ni, no, steps, maxD, method.c_str(), pol, cc, (float)ud, (float)ug);
    else dm->setup(ni, no, steps, maxD, method.c_str(), pol, cc, *reinterpret_cast<Mtx*>(&d0), *reinterpret_cast<Mtx*>(&g0));
  }
  std::unique_ptr<Sender<P>> s;
  flow.audioConnection(flow.in, comp->audioPort("in"));
  flow.audioConnection(comp->audioPort("out"), flow.out);
  if (ctlG || ctlD)
  {
    s.reset(new Sender<P>(ctx, &flow, rows, ni, ctlG, ctlD));
    if (ctlG) flow.parameterConnection(*s->out0, comp->parameterPort("gainInput"));
    if (ctlD) flow.parameterConnection(*s->out1, comp->parameterPort("delayInput"));
  }
  std::unique_ptr<rrl::AudioSignalFlow> sf(new rrl::AudioSignalFlow(flow));
  std::vector<std::vector<long double>> x(ni);
  std::size_t const blocks = 4 + rnd(14);
  for (std::size_t b = 0; b < blocks; ++b)
  {
    for (int which = 0; which < 2; ++which)
    {
      bool const ctl = which ? ctlD : ctlG;
      if (kind == 0 && which) continue;
      if (!(ctl && b == 0) && rnd(3)) continue;
      std::vector<std::vector<double>> nv(rows, std::vector<double>(ni));
      auto& T = which ? D : G;
      for (std::size_t r = 0; r < rows; ++r) for (std::size_t c = 0; c < ni; ++c) { nv[r][c] = which ? rdelay() : rgain(); }
      if (ctl)
      {
        say(which ? "delay port;" : "gain port;");
        auto fn = [nv](P& p) { for (std::size_t r = 0; r < nv.size(); ++r) for (std::size_t c = 0; c < nv[0].size(); ++c) ::put(p, r, c, (float)nv[r][c]); };
        if (which) s->next1 = fn; else s->next0 = fn;
      }
      else
      {
        bool const wrong = rnd(8) == 0;
        if (wrong) { if (kind == 2 && rnd(2)) nv.resize(rows + 1, nv[0]); else for (auto& q : nv) q.resize(ni + 1); }
        Arg a(cVectorAlignmentSamples);
        Fill::f(a, nv);
        say(std::string(which ? "setDelay" : "setGain") + (wrong ? "(wrong size);" : ";"));
        bool thrown = false;
        try
        {
          if (kind == 1) { auto& v = *reinterpret_cast<Vec*>(&a); if (which) dv->setDelay(v); else dv->setGain(v); }
          if (kind == 2) { auto& v = *reinterpret_cast<Mtx*>(&a); if (which) dm->setDelay(v); else dm->setGain(v); }
        }
        catch (std::invalid_argument const&) { thrown = true; }
        if (thrown != wrong) fail(thrown ? "valid parameter rejected" : "parameter of wrong size accepted");
        if (wrong) continue;
      }
      for (std::size_t r = 0; r < rows; ++r) for (std::size_t c = 0; c < ni; ++c) T[r][c].set(nv[r][c]);
    }
    std::vector<std::vector<float>> in(ni, std::vector<float>(B)), out(no, std::vector<float>(B, 99.0f));
    std::vector<float const*> ip; std::vector<float*> op;
    for (std::size_t c = 0; c < ni; ++c) { for (auto& v : in[c]) { v = (float)rndf(-1, 1); x[c].push_back(v); } ip.push_back(in[c].data()); }
    for (auto& o : out) op.push_back(o.data());
    say("process;");
    sf->process(ip.data(), op.data());
    long const t0 = (long)x[0].size() - (long)B;
    auto eff = [&](double d) -> double { double q = d * fs; return pol == Pol::Add ? q + md : std::max(q, md); };
    for (std::size_t o = 0; o < no; ++o)
      for (std::size_t k = 0; k < B; ++k)
      {
        std::vector<long double> cand(1, 0.0L);
        double tol = 1e-3;
        for (std::size_t i = (kind == 2 ? 0 : o); i < (kind == 2 ? ni : o + 1); ++i)
        {
          std::size_t const r = kind == 2 ? o : 0;
          double const g = G[r][i].at(k + 1);
          if (kind == 0) { cand[0] += g * in[i][k]; continue; }
          // within one block the effective delay is linear between the values at its ends
          double const e0 = eff(D[r][i].at(0)), e1 = eff(D[r][i].at(B)), dd = e0 + (e1 - e0) * double(k + 1) / B;
          auto v = delayed(x[i], N, t0 + (long)k - dd);
          if (v.empty()) { cand.clear(); break; }
          std::vector<long double> nc;
          for (auto a : cand) for (auto q : v) nc.push_back(a + g * q);
          cand.swap(nc);
          tol = 2e-2;
        }
        bool ok = cand.empty();
        for (auto q : cand) if (std::fabs((double)q - out[o][k]) <= tol) ok = true;
        if (!ok) fail("block %zu output %zu sample %zu is %g, expected %Lg", b, o, k, out[o][k], cand[0]);
      }
    for (auto& v : G) for (auto& t : v) t.advance(B);
    for (auto& v : D) for (auto& t : v) t.advance(B);
  }
}
int main(int argc, char** argv)
{
  return run(argc, argv, [](bool) { history<0>(); history<1>(); history<2>(); });
}
