// P18: short-time Fourier analysis and overlap-add synthesis against direct sums in double precision
#include "drv.hpp"
#include <libefl/basic_vector.hpp>
#include <libpml/initialise_parameter_library.hpp>
#include <libpml/double_buffering_protocol.hpp>
#include <libpml/shared_data_protocol.hpp>
#include <libpml/time_frequency_parameter.hpp>
#include <libpml/time_frequency_parameter_config.hpp>
#include <librcl/time_frequency_inverse_transform.hpp>
#include <librcl/time_frequency_transform.hpp>
#include <librrl/audio_signal_flow.hpp>
#include <libvisr/communication_protocol_factory.hpp>
#include <libvisr/parameter_factory.hpp>
#include <libvisr/signal_flow_context.hpp>
#include <complex>
#include <memory>
#include <stdexcept>
using namespace visr;
using namespace drv;
typedef pml::TimeFrequencyParameter<float> TF;
static ParameterRegistrar<pml::TimeFrequencyParameter<float>, pml::TimeFrequencyParameter<double>> sParam;
static CommunicationProtocolRegistrar<pml::DoubleBufferingProtocol, pml::SharedDataProtocol> sProt;
typedef std::vector<std::vector<float>> Sig;
static double const PI = 3.14159265358979323846;
static float val() { return (float)((int)rnd(2001) - 1000) / 1000; }
template<class T> static void near(T got, T want, double tol, char const* what, std::size_t a, std::size_t b, std::size_t c)
{
  if (!(std::abs(got - want) <= tol)) fail("%s (%zu,%zu,%zu) is off by %g (expected magnitude %g)", what, a, b, c, (double)std::abs(got - want), (double)std::abs(want));
}
struct Sizes { std::size_t ch, n, w, hop, frames, P; };
static Sizes sizes()
{
  Sizes s; s.ch = 1 + rnd(4); s.n = 2 * (1 + rnd(rnd(3) == 0 ? 32 : 12));
  s.hop = 1 + rnd(2 * s.n); s.frames = 1 + rnd(4);
  if (rnd(2)) { s.hop = 1 + rnd(s.n); }
  s.w = rnd(2) ? s.n : 1 + rnd(s.n); s.P = s.hop * s.frames; return s;
}
static double norm(unsigned k, std::size_t n) { return k == 0 ? 1.0 : k == 1 ? 1.0 / std::sqrt((double)n) : 1.0 / n; }
static void forward()
{
  Sizes z = sizes(); unsigned const nm = rnd(3); bool const own = rnd(3) != 0, bad = rnd(8) == 0;
  if (bad) switch (rnd(3)) { case 0: z.P = z.hop * z.frames + 1 + (z.hop > 1 ? rnd(z.hop - 1) : 0); if (z.P % z.hop == 0) return; break; case 1: z.hop = 0; break; case 2: z.w = z.n + 1 + rnd(20); break; }
  setcase("TimeFrequencyTransform(channels=%zu,dftSize=%zu,window=%zu%s,hop=%zu,period=%zu,normalisation=%u)", z.ch, z.n, z.w, own ? " given" : "", z.hop, z.P, nm);
  SignalFlowContext ctx(z.P, 48000);
  auto const kind = nm == 0 ? rcl::TimeFrequencyTransform::Normalisation::One : nm == 1 ? rcl::TimeFrequencyTransform::Normalisation::Unitary : rcl::TimeFrequencyTransform::Normalisation::OneOverN;
  efl::BasicVector<float> win(z.w, rnd(2) ? 1 : cVectorAlignmentSamples);
  for (std::size_t k = 0; k < z.w; ++k) win[k] = own ? val() : (float)(0.5 - 0.5 * std::cos(2 * PI * k / z.w));
  std::unique_ptr<rcl::TimeFrequencyTransform> t;
  try
  {
    if (own) t.reset(new rcl::TimeFrequencyTransform(ctx, "t", nullptr, z.ch, z.n, win, z.hop, "kissfft", kind));
    else t.reset(new rcl::TimeFrequencyTransform(ctx, "t", nullptr, z.ch, z.n, z.w, z.hop, "kissfft", kind));
  }
  catch (std::exception const& e) { if (bad) return; fail("rejected: %s", e.what()); }
  if (bad) fail("invalid configuration is accepted");
  rrl::AudioSignalFlow f(*t);
  auto& port = dynamic_cast<pml::SharedDataProtocol::InputBase&>(f.externalParameterSendPort("out"));
  std::vector<std::vector<double>> hist(z.ch);
  std::size_t const periods = 1 + rnd(5) + rnd(2) * (2 * z.n / z.P);
  for (std::size_t p = 0; p < periods; ++p)
  {
    std::vector<float const*> ip; Sig in(z.ch, std::vector<float>(z.P));
    for (std::size_t c = 0; c < z.ch; ++c)
    {
      // random, silent, constant or repeated signal
      unsigned const kind = rnd(6); float const k0 = val();
      for (std::size_t k = 0; k < z.P; ++k) in[c][k] = kind == 0 ? 0.0f : kind == 1 ? k0 : kind == 2 && p > 0 ? (float)hist[c][k + (p - 1) * z.P] : val();
      for (auto& x : in[c]) hist[c].push_back(x);
      ip.push_back(in[c].data());
    }
    try { f.process(ip.data(), nullptr); } catch (std::exception const& e) { fail("period %zu: process fails: %s", p, e.what()); }
    TF const& o = static_cast<TF const&>(port.data());
    if (o.numberOfChannels() != z.ch || o.numberOfFrames() != z.frames || o.numberOfDftBins() != z.n / 2 + 1) fail("output has %zu channels, %zu frames, %zu bins", o.numberOfChannels(), o.numberOfFrames(), o.numberOfDftBins());
    for (std::size_t fr = 0; fr < z.frames; ++fr) for (std::size_t c = 0; c < z.ch; ++c)
    {
      long const end = (long)(p * z.P + (fr + 1) * z.hop), start = end - (long)z.w;
      for (std::size_t b = 0; b <= z.n / 2; ++b)
      {
        std::complex<double> want = 0; double mag = 0;
        for (std::size_t k = 0; k < z.w; ++k)
        {
          double const x = start + (long)k < 0 ? 0.0 : hist[c][start + k] * (double)win[k];
          want += x * std::polar(1.0, -2 * PI * (double)((b * k) % z.n) / z.n); mag += std::fabs(x);
        }
        want *= norm(nm, z.n); mag *= norm(nm, z.n);
        near(std::complex<double>(o.at(fr, c, b)), want, 2e-5 * mag + 1e-7, "period/frame bin", p * z.frames + fr, c, b);
        if (o.channelSlice(fr, c) + b != &o.at(fr, c, b) || o.frameSlice(fr) + c * o.channelStride() + b != &o.at(fr, c, b)) fail("slices and elements differ");
      }
    }
  }
}
static void inverse()
{
  Sizes z = sizes(); unsigned const nm = rnd(3); bool const bad = rnd(8) == 0;
  if (z.hop > z.n) z.hop = 1 + z.hop % z.n;
  z.P = z.hop * z.frames;
  if (bad) switch (rnd(3)) { case 0: z.P = z.hop * z.frames + 1 + (z.hop > 1 ? rnd(z.hop - 1) : 0); if (z.P % z.hop == 0) return; break; case 1: z.hop = 0; break; case 2: z.hop = z.n + 1 + rnd(20); z.P = z.hop; break; }
  setcase("TimeFrequencyInverseTransform(channels=%zu,dftSize=%zu,hop=%zu,period=%zu,normalisation=%u)", z.ch, z.n, z.hop, z.P, nm);
  SignalFlowContext ctx(z.P, 48000);
  auto const kind = nm == 0 ? rcl::TimeFrequencyInverseTransform::Normalisation::One : nm == 1 ? rcl::TimeFrequencyInverseTransform::Normalisation::Unitary : rcl::TimeFrequencyInverseTransform::Normalisation::OneOverN;
  std::unique_ptr<rcl::TimeFrequencyInverseTransform> t;
  try { t.reset(new rcl::TimeFrequencyInverseTransform(ctx, "t", nullptr, z.ch, z.n, z.hop, "kissfft", kind)); }
  catch (std::exception const& e) { if (bad) return; fail("rejected: %s", e.what()); }
  if (bad) fail("invalid configuration is accepted");
  rrl::AudioSignalFlow f(*t);
  auto& port = dynamic_cast<pml::SharedDataProtocol::OutputBase&>(f.externalParameterReceivePort("in"));
  std::size_t const periods = 1 + rnd(5);
  std::vector<std::vector<double>> acc(z.ch, std::vector<double>(periods * z.P + z.n)), mag(acc);
  for (std::size_t p = 0; p < periods; ++p)
  {
    TF& x = static_cast<TF&>(port.data());
    if (x.numberOfChannels() != z.ch || x.numberOfFrames() != z.frames || x.numberOfDftBins() != z.n / 2 + 1) fail("input has %zu channels, %zu frames, %zu bins", x.numberOfChannels(), x.numberOfFrames(), x.numberOfDftBins());
    for (std::size_t fr = 0; fr < z.frames; ++fr) for (std::size_t c = 0; c < z.ch; ++c)
    {
      // random, silent, sparse or unchanged spectrum
      unsigned const kind = rnd(6);
      if (kind != 1 || p == 0) for (std::size_t b = 0; b <= z.n / 2; ++b)
        x.at(fr, c, b) = kind == 0 || (kind == 2 && rnd(5)) ? std::complex<float>(0) : std::complex<float>(val(), b == 0 || b == z.n / 2 ? 0.0f : val());
      for (std::size_t k = 0; k < z.n; ++k)
      {
        double s = 0, m = 0;
        for (std::size_t b = 0; b <= z.n / 2; ++b)
        {
          std::complex<double> const X(x.at(fr, c, b)); double const wgt = (b == 0 || b == z.n / 2) ? 1 : 2;
          s += wgt * (X * std::polar(1.0, 2 * PI * (double)((b * k) % z.n) / z.n)).real(); m += wgt * std::abs(X);
        }
        acc[c][p * z.P + fr * z.hop + k] += s * norm(nm, z.n); mag[c][p * z.P + fr * z.hop + k] += m * norm(nm, z.n);
      }
    }
    Sig out(z.ch, std::vector<float>(z.P, 99.0f)); std::vector<float*> op; for (auto& c : out) op.push_back(c.data());
    try { f.process(nullptr, op.data()); } catch (std::exception const& e) { fail("period %zu: process fails: %s", p, e.what()); }
    for (std::size_t c = 0; c < z.ch; ++c) for (std::size_t k = 0; k < z.P; ++k)
      near((double)out[c][k], acc[c][p * z.P + k], 2e-5 * mag[c][p * z.P + k] + 1e-7, "period/channel sample", p, c, k);
  }
}
template<class T> static void param()
{
  typedef pml::TimeFrequencyParameter<T> P; typedef std::complex<T> C;
  std::size_t const b = 1 + rnd(6), c = 1 + rnd(4), f = 1 + rnd(4), al = 1u << rnd(4);
  setcase("TimeFrequencyParameter(bins=%zu,channels=%zu,frames=%zu,alignment=%zu)", b, c, f, al);
  std::unique_ptr<P> x;
  if (rnd(2)) x.reset(new P(b, c, f, al)); else x.reset(new P(pml::TimeFrequencyParameterConfig(b, c, f)));
  auto check = [&](P const& q, bool zero, char const* what) {
    if (q.numberOfDftBins() != b || q.numberOfChannels() != c || q.numberOfFrames() != f) fail("%s: sizes are %zu,%zu,%zu", what, q.numberOfDftBins(), q.numberOfChannels(), q.numberOfFrames());
    for (std::size_t i = 0; i < f; ++i) for (std::size_t j = 0; j < c; ++j) for (std::size_t k = 0; k < b; ++k)
    {
      C const want = zero ? C(0) : C((T)(1 + (i * 10 + j) * 10 + k), (T)k);
      if (q.at(i, j, k) != want) fail("%s: value (%zu,%zu,%zu) is wrong", what, i, j, k);
      if (&q.at(i, j, k) != q.data() + i * q.frameStride() + j * q.channelStride() + k || q.channelSlice(i, j) + k != &q.at(i, j, k)) fail("%s: strides are wrong", what);
    } };
  check(*x, true, "new parameter");
  auto fill = [&] { for (std::size_t i = 0; i < f; ++i) for (std::size_t j = 0; j < c; ++j) for (std::size_t k = 0; k < b; ++k) x->at(i, j, k) = C((T)(1 + (i * 10 + j) * 10 + k), (T)k); };
  fill(); check(*x, false, "written parameter");
  for (std::size_t i = 0; i < f; ++i)
  {
    if (x->frameSlice(i) != x->data() + i * x->frameStride() || static_cast<P const&>(*x).frameSlice(i) != x->frameSlice(i)) fail("frame slices are wrong");
    for (std::size_t j = 0; j < c; ++j) if (static_cast<P const&>(*x).channelSlice(i, j) != x->frameSlice(i) + j * x->channelStride()) fail("channel slices are wrong");
  }
  P y(*x); check(y, false, "copy"); check(*x, false, "copied parameter");
  P w(1 + rnd(6), 1 + rnd(4), 1 + rnd(4), al); w = *x; check(w, false, "assigned parameter");
  P const& self = w; w = self; check(w, false, "self-assigned parameter");
  P r(1 + rnd(6), 1 + rnd(4), 1 + rnd(4), al); r.at(0, 0, 0) = C(7); r.resize(b, c, f); check(r, true, "resized parameter");
}
static void one()
{
  switch (rnd(6)) { case 0: param<float>(); break; case 1: param<double>(); break; case 2: case 3: inverse(); break; default: forward(); }
}
int main(int argc, char** argv)
{
  return drv::run(argc, argv, [](bool) { one(); });
}
