#include "drv.hpp"
#include <libpml/double_buffering_protocol.hpp>
#include <libpml/listener_position.hpp>
#include <libpml/message_queue_protocol.hpp>
#include <libpml/shared_data_protocol.hpp>
#include <libpml/string_parameter.hpp>
#include <librbbl/position_3d.hpp>
#include <librbbl/quaternion.hpp>
#include <librcl/position_decoder.hpp>
#include <librrl/audio_signal_flow.hpp>
#include <libvisr/communication_protocol_factory.hpp>
#include <libvisr/parameter_factory.hpp>
#include <libvisr/signal_flow_context.hpp>
#include <iostream>
#include <stdexcept>
using namespace visr;
using namespace drv;
typedef long double L;
struct V3 { L v[3]; };
struct Mat { L m[3][3]; };
static Mat mul(Mat const& a, Mat const& b) { Mat r; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { r.m[i][j] = 0; for (int k = 0; k < 3; ++k) r.m[i][j] += a.m[i][k] * b.m[k][j]; } return r; }
static V3 mul(Mat const& a, V3 const& b) { V3 r; for (int i = 0; i < 3; ++i) { r.v[i] = 0; for (int k = 0; k < 3; ++k) r.v[i] += a.m[i][k] * b.v[k]; } return r; }
static L const pi = 3.141592653589793238462643383279502884L;
// rotation about an axis (Rodrigues)
static Mat about(V3 const& ax, L t)
{
  L const n = std::sqrt(ax.v[0] * ax.v[0] + ax.v[1] * ax.v[1] + ax.v[2] * ax.v[2]), x = ax.v[0] / n, y = ax.v[1] / n, z = ax.v[2] / n, c = std::cos(t), s = std::sin(t), d = 1 - c;
  return Mat{ { { c + x * x * d, x * y * d - z * s, x * z * d + y * s }, { y * x * d + z * s, c + y * y * d, y * z * d - x * s }, { z * x * d - y * s, z * y * d + x * s, c + z * z * d } } };
}
static Mat ypr(L y, L p, L r) { return mul(mul(about(V3{ { 0, 0, 1 } }, y), about(V3{ { 0, 1, 0 } }, p)), about(V3{ { 1, 0, 0 } }, r)); }
static L det(Mat const& a) { return a.m[0][0] * (a.m[1][1] * a.m[2][2] - a.m[1][2] * a.m[2][1]) - a.m[0][1] * (a.m[1][0] * a.m[2][2] - a.m[1][2] * a.m[2][0]) + a.m[0][2] * (a.m[1][0] * a.m[2][1] - a.m[1][1] * a.m[2][0]); }
template<class Q> static Mat matrix(Q const& q)
{
  L const n = std::sqrt((L)q.w() * q.w() + (L)q.x() * q.x() + (L)q.y() * q.y() + (L)q.z() * q.z()), w = q.w() / n, x = q.x() / n, y = q.y() / n, z = q.z() / n;
  return Mat{ { { 1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w) }, { 2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w) }, { 2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y) } } };
}
static L turn(Mat const& a, Mat const& b)   // angle of the rotation from a to b
{
  L t = 0; for (int i = 0; i < 3; ++i) for (int k = 0; k < 3; ++k) t += a.m[i][k] * b.m[i][k];
  return std::acos(std::max(-1.0L, std::min(1.0L, (t - 1) / 2)));
}
static L angleValue() { static L const s[] = { 0, pi / 2, -pi / 2, pi / 4, pi, 0.1L }; return rnd(3) ? (L)rndf(-3.1, 3.1) : s[rnd(6)]; }
template<class T> struct Test
{
  typedef rbbl::Quaternion<T> Q;
  typedef rbbl::Position3D<T> P;
  static L eps() { return sizeof(T) == 4 ? 4e-5L : 1e-10L; }
  static void num(char const* what, L a, L b, L scale = 1) { if (!(std::fabs(a - b) <= eps() * scale)) fail("%s: %.9Lg, not %.9Lg", what, a, b); }
  static void same(char const* what, Mat const& a, Mat const& b, L tol = 4) { for (int i = 0; i < 3; ++i) for (int k = 0; k < 3; ++k) if (!(std::fabs(a.m[i][k] - b.m[i][k]) <= tol * eps())) fail("%s: element %d,%d of the rotation matrix is %.7Lg, not %.7Lg", what, i, k, a.m[i][k], b.m[i][k]); }
  static void same(char const* what, P const& p, V3 const& w, L scale) { for (int i = 0; i < 3; ++i) if (!(std::fabs(p[i] - w.v[i]) <= eps() * (1 + scale))) fail("%s: coordinate %d is %.7g, not %.7Lg", what, i, (double)p[i], w.v[i]); }
  static void same(char const* what, Q const& q, L w, L x, L y, L z, L s = 1) { num(what, q.w(), w, s); num(what, q.x(), x, s); num(what, q.y(), y, s); num(what, q.z(), z, s); }
  static Q unit() { if (rnd(5) == 0) { Q const s[] = { Q(), Q(0, 1, 0, 0), Q(0, 0, 1, 0), Q(0, 0, 0, 1), Q(-1, 0, 0, 0) }; return s[rnd(5)]; } Q q(rndf(-1, 1), rndf(-1, 1), rndf(-1, 1), rndf(-1, 1)); while (q.norm() < 0.1) q.setW(rndf(-1, 1)); q *= 1 / q.norm(); return q; }
  static P point() { if (rnd(5) == 0) { P const s[] = { P(), P(1, 0, 0), P(0, -2, 0), P(0, 0, 3) }; return s[rnd(4)]; } return P(rndf(-4, 4), rndf(-4, 4), rndf(-4, 4)); }
  static V3 wide(P const& p) { return V3{ { p.x(), p.y(), p.z() } }; }
  static void run()
  {
    char const* const t = sizeof(T) == 4 ? "float" : "double";
    Q const a = unit(), b = unit(); P const p = point(), d = point();
    L const y = angleValue(), pt = angleValue(), r = angleValue();
    setcase("Quaternion<%s> a=(%.9g,%.9g,%.9g,%.9g) b=(%.9g,%.9g,%.9g,%.9g) position=(%.9g,%.9g,%.9g) other=(%.9g,%.9g,%.9g) yaw=%.9Lg pitch=%.9Lg roll=%.9Lg", t, (double)a.w(), (double)a.x(), (double)a.y(), (double)a.z(), (double)b.w(), (double)b.x(), (double)b.y(), (double)b.z(),
      (double)p.x(), (double)p.y(), (double)p.z(), (double)d.x(), (double)d.y(), (double)d.z(), y, pt, r);
    // rotations of points
    P m(p); m.rotate(a); same("Position3D::rotate", m, mul(matrix(a), wide(p)), 8);
    same("rotate()", rbbl::rotate(p, a), mul(matrix(a), wide(p)), 8);
    V3 w = mul(matrix(a), wide(p)); for (int i = 0; i < 3; ++i) w.v[i] += d[i];
    m = p; m.transform(a, d); same("Position3D::transform", m, w, 8); same("transform()", rbbl::transform(p, a, d), w, 8);
    m = p; m.translate(d); for (int i = 0; i < 3; ++i) num("translate", m[i], (L)p[i] + d[i], 8);
    num("norm", p.norm(), std::sqrt((L)p.x() * p.x() + (L)p.y() * p.y() + (L)p.z() * p.z()), 8); num("normSquare", p.normSquare(), (L)p.norm() * p.norm(), 60);
    auto pos = [&](char const* what, P const& e, L x0, L x1, L x2) { num(what, e.x(), x0, 8); num(what, e.y(), x1, 8); num(what, e.z(), x2, 8); };
    T const k1 = rndf(-3, 3);
    m = p; m += d; pos("operator+=", m, (L)p.x() + d.x(), (L)p.y() + d.y(), (L)p.z() + d.z()); pos("operator+", p + d, (L)p.x() + d.x(), (L)p.y() + d.y(), (L)p.z() + d.z());
    m = p; m -= d; pos("operator-=", m, (L)p.x() - d.x(), (L)p.y() - d.y(), (L)p.z() - d.z()); pos("operator-", p - d, (L)p.x() - d.x(), (L)p.y() - d.y(), (L)p.z() - d.z());
    m = p; m *= k1; pos("operator*=", m, (L)p.x() * k1, (L)p.y() * k1, (L)p.z() * k1); pos("operator*", k1 * p, (L)p.x() * k1, (L)p.y() * k1, (L)p.z() * k1); pos("unary minus", -p, -p.x(), -p.y(), -p.z());
    m = p; m.setX(d.y()); pos("setX", m, d.y(), p.y(), p.z()); m.setY(d.z()); pos("setY", m, d.y(), d.z(), p.z()); m.setZ(d.x()); pos("setZ", m, d.y(), d.z(), d.x());
    { Q e(a); e.setX(b.w()); same("setX", e, a.w(), b.w(), a.y(), a.z()); e.setY(b.x()); same("setY", e, a.w(), b.w(), b.x(), a.z()); e.setZ(b.y()); same("setZ", e, a.w(), b.w(), b.x(), b.y()); e.setW(b.z()); same("setW", e, b.z(), b.w(), b.x(), b.y()); }
    { Q e(a); e += b; same("operator+=", e, (L)a.w() + b.w(), (L)a.x() + b.x(), (L)a.y() + b.y(), (L)a.z() + b.z()); e = a; e -= b; same("operator-=", e, (L)a.w() - b.w(), (L)a.x() - b.x(), (L)a.y() - b.y(), (L)a.z() - b.z());
      e = a; e *= k1; same("operator*=", e, (L)k1 * a.w(), (L)k1 * a.x(), (L)k1 * a.y(), (L)k1 * a.z(), 4); }
    // composition
    same("product", matrix(b * a), mul(matrix(b), matrix(a)));
    Q c(a); c.rotate(b); same("Quaternion::rotate", matrix(c), mul(matrix(b), matrix(a)));
    c = a; c *= b; same("operator*=", matrix(c), mul(matrix(a), matrix(b)));
    c = a; c.conjugate(); same("conjugate", matrix(c * a), matrix(Q())); same("conjugate", matrix(rbbl::conjugate(a) * a), matrix(Q()));
    // formats
    same("fromYPR", matrix(Q::fromYPR(y, pt, r)), ypr(y, pt, r)); c = a; c.setYPR(y, pt, r); same("setYPR", matrix(c), ypr(y, pt, r));
    if (std::fabs(2 * (a.w() * a.y() - a.z() * a.x())) < 0.99) same("yaw, pitch, roll", ypr(a.yaw(), a.pitch(), a.roll()), matrix(a), 40);
    else num("pitch", std::fabs(a.pitch()), pi / 2, sizeof(T) == 4 ? 8000 : 4e9);
    V3 const ax{ { a.rotationVector().x(), a.rotationVector().y(), a.rotationVector().z() } };
    num("norm of the rotation vector", ax.v[0] * ax.v[0] + ax.v[1] * ax.v[1] + ax.v[2] * ax.v[2], 1);
    same("rotation vector and angle", about(ax, a.rotationAngle()), matrix(a), 20);
    if (p.norm() > 0.1) same("fromRotationVector", matrix(Q::fromRotationVector(p, y)), about(wide(p), y));
    // scaling, norms, normalisation
    T const s = rnd(2) ? rndf(0.05, 5) : -rndf(0.05, 5); Q const sa = s * a, sb = std::fabs(s) * b;
    same("scaling", sa, (L)s * a.w(), (L)s * a.x(), (L)s * a.y(), (L)s * a.z(), 5); same("division", sa / s, a.w(), a.x(), a.y(), a.z());
    num("norm", sa.norm(), std::fabs(s), 10); num("normSquare", sa.normSquare(), (L)s * s, 30);
    L const g = s < 0 ? -1 : 1, h = g * a.w() < 0 ? -g : g;
    same("normalise", rbbl::normalise(sa), g * a.w(), g * a.x(), g * a.y(), g * a.z()); c = sa; c.normalise();
    same("normalise", c, g * a.w(), g * a.x(), g * a.y(), g * a.z());
    if (a.w() != 0) same("normalise with sign", rbbl::normalise(sa, true), h * a.w(), h * a.x(), h * a.y(), h * a.z());
    same("normalising constructor", Q(sa.w(), sa.x(), sa.y(), sa.z(), true), g * a.w(), g * a.x(), g * a.y(), g * a.z());
    same("plain constructor", Q(sa.w(), sa.x(), sa.y(), sa.z()), sa.w(), sa.x(), sa.y(), sa.z());
    same("sum", a + b, (L)a.w() + b.w(), (L)a.x() + b.x(), (L)a.y() + b.y(), (L)a.z() + b.z()); same("difference", a - b, (L)a.w() - b.w(), (L)a.x() - b.x(), (L)a.y() - b.y(), (L)a.z() - b.z());
    same("negation", -a, -a.w(), -a.x(), -a.y(), -a.z());
    bool thrown = false; try { (void)rbbl::normalise(Q(0, 0, 0, 0)); } catch (std::runtime_error const&) { thrown = true; } if (!thrown) fail("a zero quaternion is normalised without an error");
    thrown = false; try { (void)rbbl::normalise(P(0, 0, 0)); } catch (std::runtime_error const&) { thrown = true; } if (!thrown) fail("a zero position is normalised without an error");
    // angles and interpolation; repeated and neighbouring orientations too
    L const tol = sizeof(T) == 4 ? 100 : 4000;
    for (int k = 0; k < 4; ++k)
    {
      Q const o = k == 0 ? b : k == 1 ? a : k == 2 ? -a : Q::fromYPR(y, pt, r);
      L const want = turn(matrix(a), matrix(o)); bool const degenerate = want < 0.02 || want > pi - 0.02;
      num("angle", rbbl::angle(sa, o), want, degenerate ? (sizeof(T) == 4 ? 1000 : 1e7) : tol); num("angleNormalised", rbbl::angleNormalised(a, o), want, degenerate ? (sizeof(T) == 4 ? 1000 : 1e7) : tol);
      L const dt = (L)a.w() * o.w() + (L)a.x() * o.x() + (L)a.y() * o.y() + (L)a.z() * o.z(), om = std::acos(std::max(-1.0L, std::min(1.0L, dt)));
      if (k == 2 || om > 2.8 || (om < 0.02 && k != 1)) continue;
      T const ti = rnd(4) ? rndf(0, 1) : rnd(2); L const u = ti, f1 = k == 1 ? 1 - u : std::sin((1 - u) * om) / std::sin(om), f2 = k == 1 ? u : std::sin(u * om) / std::sin(om);
      Q const i = rbbl::interpolateSpherical(a, o, ti);
      same("interpolateSpherical", i, f1 * a.w() + f2 * o.w(), f1 * a.x() + f2 * o.x(), f1 * a.y() + f2 * o.y(), f1 * a.z() + f2 * o.z(), tol);
    }
    if (p.norm() > 0.1 && d.norm() > 0.1)
    {
      V3 const x = wide(p), z = wide(d); L const np = p.norm(), nd = d.norm(), ct = (x.v[0] * z.v[0] + x.v[1] * z.v[1] + x.v[2] * z.v[2]) / np / nd, om = std::acos(std::max(-1.0L, std::min(1.0L, ct)));
      num("angle between positions", rbbl::angle(p, d), om, sizeof(T) == 4 ? 200 : 1e6);
      if (om > 0.02 && om < 2.8)
      {
        T const ti = rndf(0, 1); L const u = ti, f1 = std::sin((1 - u) * om) / std::sin(om), f2 = std::sin(u * om) / std::sin(om), ra = (1 - u) * np + u * nd; V3 e;
        for (int i = 0; i < 3; ++i) e.v[i] = ra * (f1 * x.v[i] / np + f2 * z.v[i] / nd);
        P const i = rbbl::interpolateSpherical(p, d, ti); for (int k = 0; k < 3; ++k) num("interpolateSpherical of positions", i[k], e.v[k], 10 * tol);
      }
      P const i = rbbl::interpolateSpherical(p, p, T(0.25)); same("interpolateSpherical of equal positions", i, wide(p), 40);
      P n = rbbl::normalise(p); for (int k = 0; k < 3; ++k) num("normalise", n[k], x.v[k] / np);
    }
    if (std::fabs(det(matrix(a)) - 1) > 1e-9) fail("oracle");
  }
};
typedef pml::ListenerPosition LP;
static void same(LP const& l, V3 const& p, Mat const& m, unsigned long long t, unsigned f, char const* what)
{
  Test<float>::same(what, l.position(), p, 10); Test<float>::same(what, matrix(l.orientationQuaternion()), m, 10);
  if (l.timeNs() != t || l.faceID() != f) fail("%s: time stamp %llu, face %u instead of %llu, %u", what, (unsigned long long)l.timeNs(), l.faceID(), t, f);
}
static ParameterRegistrar<LP, pml::StringParameter> sPar;
static CommunicationProtocolRegistrar<pml::DoubleBufferingProtocol, pml::MessageQueueProtocol, pml::SharedDataProtocol> sProt;
static void listener()
{
  typedef Test<float> F;
  F::Q const q = F::unit(), o = F::unit(); F::P const p = F::point(), d = F::point();
  setcase("ListenerPosition at (%g,%g,%g), orientation (%g,%g,%g,%g), rotated by (%g,%g,%g,%g), moved by (%g,%g,%g)", p.x(), p.y(), p.z(), o.w(), o.x(), o.y(), o.z(), q.w(), q.x(), q.y(), q.z(), d.x(), d.y(), d.z());
  LP l(p, o); l.setTimeNs(77); l.setFaceID(5); V3 const x{ { p.x(), p.y(), p.z() } }, z{ { d.x(), d.y(), d.z() } }, xr = mul(matrix(q), x);
  auto plus = [](V3 const& a, V3 const& b) { return V3{ { a.v[0] + b.v[0], a.v[1] + b.v[1], a.v[2] + b.v[2] } }; };
  Mat const mo = matrix(o), mr = mul(matrix(q), mo);
  same(l, x, mo, 77, 5, "constructor");
  LP k(l); l.setNumberOfListeners(3); if (l.numberOfListeners() != 3 || LP(l).numberOfListeners() != 3) fail("number of listeners"); l.setNumberOfListeners(1);
  k = l; k.setX(d.y()); k.setY(d.z()); k.setZ(d.x()); same(k, V3{ { d.y(), d.z(), d.x() } }, mo, 77, 5, "setX, setY, setZ"); k = l; k.set(d.x(), d.y(), d.z()); same(k, z, mo, 77, 5, "set"); k = l; k.setPosition(d); same(k, z, mo, 77, 5, "setPosition");
  k = l; k.translate(d); same(k, plus(x, z), mo, 77, 5, "translate");
  k = l; k.rotate(q); same(k, xr, mr, 77, 5, "rotate");
  k = l; k.rotatePosition(q); same(k, xr, mo, 77, 5, "rotatePosition");
  k = l; k.rotateOrientation(q); same(k, x, mr, 77, 5, "rotateOrientation");
  k = l; k.transform(q, d); same(k, plus(xr, z), mr, 77, 5, "transform");
  k = l; k.setOrientationQuaternion(q); same(k, x, matrix(q), 77, 5, "setOrientationQuaternion");
  k = l; k.setOrientationYPR(0.3f, -0.7f, 1.1f); same(k, x, ypr(0.3L, -0.7L, 1.1L), 77, 5, "setOrientationYPR");
}
static void decoder()
{
  typedef Test<float> F;
  F::Q const q = F::unit(); F::P const off = F::point();
  std::string text; SignalFlowContext ctx(64, 48000); rcl::PositionDecoder c(ctx, "decoder", nullptr, off, q); rrl::AudioSignalFlow f(c);
  auto& in = dynamic_cast<pml::MessageQueueProtocol::OutputBase&>(f.externalParameterReceivePort("messageInput"));
  auto& out = dynamic_cast<pml::DoubleBufferingProtocol::InputBase&>(f.externalParameterSendPort("positionOutput"));
  for (int it = 0, ni = 1 + rnd(4); it < ni; ++it)
  {
    struct M { V3 p; Mat o; unsigned long long t; unsigned f; }; M best{}; bool have = false;
    char head[200]; snprintf(head, sizeof head, "PositionDecoder rotation (%g,%g,%g,%g) offset (%g,%g,%g), call %d:", q.w(), q.x(), q.y(), q.z(), off.x(), off.y(), off.z(), it); text = head;
    unsigned const nf = 1 + rnd(3), base = rnd(3) ? 0 : rnd(5);
    for (unsigned k = rnd(7); k--; )
    {
      M m; char b[400]; m.t = rnd(3) ? rnd(4) : rnd(1000000); m.f = base + rnd(nf); float const x = rndf(-3, 3), y = rndf(-3, 3), z = rndf(-3, 3), a1 = rndf(-170, 170), a2 = rndf(-80, 80), a3 = rndf(-170, 170);
      m.p = V3{ { x, y, z } }; L const g = pi / 180;
      switch (rnd(6))
      {
      case 0: m.f = ~0u; if (rnd(2)) snprintf(b, sizeof b, "{ \"x\": %.9g, \"y\": ", x); else snprintf(b, sizeof b, "{\"x\":%.9g,\"y\":%.9g,\"z\":%.9g,\"orientation\":{\"yaw\":%.9g,\"pitch\":0,\"roll\":0,\"rotationVector\":{\"x\":1,\"y\":0,\"z\":0,\"angle\":%.9g}}}", x, y, z, a1, a2); break;
      case 1: snprintf(b, sizeof b, "{\"x\":%.9g,\"y\":%.9g,\"z\":%.9g,\"faceId\":%u,\"timeStamp\":%llu}", x, y, z, m.f, m.t); m.o = ypr(0, 0, 0); break;
      case 2: snprintf(b, sizeof b, "{\"x\":%.9g,\"y\":%.9g,\"z\":%.9g,\"faceId\":%u,\"timeStamp\":%llu,\"orientation\":{\"quaternion\":{\"w\":0.5,\"x\":-0.5,\"y\":0.5,\"z\":0.5}}}", x, y, z, m.f, m.t); m.o = matrix(rbbl::Quaternion<double>(0.5, -0.5, 0.5, 0.5)); break;
      case 3: snprintf(b, sizeof b, "{\"x\":%.9g,\"y\":%.9g,\"z\":%.9g,\"faceId\":%u,\"timeStamp\":%llu,\"orientation\":{\"rotationVector\":{\"x\":1,\"y\":-2,\"z\":0.5,\"angle\":%.9g}}}", x, y, z, m.f, m.t, a1); m.o = about(V3{ { 1, -2, 0.5L } }, a1 * g); break;
      default: snprintf(b, sizeof b, "{\"x\":%.9g,\"y\":%.9g,\"z\":%.9g,\"faceId\":%u,\"timeStamp\":%llu,\"orientation\":{\"yaw\":%.9g,\"pitch\":%.9g,\"roll\":%.9g}}", x, y, z, m.f, m.t, a1, a2, a3); m.o = ypr(a1 * g, a2 * g, a3 * g); break;
      }
      text += " "; text += b; in.enqueue(std::unique_ptr<ParameterBase>(new pml::StringParameter(std::string(b))));
      if (m.f != ~0u && (!have || m.f < best.f || (m.f == best.f && m.t >= best.t))) { best = m; have = true; }
    }
    setcase("%s", text.c_str());
    out.resetChanged(); float* none = nullptr; f.process(&none, &none);
    if (out.changed() != have) fail("a position is %ssent", have ? "not " : "");
    if (!have) continue;
    V3 w = mul(matrix(q), best.p); for (int i = 0; i < 3; ++i) w.v[i] += off[i];
    same(static_cast<LP const&>(out.data()), w, mul(matrix(q), best.o), best.t, best.f, "decoded position");
  }
}
int main(int argc, char** argv)
{
  std::cerr.rdbuf(nullptr);
  return run(argc, argv, [](bool) { static int k = 0; switch (k++ % 5) { case 0: case 1: Test<float>::run(); break; case 2: Test<double>::run(); break; case 3: listener(); break; default: decoder(); } });
}
