// Generators for the geometry kernel: frames, sizes and entities with known coordinates.
#pragma once
#include "model.hh"
namespace kg {
using namespace mdl;
using pbt::Case;
inline acme::point pt(V v) { return acme::point(ev(v)); }
inline V rnd(V v) { return V(double(v.x), double(v.y), double(v.z)); }
struct Frame { V o, x, y, z; V at(L u, L v, L w = 0) const { return o + u * x + v * y + w * z; } };
inline V dir(Case &c) {
  switch (c.u(4)) {
    case 0: { V e[3] = {V(0, 0, 1), V(1, 0, 0), V(0, 1, 0)}; V d = e[c.u(3)]; return c.flag(1, 4) ? V(-d.x, -d.y, -d.z) : d; }
    default: {
      L z = c.real(-1, 1), a = c.sreal(3.14159265), r = std::sqrt(std::max<L>(0, 1 - z * z));
      return V(r * std::cos(a), r * std::sin(a), z);
    }
  }
}
inline V across(V z) { return unit(std::fabs(z.x) < 0.7L ? cross(z, V(1, 0, 0)) : cross(z, V(0, 1, 0))); }
inline Frame frame(Case &c, double far = 100) {
  Frame f;
  if (!c.flag(1, 3)) f.o = V(c.sreal(far), c.sreal(far), c.sreal(far));
  f.z = dir(c);
  V a = across(f.z), b = cross(f.z, a);
  L t = c.sreal(3.14159265);
  f.x = std::cos(t) * a + std::sin(t) * b;
  f.y = cross(f.z, f.x);
  return f;
}
inline double size(Case &c) { return c.flag(1, 3) ? 1.0 : c.logreal(0.05, 20); }
// factor of a direction or normal that need not be unit
inline double factor(Case &c) { double k = c.flag(1, 3) ? 1.0 : c.logreal(0.05, 20); return c.flag(1, 4) ? -k : k; }
inline L coord(std::initializer_list<V> vs) { L m = 1; for (auto const &v : vs) m = std::max(m, maxabs(v)); return m; }
inline bool near(V a, V b, L tol) { return maxabs(a - b) <= tol; }
// same end points in either order
inline bool ends(acme::segment const &s, V a, V b, L tol) {
  V p = V::of(s.vertex(0)), q = V::of(s.vertex(1));
  return (near(p, a, tol) && near(q, b, tol)) || (near(p, b, tol) && near(q, a, tol));
}
inline std::string str(acme::segment const &s) { std::ostringstream o; o.precision(17); o << V::of(s.vertex(0)) << " - " << V::of(s.vertex(1)); return o.str(); }
struct Tri3 { V v[3]; };
inline acme::triangle lib(Tri3 const &t) { return acme::triangle(pt(t.v[0]), pt(t.v[1]), pt(t.v[2])); }
inline V normal(Tri3 const &t) { return unit(cross(t.v[1] - t.v[0], t.v[2] - t.v[0])); }
// a well-shaped triangle in the frame's plane about (0,0)
inline Tri3 tri(Case &c, Frame const &f, double s) {
  L a = c.sreal(3.14159265);
  Tri3 t;
  L b = a;
  for (int i = 0; i < 3; ++i) {
    L r = s * L(c.real(0.4, 1.0));
    t.v[i] = rnd(f.at(r * std::cos(b), r * std::sin(b)));
    b += L(c.real(1.6, 2.4));
  }
  if (c.flag()) std::swap(t.v[1], t.v[2]);
  return t;
}
// distance of a point of the triangle's plane to its border: positive inside
inline L inside(Tri3 const &t, V p) {
  V n = normal(t);
  L m = 1e30L;
  for (int i = 0; i < 3; ++i) {
    V a = t.v[i], b = t.v[(i + 1) % 3];
    m = std::min(m, dot(cross(n, unit(b - a)), p - a));
  }
  return m;
}
// a line (0), ray (1) or segment (2) through q + t*e, t in [lo, hi]
struct Curve {
  int kind = 0;
  V A, B; // origin and direction (segment: both ends are A and A + B)
  L lo = -1e30L, hi = 1e30L;
  acme::line l() const { return acme::line(pt(A), ev(B)); }
  acme::ray r() const { return acme::ray(pt(A), ev(B)); }
  acme::segment s() const { return acme::segment(pt(A), pt(A + B)); }
};
inline char const *curve_name(int k) { static char const *n[] = {"line", "ray", "segment"}; return n[k]; }
inline std::ostream &operator<<(std::ostream &os, Curve const &k) {
  os << curve_name(k.kind) << " " << k.A;
  return k.kind == 2 ? os << " - " << V(k.A + k.B) : os << " dir " << k.B;
}
// a curve along q + t*e (e unit) with t between roughly -m and m
inline Curve curve(Case &c, int kind, V q, V e, L m) {
  Curve k;
  k.kind = kind;
  L a = m * L(c.real(-1, 1));
  if (kind == 2) {
    L len = m * L(c.logreal(0.1, 2));
    if (c.flag()) len = -len;
    k.A = rnd(q + a * e);
    k.B = rnd(q + (a + len) * e) - k.A;
    k.lo = std::min(a, a + len); k.hi = std::max(a, a + len);
  } else {
    double f = factor(c);
    k.A = rnd(q + a * e);
    k.B = rnd(L(f) * e);
    if (kind == 1) { if (f > 0) k.lo = a; else k.hi = a; }
  }
  return k;
}
} // namespace kg
