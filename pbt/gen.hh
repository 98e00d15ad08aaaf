// Shared generators: tyres, poses and grounds.
#pragma once
#include "model.hh"

namespace gen {
using namespace mdl;
using pbt::Case;

inline V dbl(V v) { return V(double(v.x), double(v.y), double(v.z)); }

inline Shape shape(Case &c) {
  Shape s;
  if (c.flag(1, 4)) s.Rx = c.logreal(0.08, 1.2); else s.Rx = c.real(0.2, 0.45);
  s.Ly = s.Rx * (c.flag(1, 4) ? c.real(0.02, 1.5) : c.real(0.15, 0.5));
  s.Ry = s.Ly * (c.flag(1, 5) ? 1.0 : c.real(1.0, 2.5));
  static std::vector<double> const ms{2, 1, 3, 4, 6, 2.5, 1.5, 8};
  s.Mx = c.flag(1, 3) ? c.real(1, 7) : c.pick(ms);
  s.My = c.flag(1, 3) ? c.real(1, 9) : c.pick(ms);
  return s;
}
inline size_t ribs(Case &c, int hi = 24) {
  size_t n = size_t(c.size(1, hi));
  if (c.flag(1, 250)) { n *= 1 + c.u(30); c.label("shape:many-ribs", n > 60); }
  return n;
}
// many values out of one drawn number (large grounds)
struct Noise {
  uint64_t s;
  explicit Noise(Case &c) : s(c.u(1ULL << 40)) {}
  uint64_t bits() {
    uint64_t z = (s += 0x9e3779b97f4a7c15ULL);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
  }
  double unit() { return double(bits() >> 13) / double(1ULL << 51); } // [0, 1)
  double sym() { return 2 * unit() - 1; }
};

// upright = the pose's z axis points up
inline Pose pose(Case &c, bool upright, bool allow_spin = true) {
  Pose p;
  double far = c.flag(1, 6) ? (c.flag(1, 12) ? 5e4 : 2000) : 20;
  p.t = V(c.sreal(far), c.sreal(far), c.sreal(c.flag(1, 6) ? 300 : 3));
  L yaw = c.sreal(3.14159), camber = 0, pitch = 0;
  switch (c.u(4)) {
    case 0: break;
    case 1: case 2: camber = c.sreal(0.35); break;
    default: camber = c.sreal(upright ? 1.3 : 1.5707); break;
  }
  if (upright) { if (c.flag(1, 2)) pitch = c.sreal(1.0); }
  else if (allow_spin && c.flag(1, 2)) pitch = c.sreal(3.1415);
  p.R = rotZXY(yaw, camber, pitch);
  if (upright && p.R.c[2].z < 0.05L) p.R = rotZXY(yaw, camber / 4, pitch / 4);
  if (c.flag(1, 16)) { // axes exactly along the coordinate axes; a level wheel, or lying and upside down as well
    L const q[4][2] = {{1, 0}, {0, 1}, {-1, 0}, {0, -1}};
    int a = int(c.u(4)), b = upright ? 0 : int(c.u(4));
    V x(q[a][0], q[a][1], 0), y(-q[a][1], q[a][0], 0), z(0, 0, 1);
    p.R.c[0] = x; p.R.c[1] = q[b][0] * y + q[b][1] * z; p.R.c[2] = q[b][0] * z - q[b][1] * y;
  }
  return pose_of(aff(p)); // rounded as the library receives it
}

inline double friction(Case &c) { return c.flag(1, 8) ? 0.0 : c.real(0.05, 2.0); }

// unit normal with the given largest tilt
inline V upnormal(Case &c, double tilt) {
  L t = c.sreal(tilt), a = c.sreal(3.14159);
  return unit(V(std::sin(t) * std::cos(a), std::sin(t) * std::sin(a), std::cos(t)));
}

// a plane cutting, touching or missing the wheel
inline Flat flat(Case &c, Shape const &s, Pose const &p, double tilt) {
  Flat g;
  V n = upnormal(c, tilt);
  if (c.flag(1, 24) && std::fabs(p.R.c[1].z) > 0.1L) n = p.R.c[1].z > 0 ? p.R.c[1] : -p.R.c[1]; // the wheel lies on the plane
  L k;
  switch (c.u(8)) {
    case 6: // the middle rib grazes the plane within rounding
      k = s.Rx * std::sqrt(std::max(L(0), 1 - dot(n, p.R.c[1]) * dot(n, p.R.c[1]))) - L(c.range(-4, 12)) * 1e-16L * (1 + maxabs(p.t));
      break;
    case 0: k = s.Rx * c.real(0.9, 1.0); break;
    case 1: case 2: k = s.Rx * c.real(0.6, 1.0); break;
    case 3: k = s.Rx * c.real(-1.2, 1.2); break;
    case 4: k = s.Rx * c.real(0.98, 1.02); break;
    default: k = s.Rx * c.real(0.97, 1.3); break;
  }
  V e1 = unit(std::fabs(n.x) < 0.8L ? cross(n, V(1, 0, 0)) : cross(n, V(0, 1, 0))), e2 = cross(n, e1);
  V o = p.t - k * n + c.sreal(3) * e1 + c.sreal(3) * e2;
  g.mu = friction(c);
  g.o = dbl(o);
  g.n = n;
  return g;
}
inline std::unique_ptr<enve::ground::flat> lib(Flat &g) {
  acme::vec3 n = ev(g.n);
  g.n = unit(V::of(n));
  return std::unique_ptr<enve::ground::flat>(new enve::ground::flat(g.mu, acme::point(ev(g.o)), n));
}

inline bool sound(Tri const &t) {
  L len = std::max(norm(t.v[1] - t.v[0]), std::max(norm(t.v[2] - t.v[0]), norm(t.v[2] - t.v[1])));
  return len > 1e-3L && norm(cross(t.v[1] - t.v[0], t.v[2] - t.v[0])) > 1e-3L * len * len;
}
inline void add(std::vector<Tri> &ts, V a, V b, V d, double mu) {
  Tri t;
  t.v[0] = dbl(a); t.v[1] = dbl(b); t.v[2] = dbl(d);
  t.mu = mu;
  if (sound(t)) ts.push_back(t);
}

// a height field around the wheel; h gives the height above the base plane
template <class H> void grid(Case &c, std::vector<Tri> &ts, V o, L sx, L sy, int nx, int ny, L yaw, bool mixed, H h) {
  V ex(std::cos(yaw), std::sin(yaw), 0), ey(-std::sin(yaw), std::cos(yaw), 0);
  std::vector<V> g;
  for (int i = 0; i <= nx; ++i)
    for (int j = 0; j <= ny; ++j) {
      L u = (i - nx * 0.5L) * sx, v = (j - ny * 0.5L) * sy;
      g.push_back(o + u * ex + v * ey + V(0, 0, h(u, v, i, j)));
    }
  double mu0 = friction(c);
  for (int i = 0; i < nx; ++i)
    for (int j = 0; j < ny; ++j) {
      V a = g[i * (ny + 1) + j], b = g[(i + 1) * (ny + 1) + j], d = g[(i + 1) * (ny + 1) + j + 1], e = g[i * (ny + 1) + j + 1];
      double m1 = mixed ? friction(c) : mu0, m2 = mixed ? friction(c) : mu0;
      if (c.flag(1, 2)) { add(ts, a, b, d, m1); add(ts, a, d, e, m2); }
      else { add(ts, a, b, e, m1); add(ts, b, d, e, m2); }
    }
}

// ground triangles near the wheel
inline std::vector<Tri> mesh(Case &c, Shape const &s, Pose const &p, int maxcells = 60) {
  std::vector<Tri> ts;
  L R = s.Rx;
  L k; // height of the wheel centre over the base
  switch (c.u(5)) {
    case 0: k = R * c.real(0.6, 1.0); break;
    case 1: case 2: k = R * c.real(0.8, 0.99); break;
    case 3: k = R * c.real(-0.5, 1.3); break;
    default: k = R * c.real(0.95, 1.1); break;
  }
  V base = p.t - V(0, 0, k);
  int kind = maxcells >= 40 && c.flag(1, 300) ? 7 : int(c.u(7));
  L yaw = c.flag(1, 3) ? 0.0 : c.sreal(3.1);
  V off(c.sreal(0.5) * R, c.sreal(0.5) * R, 0);
  bool mixed = c.flag(1, 2);
  auto dims = [&](L &sx, L &sy, int &nx, int &ny) {
    sx = R * c.logreal(0.05, 1.5); sy = R * c.logreal(0.05, 1.5);
    nx = int(std::min<L>(16, std::ceil(c.real(1.0, 2.6) * R / sx))); ny = int(std::min<L>(16, std::ceil(c.real(1.0, 2.6) * R / sy)));
    nx = std::max(1, nx); ny = std::max(1, ny);
    while (nx * ny > maxcells) { if (nx > ny) --nx; else --ny; }
  };
  L sx, sy;
  int nx, ny;
  switch (kind) {
    case 0: { // plane, possibly sloping
      dims(sx, sy, nx, ny);
      L a = c.sreal(0.5), b = c.sreal(0.5);
      grid(c, ts, base + off, sx, sy, nx, ny, yaw, mixed, [&](L u, L v, int, int) { return a * u + b * v; });
      c.label("mesh:plane");
      break;
    }
    case 1: case 2: { // rough
      dims(sx, sy, nx, ny);
      L a = c.sreal(0.4), b = c.sreal(0.4), amp = std::min(sx, sy) * c.real(0, 0.7);
      grid(c, ts, base + off, sx, sy, nx, ny, yaw, mixed, [&](L u, L v, int, int) { return a * u + b * v + amp * L(c.sreal(1)); });
      c.label("mesh:rough");
      break;
    }
    case 3: { // kerb: two levels joined by a steep or vertical face
      L h = R * c.real(0.02, 0.5), run = c.flag(1, 3) ? 0.0L : R * c.real(0.01, 0.2);
      L ext = R * c.real(1.0, 3.0), wid = R * c.real(1.0, 3.0);
      V ex(std::cos(yaw), std::sin(yaw), 0), ey(-std::sin(yaw), std::cos(yaw), 0);
      V o = base + off;
      L xs[4] = {-ext, -run / 2, run / 2, ext}, zs[4] = {0, 0, h, h};
      int cuts = int(c.range(1, 4));
      for (int i = 0; i < 3; ++i)
        for (int j = 0; j < cuts; ++j) {
          L y0 = -wid + 2 * wid * j / cuts, y1 = -wid + 2 * wid * (j + 1) / cuts;
          V a = o + xs[i] * ex + y0 * ey + V(0, 0, zs[i]), b = o + xs[i + 1] * ex + y0 * ey + V(0, 0, zs[i + 1]);
          V d = o + xs[i + 1] * ex + y1 * ey + V(0, 0, zs[i + 1]), e = o + xs[i] * ex + y1 * ey + V(0, 0, zs[i]);
          double m1 = friction(c), m2 = mixed ? friction(c) : m1;
          add(ts, a, b, d, m1);
          add(ts, a, d, e, m2);
        }
      c.label("mesh:kerb");
      break;
    }
    case 4: { // soup
      int n = int(c.size(1, 40));
      for (int i = 0; i < n; ++i) {
        V o = p.t + R * V(c.sreal(1.2), c.sreal(1.2), c.sreal(1.2));
        L l = R * c.logreal(0.05, 3);
        add(ts, o + l * V(c.sreal(1), c.sreal(1), c.sreal(1)), o + l * V(c.sreal(1), c.sreal(1), c.sreal(1)), o + l * V(c.sreal(1), c.sreal(1), c.sreal(1)), friction(c));
      }
      c.label("mesh:soup");
      break;
    }
    case 5: { // one to three large triangles under the wheel
      int n = int(c.range(1, 3));
      for (int i = 0; i < n; ++i) {
        L l = R * c.logreal(0.5, 300);
        V o = base + off + V(0, 0, i ? R * L(c.sreal(0.3)) : 0);
        L a0 = c.sreal(3);
        V q[3];
        for (int j = 0; j < 3; ++j) q[j] = o + l * V(std::cos(a0 + 2.1L * j), std::sin(a0 + 2.1L * j), 0) + V(0, 0, std::min(l, R) * L(c.sreal(0.6)));
        add(ts, q[0], q[1], q[2], friction(c));
      }
      c.label("mesh:large");
      break;
    }
    case 7: { // dense: hundreds to thousands of triangles, most of them under the wheel
      int nx = int(c.range(6, 40)), ny = int(c.range(6, 40));
      if (c.flag(1, 3)) { // narrow slats across the heading: one rib crosses hundreds of them
        nx = int(c.range(100, 400)); ny = int(c.range(1, 3));
        yaw = std::atan2(p.R.c[0].y, p.R.c[0].x) + c.sreal(0.3);
        c.label("mesh:slats");
      }
      L cx = R * c.real(1.2, 4) / nx, cy = R * c.real(0.6, 4) / ny, amp = std::min(cx, cy) * c.real(0, 0.7), ca = c.sreal(0.3), cb = c.sreal(0.3);
      Noise r(c);
      V o = base + 0.4L * off, ex(std::cos(yaw), std::sin(yaw), 0), ey(-std::sin(yaw), std::cos(yaw), 0);
      std::vector<V> g;
      for (int i = 0; i <= nx; ++i)
        for (int j = 0; j <= ny; ++j) {
          L u = (i - nx * 0.5L) * cx, v = (j - ny * 0.5L) * cy;
          g.push_back(o + u * ex + v * ey + V(0, 0, ca * u + cb * v + amp * L(r.sym())));
        }
      double mu0 = friction(c);
      for (int i = 0; i < nx; ++i)
        for (int j = 0; j < ny; ++j) {
          V a = g[i * (ny + 1) + j], b = g[(i + 1) * (ny + 1) + j], d = g[(i + 1) * (ny + 1) + j + 1], e = g[i * (ny + 1) + j + 1];
          double m1 = mixed ? r.unit() * 2 : mu0, m2 = mixed ? r.unit() * 2 : mu0;
          if (r.bits() & 1) { add(ts, a, b, d, m1); add(ts, a, d, e, m2); }
          else { add(ts, a, b, e, m1); add(ts, b, d, e, m2); }
        }
      c.label("mesh:dense");
      break;
    }
    default: { // a fine strip under one shoulder, over a large base
      dims(sx, sy, nx, ny);
      sx *= 0.4L; sy *= 0.4L;
      L amp = sx * c.real(0, 0.5);
      V sh = p.t + (s.Ly * L(c.flag() ? 1 : -1)) * p.R.c[1];
      V o(sh.x, sh.y, base.z + R * L(c.sreal(0.15)));
      grid(c, ts, o, sx, sy, nx, ny, yaw, mixed, [&](L, L, int, int) { return amp * L(c.sreal(1)); });
      if (c.flag()) { L l = 6 * R; add(ts, base + V(-l, -l, 0), base + V(l, -l, 0), base + V(0, 2 * l, 0), friction(c)); }
      c.label("mesh:shoulder");
    }
  }
  if (ts.empty()) add(ts, base + V(-3 * R, -2.9L * R, 0), base + V(3.1L * R, -3 * R, 0), base + V(0, 4 * R, 0), 1.0);
  return ts;
}
inline enve::triangleground::vecptr libtris(std::vector<Tri> const &ts, std::vector<int> const *ids = nullptr) {
  enve::triangleground::vecptr v;
  for (size_t i = 0; i < ts.size(); ++i) {
    acme::point a(ev(ts[i].v[0])), b(ev(ts[i].v[1])), d(ev(ts[i].v[2]));
    v.push_back(std::make_shared<enve::triangleground const>(ids ? (*ids)[i] : int(i), ts[i].mu, a, b, d));
    ts[i].faces = V::of(v.back()->normal());
  }
  return v;
}
inline std::unique_ptr<enve::shell> lib(Shape const &s, size_t n) { return std::unique_ptr<enve::shell>(new enve::shell(n, s.Rx, s.Mx, s.Ry, s.My, s.Ly)); }

// a shell of the given shape and ribs that may have been resized, moved and evaluated before
inline std::unique_ptr<enve::shell> lib(Case &c, Shape const &s, size_t n) {
  if (!c.flag(1, 5)) return lib(s, n);
  size_t m = c.flag() ? n : ribs(c, 8);
  auto S = lib(s, m);
  int k = int(c.range(1, 3));
  for (int i = 0; i < k; ++i) {
    Pose q = pose(c, false);
    std::string how = c.flag() ? "sampling" : "geometric";
    if (c.flag()) { Flat g = flat(c, s, q, 1.2); S->setup(*lib(g), aff(q), how); }
    else { enve::ground::mesh G(libtris(mesh(c, s, q, 12))); S->setup(G, aff(q), how); }
    if (c.flag(1, 6)) S->resize(m = ribs(c, 8));
    if (c.flag(1, 6)) { S->translate(acme::vec3(c.sreal(3), 0, 1)); S->rotate(c.sreal(3), acme::vec3(0, 0, 1)); }
  }
  if (S->size() != n) S->resize(n);
  if (c.verbose) c.log << "the shell was used " << k << " times before\n";
  c.label("shell used before");
  return S;
}

struct Scene {
  Shape s;
  size_t n;
  Pose p;
};
inline void note(Case &c, Shape const &s, size_t n, Pose const &p) {
  c.note("shape", s);
  c.note("ribs", n);
  if (c.verbose) c.log << "pose t" << p.t << " x" << p.R.c[0] << " y" << p.R.c[1] << " z" << p.R.c[2] << "\n";
}
inline L coord(Pose const &p) { return 1 + maxabs(p.t); }
} // namespace gen
