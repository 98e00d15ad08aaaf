// Reference model of tyre/ground contact in long double, written from the documented
// geometry; shares no code with the library.
#pragma once
#include "enve.hh"
#include "pbt.hh"
#include <algorithm>
#include <array>
#include <iomanip>

namespace mdl {

typedef long double L;
struct V {
  L x = 0, y = 0, z = 0;
  V() {}
  V(L a, L b, L c) : x(a), y(b), z(c) {}
  template <class T> static V of(T const &v) { return V(v.x(), v.y(), v.z()); }
};
inline V operator+(V a, V b) { return V(a.x + b.x, a.y + b.y, a.z + b.z); }
inline V operator-(V a, V b) { return V(a.x - b.x, a.y - b.y, a.z - b.z); }
inline V operator-(V a) { return V(-a.x, -a.y, -a.z); }
inline V operator*(L s, V a) { return V(s * a.x, s * a.y, s * a.z); }
inline V operator/(V a, L s) { return V(a.x / s, a.y / s, a.z / s); }
inline L dot(V a, V b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
inline V cross(V a, V b) { return V(a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x); }
inline L norm(V a) { return std::sqrt(dot(a, a)); }
inline V unit(V a) { L n = norm(a); return n > 0 ? a / n : a; }
inline L maxabs(V a) { return std::max(std::fabs(a.x), std::max(std::fabs(a.y), std::fabs(a.z))); }
inline acme::vec3 ev(V a) { return acme::vec3(double(a.x), double(a.y), double(a.z)); }
inline std::ostream &operator<<(std::ostream &o, V v) { return o << "(" << double(v.x) << ", " << double(v.y) << ", " << double(v.z) << ")"; }

struct M { // columns
  V c[3];
  V operator*(V v) const { return v.x * c[0] + v.y * c[1] + v.z * c[2]; }
  V tr(V v) const { return V(dot(c[0], v), dot(c[1], v), dot(c[2], v)); }
};
inline M operator*(M const &a, M const &b) { M r; for (int i = 0; i < 3; ++i) r.c[i] = a * b.c[i]; return r; }
inline M transpose(M const &a) { M r; r.c[0] = V(a.c[0].x, a.c[1].x, a.c[2].x); r.c[1] = V(a.c[0].y, a.c[1].y, a.c[2].y); r.c[2] = V(a.c[0].z, a.c[1].z, a.c[2].z); return r; }
inline M rot(V ax, L t) { // Rodrigues
  V u = unit(ax);
  M r;
  V e[3] = {V(1, 0, 0), V(0, 1, 0), V(0, 0, 1)};
  for (int i = 0; i < 3; ++i) r.c[i] = std::cos(t) * e[i] + std::sin(t) * cross(u, e[i]) + ((1 - std::cos(t)) * dot(u, e[i])) * u;
  return r;
}
inline M eye() { return rot(V(0, 0, 1), 0); }
inline M rotZXY(L z, L x, L y) { return rot(V(0, 0, 1), z) * rot(V(1, 0, 0), x) * rot(V(0, 1, 0), y); }
inline L diff(M const &a, M const &b) { return std::max(maxabs(a.c[0] - b.c[0]), std::max(maxabs(a.c[1] - b.c[1]), maxabs(a.c[2] - b.c[2]))); }

struct Pose {
  M R = eye();
  V t;
  V operator()(V p) const { return R * p + t; }
};
inline acme::affine aff(Pose const &p) {
  acme::affine a;
  a.setIdentity();
  for (int j = 0; j < 3; ++j) { a.matrix()(0, j) = double(p.R.c[j].x); a.matrix()(1, j) = double(p.R.c[j].y); a.matrix()(2, j) = double(p.R.c[j].z); }
  a.matrix()(0, 3) = double(p.t.x); a.matrix()(1, 3) = double(p.t.y); a.matrix()(2, 3) = double(p.t.z);
  return a;
}
inline Pose pose_of(acme::affine const &a) {
  Pose p;
  for (int j = 0; j < 3; ++j) p.R.c[j] = V(a.matrix()(0, j), a.matrix()(1, j), a.matrix()(2, j));
  p.t = V(a.matrix()(0, 3), a.matrix()(1, 3), a.matrix()(2, 3));
  return p;
}
inline M m3(acme::mat3 const &a) { M r; for (int j = 0; j < 3; ++j) r.c[j] = V(a(0, j), a(1, j), a(2, j)); return r; }

// ----- shape -----
struct Shape {
  double Rx = 0.3, Mx = 2, Ry = 0.3, My = 2, Ly = 0.1;
  L radius(L y) const { return Rx * std::pow(1 - std::pow(std::fabs(y) / Ry, L(My)), 1 / L(Mx)); }
  L deriv(L y) const { // d radius / d y
    L a = std::fabs(y) / Ry;
    if (a == 0) return 0;
    L g = 1 - std::pow(a, L(My));
    L d = -Rx / L(Mx) * std::pow(g, 1 / L(Mx) - 1) * L(My) * std::pow(a, L(My) - 1) / Ry;
    return y < 0 ? -d : d;
  }
  struct Rib { L y, w, R, ang, slop; }; // slop: how far rounding of y moves R
  Rib rib(size_t i, size_t n) const {
    Rib r;
    r.w = 2 * L(Ly) / n;
    r.y = -L(Ly) + (2 * L(i) + 1) * Ly / n;
    r.R = radius(r.y);
    L a = std::fabs(r.y), e = 2e-16L * (16 + n) * Ly;
    r.slop = radius(std::max<L>(0, a - e)) - radius(std::min<L>(a + e, (a + Ry) / 2));
    r.ang = std::atan(deriv(r.y));
    return r;
  }
};
inline std::ostream &operator<<(std::ostream &o, Shape const &s) { return o << "Rx=" << s.Rx << " Mx=" << s.Mx << " Ry=" << s.Ry << " My=" << s.My << " Ly=" << s.Ly; }

struct Tri {
  V v[3];
  double mu = 1;
  mutable V faces; // a wall faces the way the library says: rounding decides it there
  V n() const { V k = unit(cross(v[1] - v[0], v[2] - v[0])); if (std::fabs(k.z) < 1e-9L && dot(faces, faces) > 0) return dot(k, faces) < 0 ? -k : k; return k.z < 0 ? -k : k; }
};
inline std::ostream &operator<<(std::ostream &o, std::vector<Tri> const &ts) {
  o << ts.size() << " triangles";
  for (size_t i = 0; i < ts.size() && i < 6; ++i) o << "\n    " << ts[i].v[0] << ts[i].v[1] << ts[i].v[2] << " mu=" << ts[i].mu;
  return o;
}
struct Flat { V o, n; double mu = 1; };

struct Out {
  V    P, N;
  L    f = 0, d = 0, a = 0, v = 0;
  bool touch = false;
  bool unsure = false;   // the rib sits in a tolerance band: not compared
  bool soft_point = false; // point/normal/depth ill-conditioned: not compared
  bool soft_normal = false;
  L amp = 0;   // sampling: error of the depth per error of the probes
  L delta = 0; // rounding error of the depth, when known: area and volume are then held to it
  std::string why;
  void skip(char const *w) { unsure = true; if (why.empty()) why = w; }
};
inline std::ostream &operator<<(std::ostream &o, Out const &u) {
  return o << (u.touch ? "touch" : "free") << (u.unsure ? " (unsure: " + u.why + ")" : "") << " P" << u.P << " N" << u.N << " f=" << double(u.f) << " d=" << double(u.d) << " a=" << double(u.a) << " v=" << double(u.v);
}

inline Out no_contact(V C, L R, Pose const &p) {
  Out o;
  o.P = C - R * p.R.c[2];
  o.N = p.R.c[2];
  return o;
}
inline L seg_area(L R, L d) { return R * R * std::acos(std::max(L(-1), (R - d) / R)) - (R - d) * std::sqrt(std::max(L(0), d * (2 * R - d))); }

// rib centre in the world
inline V rib_center(Shape::Rib const &r, Pose const &p) { return p(V(0, r.y, 0)); }

inline Out flat_geometric(Shape::Rib const &r, Pose const &p, Flat const &g) {
  V C = rib_center(r, p), ax = p.R.c[1];
  Out o = no_contact(C, r.R, p);
  L s = norm(cross(ax, g.n)), h = dot(C - g.o, g.n);
  L scale = 1 + maxabs(C - g.o) + maxabs(C);
  if (s < 1e-4L) { // ground parallel to the disk
    if (std::fabs(h) < 1e-5L * scale) o.skip("ground in the rib plane");
    else if (s > 1e-12L && std::fabs(h) / s < 1.01L * r.R) o.skip("almost parallel");
    return o;
  }
  L D = std::fabs(h) / s;
  // the library counts half chords below about 1.2e-4 m (depth ~1e-7 m) as no contact
  if (std::fabs(r.R * r.R - D * D) < 1e-7L + 1e-9L * scale / s * r.R) { o.skip("chord of almost zero length"); return o; }
  if (D > r.R) return o;
  o.touch = true;
  V ng = g.n - dot(g.n, ax) * ax;
  o.P = C - (h / (s * s)) * ng;
  o.N = g.n;
  o.f = g.mu;
  o.d = r.R - D;
  o.a = 2 * std::sqrt(o.d * (2 * r.R - o.d)) * r.w;
  o.v = seg_area(r.R, o.d) * r.w;
  o.delta = 2 * r.slop + 1e-14L * scale * scale / (s * s); // a chord taken from its discriminant squares the coordinates
  return o;
}

struct Hit { bool ok = false; L z = 0; L mu = 0; bool unsure = false; };

template <class PROBE> Out sampling(Shape::Rib const &r, Pose const &p, PROBE probe) {
  V C = rib_center(r, p), ex = p.R.c[0], ey = p.R.c[1];
  Out o = no_contact(C, r.R, p);
  V q[4] = {C + (0.1L * r.R) * ex, C - (0.1L * r.R) * ex, C + (0.3L * r.w) * ey, C - (0.3L * r.w) * ey};
  L mu = 0;
  bool all = true, fuzzy = false;
  for (auto &k : q) {
    Hit h = probe(k);
    if (h.unsure) fuzzy = true;
    else if (!h.ok) all = false;
    k.z = h.z;
    mu += h.mu / 4;
  }
  if (!all) return o; // some probe surely finds nothing
  if (fuzzy) { o.skip("probe on a border"); return o; }
  V P = (q[0] + q[1] + q[2] + q[3]) / 4;
  V cr = cross(q[0] - q[1], q[2] - q[3]);
  L span = norm(q[0] - q[1]) * norm(q[2] - q[3]);
  if (norm(cr) < 1e-6L * span || norm(q[0] - q[1]) < 1e-6L * r.R || norm(q[2] - q[3]) < 1e-6L * r.w) { o.skip("degenerate probes"); return o; }
  V n = unit(cr);
  V e_x = cross(n, ey);
  if (norm(e_x) < 1e-6L) { o.skip("normal along the axle"); return o; }
  e_x = unit(e_x);
  V e_z = unit(cross(ey, e_x));
  L d = r.R * std::fabs(dot(n, e_z)) - norm(P - C);
  L scale = 1 + maxabs(C) + maxabs(P);
  L cond = std::max(L(1), span / norm(cr)) * std::max(L(1), r.R / norm(q[2] - q[3]));
  if (std::fabs(d) < 1e-9L * scale * cond) { o.skip("depth almost zero"); return o; }
  if (d < 0) return o;
  o.touch = true;
  o.P = P; o.N = n; o.f = mu; o.d = d;
  o.a = 2 * std::sqrt(d * (2 * r.R - d)) * r.w;
  o.v = seg_area(r.R, d) * r.w;
  o.amp = 2 + 2 * r.R * (1 / norm(q[0] - q[1]) + 1 / norm(q[2] - q[3])) * span / norm(cr);
  return o;
}
inline Hit probe_flat(Flat const &g, V q) {
  Hit h;
  if (std::fabs(g.n.z) < 1e-4L) { h.unsure = true; return h; }
  h.ok = true;
  h.z = g.o.z - ((q.x - g.o.x) * g.n.x + (q.y - g.o.y) * g.n.y) / g.n.z;
  h.mu = g.mu;
  return h;
}

struct Box { V lo, hi; };
inline Box box_of(Tri const &t) {
  Box b{t.v[0], t.v[0]};
  for (auto const &v : t.v) { b.lo = V(std::min(b.lo.x, v.x), std::min(b.lo.y, v.y), std::min(b.lo.z, v.z)); b.hi = V(std::max(b.hi.x, v.x), std::max(b.hi.y, v.y), std::max(b.hi.z, v.z)); }
  return b;
}
inline bool meet(Box const &a, Box const &b) {
  return a.lo.x <= b.hi.x && b.lo.x <= a.hi.x && a.lo.y <= b.hi.y && b.lo.y <= a.hi.y && a.lo.z <= b.hi.z && b.lo.z <= a.hi.z;
}
inline bool inside(Box const &a, V p, L tol = 0) {
  return p.x >= a.lo.x - tol && p.x <= a.hi.x + tol && p.y >= a.lo.y - tol && p.y <= a.hi.y + tol && p.z >= a.lo.z - tol && p.z <= a.hi.z + tol;
}
// tightest box around all rib disks
inline Box tyre_box(Shape const &s, size_t n, Pose const &p) {
  Box b;
  for (size_t i = 0; i < n; ++i) {
    auto r = s.rib(i, n);
    V C = rib_center(r, p), a = p.R.c[1];
    V h(r.R * std::sqrt(std::max(L(0), 1 - a.x * a.x)), r.R * std::sqrt(std::max(L(0), 1 - a.y * a.y)), r.R * std::sqrt(std::max(L(0), 1 - a.z * a.z)));
    V lo = C - h, hi = C + h;
    if (i == 0) b = Box{lo, hi};
    b.lo = V(std::min(b.lo.x, lo.x), std::min(b.lo.y, lo.y), std::min(b.lo.z, lo.z));
    b.hi = V(std::max(b.hi.x, hi.x), std::max(b.hi.y, hi.y), std::max(b.hi.z, hi.z));
  }
  return b;
}

// highest hit of the vertical through q, over the triangles; `near` says whether a triangle
// is surely (2), maybe (1) or surely not (0) in the wheel's neighbourhood
inline Hit probe_mesh(std::vector<Tri> const &ts, std::vector<int> const &near, V q) {
  Hit best;
  L zmaybe = -1e30L;
  bool maybe = false;
  L mutie = -1;
  for (size_t i = 0; i < ts.size(); ++i) {
    if (near[i] == 0) continue;
    Tri const &t = ts[i];
    L ax = t.v[1].x - t.v[0].x, ay = t.v[1].y - t.v[0].y, bx = t.v[2].x - t.v[0].x, by = t.v[2].y - t.v[0].y;
    L det = ax * by - ay * bx;
    L len = std::max(norm(t.v[1] - t.v[0]), std::max(norm(t.v[2] - t.v[0]), norm(t.v[2] - t.v[1])));
    Box b = box_of(t);
    L m = 2e-6L * (1 + len);
    if (q.x < b.lo.x - m || q.x > b.hi.x + m || q.y < b.lo.y - m || q.y > b.hi.y + m) continue;
    L full = norm(cross(t.v[1] - t.v[0], t.v[2] - t.v[0]));
    if (std::fabs(det) < 1e-5L * full || std::fabs(det) < 1e-5L * len * len) { maybe = true; zmaybe = std::max(zmaybe, b.hi.z); continue; }
    L px = q.x - t.v[0].x, py = q.y - t.v[0].y;
    L u = (px * by - py * bx) / det, v = (ax * py - ay * px) / det, w = 1 - u - v;
    L lo = std::min(u, std::min(v, w));
    // distance band at the border, relative to the triangle's heights
    L band = std::min(L(0.4), 4e-6L * (1 + len) * len / std::fabs(det) + 1e-9L);
    if (lo < -band) continue;
    L z = t.v[0].z + u * (t.v[1].z - t.v[0].z) + v * (t.v[2].z - t.v[0].z);
    if (lo < band || near[i] == 1) { maybe = true; zmaybe = std::max(zmaybe, z + band * len); 
      // a shared border hit at the same height and friction as a sure one changes nothing; handled below
      continue; }
    if (!best.ok || z > best.z + 1e-9L) { best.ok = true; best.z = z; best.mu = t.mu; mutie = -1; }
    else if (std::fabs(z - best.z) <= 1e-9L && t.mu != best.mu) mutie = t.mu;
  }
  if (mutie >= 0) best.unsure = true;
  if (maybe && (!best.ok || zmaybe > best.z - 1e-7L)) best.unsure = true;
  return best;
}
inline std::vector<int> neighbourhood(std::vector<Tri> const &ts, Shape const &s, size_t n, Pose const &p) {
  Box in = tyre_box(s, n, p);
  L k = std::sqrt(L(s.Rx) * s.Rx + L(s.Ly) * s.Ly) * 1.05L;
  Box out{p.t - V(k, k, k), p.t + V(k, k, k)};
  std::vector<int> r(ts.size());
  for (size_t i = 0; i < ts.size(); ++i) { Box b = box_of(ts[i]); r[i] = meet(b, in) ? 2 : meet(b, out) ? 1 : 0; }
  return r;
}

struct Piece { V a, b; V n; L mu; };
// part of triangle t inside the rib's disk
inline bool clip(Tri const &t, V C, V ax, L R, V &a, V &b, Out &o) {
  L s[3];
  for (int k = 0; k < 3; ++k) s[k] = dot(t.v[k] - C, ax);
  L len = std::max(norm(t.v[1] - t.v[0]), std::max(norm(t.v[2] - t.v[0]), norm(t.v[2] - t.v[1])));
  L band = 3e-8L * (1 + len);
  bool close = false;
  for (int k = 0; k < 3; ++k) if (std::fabs(s[k]) < band && norm(t.v[k] - C) < R + len + band) close = true;
  if (close) { // a vertex in the rib plane
    // harmless when the triangle stays clear of the disk
    V w = t.v[0];
    L best = 1e30L;
    for (int k = 0; k < 3; ++k) { // distance of the disk's centre to the edges
      V e = t.v[(k + 1) % 3] - t.v[k];
      L q = std::min(L(1), std::max(L(0), dot(C - t.v[k], e) / dot(e, e)));
      best = std::min(best, norm(t.v[k] + q * e - C));
    }
    (void)w;
    V nn = unit(cross(t.v[1] - t.v[0], t.v[2] - t.v[0]));
    best = std::min(best, std::fabs(dot(C - t.v[0], nn)));
    if (best < R + 1e-6L) o.skip("vertex in the rib plane");
    return false;
  }
  if ((s[0] > 0) == (s[1] > 0) && (s[1] > 0) == (s[2] > 0)) return false;
  V q[2];
  L graze = 0;
  int m = 0;
  for (int k = 0; k < 3; ++k) {
    int j = (k + 1) % 3;
    if ((s[k] > 0) != (s[j] > 0)) {
      q[m++] = t.v[k] + (s[k] / (s[k] - s[j])) * (t.v[j] - t.v[k]);
      // rounding of the coordinates moves the crossing along an edge almost parallel to the plane
      graze = std::max(graze, 1e-15L * (maxabs(C) + maxabs(t.v[k])) * norm(t.v[j] - t.v[k]) / std::fabs(s[k] - s[j]));
    }
  }
  V   e = q[1] - q[0];
  L   el = norm(e);
  if (el == 0) return false;
  // conditioning of the crossing line: nearly coplanar triangles
  V   nn = unit(cross(t.v[1] - t.v[0], t.v[2] - t.v[0]));
  L   sn = norm(cross(nn, ax));
  V   u = e / el;
  L   tc = dot(C - q[0], u);
  V   f = q[0] + tc * u;
  L   D = norm(f - C);
  L   err = 1e-9L / std::max(sn, L(1e-9));
  if (sn < 1e-4L && D < R + 1e-3L) { o.skip("triangle almost in the rib plane"); return false; }
  // (the library takes half chords below about 1.2e-4 m for points)
  if (std::fabs(D - R) < err || std::fabs(R * R - D * D) < 1e-7L) { if (tc > -5e-4L && tc < el + 5e-4L) o.skip("tangent piece"); return false; }
  if (D > R) return false;
  L h = std::sqrt(R * R - D * D);
  L lo = std::max(L(0), tc - h), hi = std::min(el, tc + h);
  if (hi <= lo) return false;
  if (graze > 5e-8L * R) o.skip("edge almost in the rib plane");
  if (D < 1e-8L && lo < tc && tc < hi) o.skip("piece through the rib centre");
  a = q[0] + lo * u;
  b = q[0] + hi * u;
  return true;
}

inline Out mesh_geometric(Shape::Rib const &r, Pose const &p, std::vector<Tri> const &ts, int *npieces = nullptr) {
  V   C = rib_center(r, p), ax = p.R.c[1];
  Out o = no_contact(C, r.R, p);
  L   A = 0, W = 0, F = 0, AN = 0;
  V   PP, NN, lo(1e30L, 1e30L, 1e30L), hi = -lo;
  int k = 0;
  L E = 0, f0 = 1e30L, f1 = -1e30L; // rounding error of the weights; range of positions and frictions
  for (auto const &t : ts) {
    V a, b;
    if (!clip(t, C, ax, r.R, a, b, o)) continue;
    L len = norm(b - a);
    ++k;
    V qa = p.R.tr(a - C), qb = p.R.tr(b - C);
    L ra = norm(qa), rb = norm(qb);
    L ta = std::atan2(qa.z, qa.x), tb = std::atan2(qb.z, qb.x);
    L dt = tb - ta;
    while (dt > M_PIl) dt -= 2 * M_PIl;
    while (dt < -M_PIl) dt += 2 * M_PIl;
    L tc = ta + dt / 2, td = std::fabs(dt) / 2;
    L sect = r.R * r.R * td - ra * rb * std::sin(2 * td) / 2;
    L rc = ra + rb > 0 ? 2 * ra * rb / (ra + rb) * std::cos(td) : 0;
    V rad(std::cos(tc), 0, std::sin(tc));
    V P = C + p.R * (rc * rad);
    V dir = p.R * (-rad);
    V N = unit(dir + dot(t.n(), ax) * ax);
    if (ra < 1e-4L || rb < 1e-4L) o.skip("piece ends at the rib centre");
    L w = sect * r.w;
    A += len * r.w;
    W += w;
    AN += std::fabs(w);
    PP = PP + w * P;
    NN = NN + w * N;
    F += w * t.mu;
    E += r.R * r.R * r.w * 1e-15L * (1 + maxabs(C)) * (1 / std::max(ra, 1e-6L) + 1 / std::max(rb, 1e-6L));
    f0 = std::min<L>(f0, t.mu); f1 = std::max<L>(f1, t.mu);
    for (V q : {a, b}) { lo = V(std::min(lo.x, q.x), std::min(lo.y, q.y), std::min(lo.z, q.z)); hi = V(std::max(hi.x, q.x), std::max(hi.y, q.y), std::max(hi.z, q.z)); }
  }
  if (npieces) *npieces = k;
  if (k == 0) return o;
  if (A < 1e-6L) { o.skip("almost no contact"); return o; }
  if (W < 1e-9L * r.R * r.R * r.w) { o.skip("pieces without volume"); return o; }
  if (k > 1 && E * (norm(hi - lo) / r.R + f1 - f0) > 1e-7L * W) { o.skip("weights lost in rounding"); return o; }
  o.touch = true;
  o.a = A;
  o.v = W;
  o.f = F / W;
  o.P = PP / W;
  o.d = r.R - norm(o.P - C);
  if (norm(NN) < 1e-4L * W) o.soft_normal = true;
  o.N = unit(NN);
  return o;
}

// ----- reading the library's answers -----
inline Out read(enve::shell const &s, size_t i) {
  Out u;
  acme::point P;
  acme::vec3  N;
  double f, d, a, v;
  s.contactPoint(i, P); s.contactNormal(i, N); s.contactFriction(i, f); s.contactDepth(i, d); s.contactArea(i, a); s.contactVolume(i, v);
  u.P = V::of(P); u.N = V::of(N); u.f = f; u.d = d; u.a = a; u.v = v;
  u.touch = a != 0 || v != 0 || d != 0 || f != 0;
  return u;
}
inline std::vector<Out> read(enve::shell const &s) {
  std::vector<Out> r;
  for (size_t i = 0; i < s.size(); ++i) r.push_back(read(s, i));
  return r;
}

// "" when the answer agrees with the model within tolerance
inline std::string compare(Out const &got, Out const &ref, L R, L w, L rel = 1e-6L, L coord = 1) {
  std::ostringstream os;
  os.precision(15);
  L sc = rel * R + 1e-11L * coord;
  bool bad = false;
  auto near = [&](L a, L b, L tol) { return std::fabs(a - b) <= tol; };
  if (got.touch != ref.touch) bad = true;
  L ta = rel * (R * w) + 1e-6L * ref.a, tv = rel * (R * R * w) + 1e-6L * ref.v, td = sc;
  if (ref.delta > 0 && ref.touch) {
    L h = std::sqrt(std::max(0.0L, ref.d * (2 * R - ref.d)));
    ta = std::min(ta, w * (2 * R / h * ref.delta + 1e-14L * R));
    tv = std::min(tv, w * (4 * h * ref.delta + 1e-14L * R * R * (2 + R / h)));
    td = std::min(td, ref.delta);
  }
  if (!near(got.a, ref.a, ta)) bad = true;
  if (!near(got.v, ref.v, tv)) bad = true;
  if (!near(got.f, ref.f, rel * (1 + std::fabs(ref.f)))) bad = true;
  if (!ref.soft_point) {
    if (!(maxabs(got.P - ref.P) <= sc)) bad = true;
    if (!near(got.d, ref.d, td)) bad = true;
    if (!ref.soft_normal && !(maxabs(got.N - ref.N) <= 10 * rel + 1e-10L * coord)) bad = true;
  }
  if (bad) { os << "\n  got      " << got << "\n  expected " << ref; return os.str(); }
  return "";
}

} // namespace mdl
