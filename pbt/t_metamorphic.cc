// C05 C10: relations between evaluations of related scenes
#include "gen.hh"
using namespace mdl;
using pbt::Case;

static std::vector<Out> run(Shape const &s, size_t n, Pose const &p, std::vector<Tri> const &ts, std::string const &m, bool &ret, std::vector<int> const *ids = nullptr) {
  enve::ground::mesh G(gen::libtris(ts, ids));
  auto S = gen::lib(s, n);
  ret = S->setup(G, aff(p), m);
  return read(*S);
}
static std::vector<Out> reference(Shape const &s, size_t n, Pose const &p, std::vector<Tri> const &ts, std::string const &m) {
  std::vector<Out> r;
  auto near = neighbourhood(ts, s, n, p);
  for (size_t i = 0; i < n; ++i)
    r.push_back(m == "geometric" ? mesh_geometric(s.rib(i, n), p, ts) : sampling(s.rib(i, n), p, [&](V q) { return probe_mesh(ts, near, q); }));
  return r;
}
// unsure flags: only these are taken from the reference model
static bool same(Case &c, Shape const &s, size_t n, Pose const &p, std::vector<Out> const &a, std::vector<Out> b, std::vector<Out> const &ref, bool integral_only) {
  bool hit = false;
  for (size_t i = 0; i < n; ++i) {
    if (ref[i].unsure) { c.label("unsure:" + ref[i].why); continue; }
    auto r = s.rib(i, n);
    Out x = b[i];
    x.soft_normal = ref[i].soft_normal;
    x.soft_point = integral_only;
    std::string e = compare(a[i], x, r.R, r.w, 2e-6L, gen::coord(p));
    CHECK(e.empty(), "rib " << i << " of " << n << " differs" << e);
    hit |= a[i].touch;
  }
  if (hit) c.hit();
  c.label(hit ? "touch" : "free");
  return hit;
}

PBT(C05, order_and_padding, 250000, 8000000, "some rib touches and the mesh has at least two triangles") {
  Shape s = gen::shape(c);
  size_t n = gen::ribs(c, 12);
  Pose p = gen::pose(c, false);
  auto ts = gen::mesh(c, s, p, 40);
  std::string m = c.flag() ? "sampling" : "geometric";
  gen::note(c, s, n, p);
  c.note("mesh", ts);
  c.note("method", m);
  std::vector<Tri> us = ts;
  std::vector<int> ids;
  for (size_t i = us.size(); i > 1; --i) std::swap(us[i - 1], us[c.u(i)]);
  for (auto &t : us) { int k = int(c.u(6)); if (std::fabs(t.n().z) < 1e-6L) continue; /* the side a wall faces follows its vertex order */ if (k & 1) std::swap(t.v[0], t.v[1]); if (k >= 2) std::swap(t.v[k >= 4 ? 0 : 1], t.v[2]); }
  int pad = int(c.size(0, 30));
  for (int i = 0; i < pad; ++i) { // out of the wheel's reach on at least one axis
    L k = (s.Rx + s.Ly) * 1.2L;
    V o = p.t;
    int ax = int(c.u(3));
    L far = k + k * c.real(0.02, 50), sg = c.flag() ? 1 : -1;
    L sp = far - k;
    V q[3];
    for (auto &v : q) v = o + V(c.sreal(3), c.sreal(3), c.sreal(3));
    for (auto &v : q) { L d = sg * (far + 0.99L * sp * L(c.sreal(1)) ); if (ax == 0) v.x = o.x + d; else if (ax == 1) v.y = o.y + d; else v.z = o.z + d; }
    size_t at = c.u(us.size() + 1), had = us.size();
    gen::add(us, q[0], q[1], q[2], gen::friction(c));
    if (us.size() > had) std::rotate(us.begin() + long(at), us.end() - 1, us.end());
  }
  c.label(pad ? "padded" : "not padded");
  for (size_t i = 0; i < us.size(); ++i) ids.push_back(int(c.u(3)) == 0 ? int(c.u(9)) : int(i));
  bool r1, r2;
  auto a = run(s, n, p, us, m, r2, &ids);
  auto b = run(s, n, p, ts, m, r1);
  auto ref = reference(s, n, p, ts, m);
  bool all = true;
  for (auto const &o : ref) all &= !o.unsure;
  same(c, s, n, p, a, b, ref, false);
  if (all) CHECK(r1 == r2, "setup() returned " << r1 << " and " << r2);
  if (ts.size() < 2) c.nontrivial = false;
}

PBT(C05, subdivision, 250000, 8000000, "some rib touches a subdivided mesh") {
  Shape s = gen::shape(c);
  size_t n = gen::ribs(c, 12);
  Pose p = gen::pose(c, false);
  auto ts = gen::mesh(c, s, p, 24);
  std::string m = c.flag() ? "sampling" : "geometric";
  gen::note(c, s, n, p);
  c.note("mesh", ts);
  c.note("method", m);
  std::vector<Tri> us = ts;
  int cuts = int(c.size(1, 30));
  for (int k = 0; k < cuts; ++k) {
    size_t i = c.u(us.size());
    Tri t = us[i];
    auto sub = [&](V a, V b, V d) { Tri q = t; q.v[0] = gen::dbl(a); q.v[1] = gen::dbl(b); q.v[2] = gen::dbl(d); return q; };
    std::vector<Tri> parts;
    if (c.flag()) {
      L u = c.real(0.2, 0.5), v = c.real(0.2, 0.4);
      V g = t.v[0] + u * (t.v[1] - t.v[0]) + v * (t.v[2] - t.v[0]);
      g = gen::dbl(g);
      parts = {sub(t.v[0], t.v[1], g), sub(t.v[1], t.v[2], g), sub(t.v[2], t.v[0], g)};
    } else {
      int e = int(c.u(3));
      V g = gen::dbl(t.v[e] + L(c.real(0.25, 0.75)) * (t.v[(e + 1) % 3] - t.v[e]));
      parts = {sub(t.v[e], g, t.v[(e + 2) % 3]), sub(g, t.v[(e + 1) % 3], t.v[(e + 2) % 3])};
    }
    bool ok = true;
    for (auto &q : parts) {
      L len = std::max(norm(q.v[1] - q.v[0]), std::max(norm(q.v[2] - q.v[0]), norm(q.v[2] - q.v[1])));
      ok &= len > 4e-3L && norm(cross(q.v[1] - q.v[0], q.v[2] - q.v[0])) > 2e-2L * len * len;
    }
    if (!ok) continue;
    us[i] = parts[0];
    us.insert(us.end(), parts.begin() + 1, parts.end());
  }
  bool r1, r2;
  auto a = run(s, n, p, us, m, r2);
  auto b = run(s, n, p, ts, m, r1);
  auto ref = reference(s, n, p, ts, m), ref2 = reference(s, n, p, us, m);
  for (size_t i = 0; i < n; ++i) {
    if (ref2[i].unsure) ref[i].skip(ref2[i].why.c_str());
    // sampling looks at triangles near the wheel: a large triangle is near as a whole, its far pieces are not
    else if (m == "sampling" && !ref[i].unsure && !compare(ref2[i], ref[i], 1, 1, 1e-6L).empty()) ref[i].skip("surface out of reach");
  }
  same(c, s, n, p, a, b, ref, m == "geometric");
  if (us.size() == ts.size()) c.nontrivial = false;
}

PBT(C05, plane_mesh_is_flat, 250000, 8000000, "some rib touches the plane") {
  Shape s = gen::shape(c);
  size_t n = gen::ribs(c, 12);
  Pose p = gen::pose(c, false);
  Flat g = gen::flat(c, s, p, 0.9);
  auto G = gen::lib(g);
  std::string m = c.flag() ? "sampling" : "geometric";
  gen::note(c, s, n, p);
  c.note("method", m);
  // a grid in plane coordinates covering the wheel's reach
  V e1 = unit(cross(std::fabs(g.n.x) < 0.8L ? V(1, 0, 0) : V(0, 1, 0), g.n)), e2 = cross(g.n, e1);
  L a0 = c.sreal(3);
  V u = std::cos(a0) * e1 + std::sin(a0) * e2, v = cross(g.n, u);
  V o = p.t - dot(p.t - g.o, g.n) * g.n;
  L ext = (s.Rx + s.Ly) * 4;
  int k = int(c.range(1, 9));
  std::vector<L> xs, ys;
  L jit = c.real(0, 0.45);
  for (int i = 0; i <= k; ++i) { xs.push_back(-ext + 2 * ext * (i + (i && i < k ? jit * L(c.sreal(1)) : 0)) / k); ys.push_back(-ext + 2 * ext * (i + (i && i < k ? jit * L(c.sreal(1)) : 0)) / k); }
  std::vector<Tri> ts;
  for (int i = 0; i < k; ++i)
    for (int j = 0; j < k; ++j) {
      V A = o + xs[i] * u + ys[j] * v, B = o + xs[i + 1] * u + ys[j] * v, D = o + xs[i + 1] * u + ys[j + 1] * v, E = o + xs[i] * u + ys[j + 1] * v;
      if (c.flag()) { gen::add(ts, A, B, D, g.mu); gen::add(ts, A, D, E, g.mu); } else { gen::add(ts, A, B, E, g.mu); gen::add(ts, B, D, E, g.mu); }
    }
  c.note("mesh", ts);
  bool r1, r2;
  auto a = run(s, n, p, ts, m, r1);
  auto S = gen::lib(c, s, n);
  r2 = S->setup(*G, aff(p), m);
  auto b = read(*S);
  auto ref = reference(s, n, p, ts, m);
  bool all = true;
  for (size_t i = 0; i < n; ++i) {
    Out f = m == "geometric" ? flat_geometric(s.rib(i, n), p, g) : sampling(s.rib(i, n), p, [&](V q) { return probe_flat(g, q); });
    if (f.unsure) ref[i].skip(f.why.c_str());
    // a probe may meet the plane outside the wheel's neighbourhood, where a mesh is not looked at
    else if (m == "sampling" && !ref[i].unsure && !compare(ref[i], f, 1, 1, 1e-6L).empty()) ref[i].skip("surface out of reach");
    all &= !ref[i].unsure;
  }
  same(c, s, n, p, a, b, ref, m == "geometric");
  if (all) CHECK(r1 == r2, "setup() returned " << r1 << " on the mesh and " << r2 << " on the plane");
}

// ---------------------------------------------------------------------------
static M relrot(enve::shell const &sh, size_t i) {
  acme::vec3 a;
  sh.relativeAngles(i, a);
  return rotZXY(a.x() + sh.ribAngle(i), a.y(), a.z());
}
struct Snap { std::vector<Out> o; std::vector<M> rel; bool ret; };
static Snap snap(enve::shell const &sh, bool ret) {
  Snap k;
  k.o = read(sh);
  k.ret = ret;
  for (size_t i = 0; i < sh.size(); ++i) k.rel.push_back(relrot(sh, i));
  return k;
}
static void moved(Case &c, Shape const &s, size_t n, Pose const &p, Snap const &a, Snap const &b, Pose const &T, std::vector<Out> const &ref, L far) {
  bool hit = false, all = true;
  for (size_t i = 0; i < n; ++i) {
    all &= !ref[i].unsure;
    if (ref[i].unsure) continue;
    auto r = s.rib(i, n);
    Out x = a.o[i];
    x.P = T(x.P);
    x.N = T.R * x.N;
    x.soft_normal = ref[i].soft_normal;
    std::string e = compare(b.o[i], x, r.R, r.w, 4e-6L, far);
    CHECK(e.empty(), "rib " << i << " of " << n << ": moved scene differs" << e);
    if (!x.soft_normal && norm(cross(x.N, (T.R * p.R).c[1])) > 1e-3L) CHECK(diff(a.rel[i], b.rel[i]) < 1e-4L + 1e-9L * far, "rib " << i << ": relative angles change with the motion");
    hit |= x.touch;
  }
  if (all) CHECK(a.ret == b.ret, "setup() returned " << a.ret << " before and " << b.ret << " after the motion");
  if (hit) c.hit();
  c.label(hit ? "touch" : "free");
}
static Pose motion(Case &c, bool vertical_only) {
  Pose T;
  T.R = rot(V(0, 0, 1), c.sreal(3.14));
  if (!vertical_only) T.R = rot(unit(V(c.sreal(1), c.sreal(1), c.sreal(0.3)) + V(1e-9L, 0, 0)), c.sreal(0.9)) * T.R;
  T.t = V(c.sreal(50), c.sreal(50), c.sreal(20));
  return pose_of(aff(T));
}
static Pose moved_pose(Pose const &p, Pose const &T) {
  Pose q;
  q.R = T.R * p.R;
  q.t = T(p.t);
  return pose_of(aff(q));
}

PBT(C10, mesh_motion, 250000, 8000000, "some rib touches the mesh") {
  Shape s = gen::shape(c);
  size_t n = gen::ribs(c, 12);
  Pose p = gen::pose(c, false);
  std::string m = c.flag() ? "sampling" : "geometric";
  Pose T = motion(c, m == "sampling" || c.flag());
  auto ts = gen::mesh(c, s, p, 40);
  gen::note(c, s, n, p);
  c.note("mesh", ts);
  c.note("method", m);
  if (c.verbose) c.log << "motion t" << T.t << " x" << T.R.c[0] << " z" << T.R.c[2] << "\n";
  std::vector<Tri> us = ts;
  for (auto &t : us) {
    V n0 = t.n();
    for (auto &v : t.v) v = gen::dbl(T(v));
    V n1 = T.R * n0;
    if (n1.z < 1e-6L || n0.z < 1e-6L) { // the ground must keep facing up (walls: about the vertical only)
      bool vert = std::fabs(T.R.c[2].z - 1) < 1e-12L;
      if (!vert || n0.z < 1e-6L) c.discard("ground turns down");
    }
  }
  Pose q = moved_pose(p, T);
  bool r1, r2;
  enve::ground::mesh G1(gen::libtris(ts)), G2(gen::libtris(us));
  auto S1 = gen::lib(c, s, n), S2 = gen::lib(c, s, n);
  r1 = S1->setup(G1, aff(p), m);
  r2 = S2->setup(G2, aff(q), m);
  auto ref = reference(s, n, p, ts, m), ref2 = reference(s, n, q, us, m);
  for (size_t i = 0; i < n; ++i) if (ref2[i].unsure) ref[i].skip("after motion");
  moved(c, s, n, p, snap(*S1, r1), snap(*S2, r2), T, ref, gen::coord(p) + gen::coord(q));
}

PBT(C10, flat_motion, 600000, 20000000, "some rib touches the plane") {
  Shape s = gen::shape(c);
  size_t n = gen::ribs(c, 12);
  Pose p = gen::pose(c, false);
  std::string m = c.flag() ? "sampling" : "geometric";
  Pose T = motion(c, m == "sampling" || c.flag());
  Flat g = gen::flat(c, s, p, 1.2);
  auto G1 = gen::lib(g);
  Flat h;
  h.mu = g.mu;
  h.o = gen::dbl(T(g.o));
  h.n = T.R * g.n;
  if (h.n.z < 0.01L) c.discard("ground turns down");
  auto G2 = gen::lib(h);
  gen::note(c, s, n, p);
  c.note("method", m);
  Pose q = moved_pose(p, T);
  auto S1 = gen::lib(c, s, n), S2 = gen::lib(c, s, n);
  bool r1 = S1->setup(*G1, aff(p), m), r2 = S2->setup(*G2, aff(q), m);
  std::vector<Out> ref;
  auto model = [&](Flat const &f, Pose const &w, size_t i) { return m == "geometric" ? flat_geometric(s.rib(i, n), w, f) : sampling(s.rib(i, n), w, [&](V k) { return probe_flat(f, k); }); };
  for (size_t i = 0; i < n; ++i) { Out f = model(g, p, i), e = model(h, q, i); if (e.unsure) f.skip("after motion"); ref.push_back(f); }
  moved(c, s, n, p, snap(*S1, r1), snap(*S2, r2), T, ref, gen::coord(p) + gen::coord(q));
}

PBT(C10, spin, 300000, 10000000, "some rib touches and the spin is not null") {
  Shape s = gen::shape(c);
  size_t n = gen::ribs(c, 12);
  Pose p = gen::pose(c, false), q = p;
  L th = c.sreal(3.1415);
  q.R = p.R * rot(V(0, 1, 0), th);
  q = pose_of(aff(q));
  gen::note(c, s, n, p);
  if (c.verbose) c.log << "spin " << double(th) << "\n";
  auto S1 = gen::lib(c, s, n), S2 = gen::lib(c, s, n);
  std::vector<Out> ref, ref2;
  bool r1, r2;
  if (c.flag(2, 3)) {
    auto ts = gen::mesh(c, s, p, 40);
    c.note("mesh", ts);
    enve::ground::mesh G(gen::libtris(ts));
    r1 = S1->setup(G, aff(p), "geometric"); r2 = S2->setup(G, aff(q), "geometric");
    ref = reference(s, n, p, ts, "geometric"); ref2 = reference(s, n, q, ts, "geometric");
  } else {
    Flat g = gen::flat(c, s, p, 1.2);
    auto G = gen::lib(g);
    r1 = S1->setup(*G, aff(p), "geometric"); r2 = S2->setup(*G, aff(q), "geometric");
    for (size_t i = 0; i < n; ++i) { ref.push_back(flat_geometric(s.rib(i, n), p, g)); ref2.push_back(flat_geometric(s.rib(i, n), q, g)); }
  }
  bool all = true;
  for (size_t i = 0; i < n; ++i) {
    if (ref[i].unsure || ref2[i].unsure) { all = false; continue; }
    Out a = read(*S1, i), b = read(*S2, i);
    CHECK(a.touch == b.touch, "rib " << i << ": touching state changes with the spin");
    if (!a.touch) continue;
    auto r = s.rib(i, n);
    a.soft_normal = ref[i].soft_normal;
    std::string e = compare(b, a, r.R, r.w, 4e-6L, gen::coord(p));
    CHECK(e.empty(), "rib " << i << " of " << n << " changes with the spin" << e);
    if (std::fabs(th) > 1e-3L) c.hit();
  }
  if (all) CHECK(r1 == r2, "setup() returned " << r1 << " and " << r2);
}

// recorded defect: a mesh edge lying exactly in the plane of a rib is counted for both its triangles
PBT_KNOWN(C05, edge_in_rib_plane_counts_twice) {
  double a[2];
  for (int k = 0; k < 2; ++k) {
    double y = k ? 0.01 : 0.0;
    acme::point A(-1, y - 1, 0), B(1, y - 1, 0), D(1, y, 0), E(-1, y, 0), F(1, y + 1, 0), G(-1, y + 1, 0);
    enve::triangleground::vecptr v;
    acme::point q[4][3] = {{A, B, D}, {A, D, E}, {E, D, F}, {E, F, G}};
    for (int i = 0; i < 4; ++i) v.push_back(std::make_shared<enve::triangleground const>(i, 1.0, q[i][0], q[i][1], q[i][2]));
    enve::ground::mesh M(v);
    enve::shell S(1, 0.3, 2, 0.1, 4, 0.1);
    acme::affine p; p.setIdentity(); p.translate(acme::vec3(0, 0, 0.28));
    S.setup(M, p, "geometric");
    S.contactArea(a[k]);
  }
  std::ostringstream o;
  if (std::fabs(a[0] - a[1]) > 1e-6) o << "contact area of the same plane is " << a[0] << " with an edge in the rib's plane, " << a[1] << " otherwise";
  return o.str();
}
