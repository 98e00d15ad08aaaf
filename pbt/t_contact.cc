// C01 C02 C03 C04 C06 C07: per-rib contact against the reference model
#include "gen.hh"
using namespace mdl;
using pbt::Case;

// sum of reference touching states: 1 all sure and some touch, 0 all sure and free, -1 unknown
static int touching(std::vector<Out> const &ref) {
  bool unsure = false;
  for (auto const &o : ref) { if (!o.unsure && o.touch) return 1; unsure |= o.unsure; }
  return unsure ? -1 : 0;
}
static void against(Case &c, enve::shell const &sh, Shape const &s, size_t n, Pose const &p, std::vector<Out> const &ref, bool ret, L rel) {
  int nt = 0, nu = 0;
  for (size_t i = 0; i < n; ++i) {
    auto r = s.rib(i, n);
    Out got = read(sh, i);
    if (ref[i].unsure) { ++nu; c.label("unsure:" + ref[i].why); continue; }
    if (ref[i].touch) ++nt;
    if (c.verbose && i < 2) c.log << "rib " << i << ": " << got << "\n";
    std::string e = compare(got, ref[i], r.R, r.w, rel, gen::coord(p));
    CHECK(e.empty(), "rib " << i << " of " << n << e);
  }
  if (nt) c.hit();
  c.label(nt == 0 ? "free" : nt == int(n) ? "all ribs touch" : "some ribs touch");
  int t = touching(ref);
  if (t >= 0) CHECK(ret == (t == 1), "setup() returned " << ret << " but the touching state is " << t);
  (void)nu;
}

PBT(C01, flat_geometric, 3000000, 80000000, "some rib touches the plane") {
  Shape s = gen::shape(c);
  size_t n = gen::ribs(c);
  Pose p = gen::pose(c, false);
  Flat g = gen::flat(c, s, p, 1.5);
  auto G = gen::lib(g);
  auto S = gen::lib(c, s, n);
  gen::note(c, s, n, p);
  if (c.verbose) c.log << "flat o" << g.o << " n" << g.n << " mu=" << g.mu << "\n";
  bool ret = S->setup(*G, aff(p), "geometric");
  std::vector<Out> ref;
  for (size_t i = 0; i < n; ++i) ref.push_back(flat_geometric(s.rib(i, n), p, g));
  against(c, *S, s, n, p, ref, ret, 1e-6L);
}

PBT(C02, flat_sampling, 3000000, 80000000, "some rib touches the plane") {
  Shape s = gen::shape(c);
  size_t n = gen::ribs(c);
  Pose p = gen::pose(c, c.flag(3, 4));
  Flat g = gen::flat(c, s, p, c.flag(1, 3) ? 1.3 : 0.5);
  auto G = gen::lib(g);
  auto S = gen::lib(c, s, n);
  gen::note(c, s, n, p);
  if (c.verbose) c.log << "flat o" << g.o << " n" << g.n << " mu=" << g.mu << "\n";
  bool ret = S->setup(*G, aff(p), "sampling");
  std::vector<Out> ref;
  for (size_t i = 0; i < n; ++i) ref.push_back(sampling(s.rib(i, n), p, [&](V q) { return probe_flat(g, q); }));
  for (size_t i = 0; i < n; ++i) ref[i].delta = 2 * s.rib(i, n).slop + 5e-14L * (gen::coord(p) + maxabs(g.o)) / g.n.z * ref[i].amp;
  against(c, *S, s, n, p, ref, ret, 1e-6L);
}

static std::vector<int> ids(Case &c, size_t k) {
  std::vector<int> v(k);
  bool odd = c.flag(1, 4);
  for (size_t i = 0; i < k; ++i) v[i] = odd ? int(c.range(0, 2 * int(k))) : int(i);
  return v;
}

PBT(C03, mesh_geometric, 700000, 25000000, "some rib cuts at least one triangle inside its disk") {
  Shape s = gen::shape(c);
  size_t n = gen::ribs(c, 16);
  Pose p = gen::pose(c, false);
  auto ts = gen::mesh(c, s, p);
  auto id = ids(c, ts.size());
  enve::ground::mesh G(gen::libtris(ts, &id));
  auto S = gen::lib(c, s, n);
  gen::note(c, s, n, p);
  c.note("mesh", ts);
  bool ret = S->setup(G, aff(p), "geometric");
  std::vector<Out> ref;
  int most = 0;
  for (size_t i = 0; i < n; ++i) { int k; ref.push_back(mesh_geometric(s.rib(i, n), p, ts, &k)); most = std::max(most, k); }
  c.label(most > 3 ? "pieces>3" : most > 1 ? "pieces 2-3" : "pieces<=1");
  against(c, *S, s, n, p, ref, ret, 2e-6L);
}

PBT(C04, mesh_sampling, 400000, 15000000, "some rib touches the mesh") {
  Shape s = gen::shape(c);
  size_t n = gen::ribs(c, 16);
  Pose p = gen::pose(c, c.flag(3, 4));
  auto ts = gen::mesh(c, s, p);
  auto id = ids(c, ts.size());
  enve::ground::mesh G(gen::libtris(ts, &id));
  auto S = gen::lib(c, s, n);
  gen::note(c, s, n, p);
  c.note("mesh", ts);
  bool ret = S->setup(G, aff(p), "sampling");
  auto near = neighbourhood(ts, s, n, p);
  std::vector<Out> ref;
  for (size_t i = 0; i < n; ++i) ref.push_back(sampling(s.rib(i, n), p, [&](V q) { return probe_mesh(ts, near, q); }));
  against(c, *S, s, n, p, ref, ret, 2e-6L);
}

static std::string method(Case &c) { return c.flag() ? "sampling" : "geometric"; }

// C06 and C07 judge the answers by themselves, without the reference model
static bool is_free(Out const &o) { return o.d == 0 && o.a == 0 && o.v == 0 && o.f == 0; }
static void flag_and_free(Case &c, enve::shell const &sh, Shape const &s, Pose const &p, bool ret) {
  size_t n = sh.size();
  int touch = 0, freeribs = 0;
  for (size_t i = 0; i < n; ++i) {
    Out o = read(sh, i);
    if (!is_free(o)) { ++touch; continue; }
    ++freeribs;
    auto r = s.rib(i, n);
    V P = rib_center(r, p) - r.R * p.R.c[2];
    CHECK(maxabs(o.P - P) < 1e-9L * gen::coord(p), "free rib " << i << " has point " << o.P << ", expected " << P);
    CHECK(maxabs(o.N - p.R.c[2]) < 1e-12L, "free rib " << i << " has normal " << o.N);
  }
  CHECK(ret == (touch > 0), "setup() returned " << ret << " with " << touch << " touching ribs of " << n);
  c.label(touch == 0 ? "free" : freeribs == 0 ? "all ribs touch" : "some ribs touch");
  if (touch && freeribs) c.hit();
}
PBT(C06, setup_flag_flat, 2000000, 40000000, "some ribs touch and some are free") {
  Shape s = gen::shape(c);
  size_t n = gen::ribs(c);
  Pose p = gen::pose(c, false);
  Flat g = gen::flat(c, s, p, 1.2);
  auto G = gen::lib(g);
  auto S = gen::lib(c, s, n);
  gen::note(c, s, n, p);
  bool ret = S->setup(*G, aff(p), method(c));
  flag_and_free(c, *S, s, p, ret);
}
PBT(C06, setup_flag_mesh, 400000, 8000000, "some ribs touch and some are free") {
  Shape s = gen::shape(c);
  size_t n = gen::ribs(c);
  Pose p = gen::pose(c, false);
  auto ts = gen::mesh(c, s, p);
  if (c.flag(1, 10)) for (auto &t : ts) for (auto &v : t.v) v = gen::dbl(v + V(0, 0, -10 * s.Rx));
  auto S = gen::lib(c, s, n);
  gen::note(c, s, n, p);
  c.note("mesh", ts);
  if (c.flag(1, 6)) { // a shell which has already met the ground elsewhere
    Pose q = p;
    q.t = q.t + s.Rx * V(c.sreal(0.2), c.sreal(0.2), c.sreal(0.2));
    S->setup(enve::ground::mesh(gen::libtris(ts)), aff(pose_of(aff(q))), method(c));
    c.label("used shell");
    if (c.flag(1, 3)) { ts.clear(); c.label("mesh without triangles"); }
  }
  std::unique_ptr<enve::ground::mesh> G(ts.empty() && c.flag() ? new enve::ground::mesh() : new enve::ground::mesh(gen::libtris(ts)));
  bool ret = S->setup(*G, aff(p), method(c));
  if (ts.empty()) {
    CHECK(!ret, "setup() on a mesh without triangles reports a contact");
    auto const &A = S->transformation();
    CHECK((A.matrix() - aff(p).matrix()).cwiseAbs().maxCoeff() == 0, "the pose is not the one given when the mesh has no triangles");
  }
  flag_and_free(c, *S, s, p, ret);
}
PBT(C06, unknown_method, 100000, 1000000, "the wheel is close to the ground") {
  static std::vector<std::string> const names{"", "Geometric", "geometric ", "sample", "samplin", "sampling2", "none", "GEOMETRIC", "geometricsampling", "0"};
  Shape s = gen::shape(c);
  size_t n = gen::ribs(c);
  Pose p = gen::pose(c, false);
  std::string m = c.pick(names);
  bool thrown = false, flat = c.flag();
  auto S = gen::lib(c, s, n);
  c.note("method", m);
  std::string what;
  Flat g = gen::flat(c, s, p, 1.0);
  auto G = gen::lib(g);
  // large triangle through the wheel: the mesh is always in reach
  std::vector<Tri> ts;
  gen::add(ts, p.t + V(-3, -3, -0.1L * s.Rx), p.t + V(3, -3, -0.1L * s.Rx), p.t + V(0, 4, -0.1L * s.Rx), 1);
  enve::ground::mesh GM(gen::libtris(ts));
  try { if (flat) S->setup(*G, aff(p), m); else S->setup(GM, aff(p), m); }
  catch (std::exception const &) { thrown = true; }
  CHECK(thrown, "unknown method '" << m << "' accepted");
  c.hit();
}

static void well_formed(Case &c, enve::shell const &sh, Shape const &s, Pose const &p, L mulo, L muhi) {
  size_t n = sh.size();
  int touch = 0;
  auto fin = [](V v) { return std::isfinite(v.x) && std::isfinite(v.y) && std::isfinite(v.z); };
  L cs = gen::coord(p);
  for (size_t i = 0; i < n; ++i) {
    Out o = read(sh, i);
    auto r = s.rib(i, n);
    CHECK(fin(o.P) && fin(o.N) && std::isfinite(o.f) && std::isfinite(o.d) && std::isfinite(o.a) && std::isfinite(o.v), "rib " << i << ": output is not finite: " << o);
    CHECK(std::fabs(norm(o.N) - 1) < 1e-9L, "rib " << i << ": normal " << o.N << " is not a unit vector");
    CHECK(o.a >= 0 && o.v >= 0, "rib " << i << ": negative area or volume: " << o);
    CHECK(o.d >= -1e-9L * cs && o.d <= r.R * (1 + 1e-9L), "rib " << i << ": depth " << double(o.d) << " out of [0, " << double(r.R) << "]");
    acme::affine A;
    acme::vec3   ang;
    sh.contactPointAffine(i, A);
    sh.relativeAngles(i, ang);
    CHECK(A.matrix().allFinite() && ang.allFinite(), "rib " << i << ": contact frame or angles not finite");
    if (is_free(o)) continue;
    ++touch;
    CHECK(o.f >= mulo - 1e-6L && o.f <= muhi + 1e-6L, "rib " << i << ": friction " << double(o.f) << " outside the ground's range [" << double(mulo) << ", " << double(muhi) << "]");
    CHECK(norm(o.P - rib_center(r, p)) <= r.R * (1 + 1e-7L) + 1e-9L * cs, "rib " << i << ": contact point outside the rib: " << o);
    CHECK(o.a > 0 || o.v > 0, "rib " << i << ": touching without area and volume: " << o);
  }
  acme::point P; acme::vec3 N, ang; double f, d, a, v; acme::affine A;
  sh.contactPoint(P); sh.contactNormal(N); sh.contactFriction(f); sh.contactDepth(d); sh.contactArea(a); sh.contactVolume(v); sh.contactPointAffine(A); sh.relativeAngles(ang);
  CHECK(P.allFinite() && N.allFinite() && std::isfinite(f) && std::isfinite(d) && std::isfinite(a) && std::isfinite(v), "a shell output is not finite");
  CHECK(A.matrix().allFinite() && ang.allFinite(), "shell contact frame or angles not finite");
  CHECK(std::fabs(N.norm() - 1) < 1e-9, "shell normal is not a unit vector: " << V::of(N));
  CHECK(a >= 0 && v >= 0 && d >= -1e-9 * double(cs) && d <= s.Rx * (1 + 1e-9), "shell depth, area or volume out of range: d=" << d << " a=" << a << " v=" << v);
  if (touch) c.hit();
  c.label(touch ? "touch" : "free");
}
// opposite normals could cancel in a mean; such scenes are not claimed
static bool cancels(enve::shell const &sh) {
  V s, w; L v = 0;
  for (size_t i = 0; i < sh.size(); ++i) { Out o = read(sh, i); s = s + o.N; w = w + o.v * o.N; v += o.v; }
  return norm(s) < 1e-6L * sh.size() || (v > 1e-12L && norm(w) < 1e-6L * v);
}
PBT(C07, well_formed_flat, 2000000, 40000000, "some rib touches") {
  Shape s = gen::shape(c);
  size_t n = gen::ribs(c);
  Pose p = gen::pose(c, false);
  Flat g = gen::flat(c, s, p, 1.45);
  auto G = gen::lib(g);
  auto S = gen::lib(c, s, n);
  gen::note(c, s, n, p);
  if (c.verbose) c.log << "flat o" << g.o << " n" << g.n << " mu=" << g.mu << "\n";
  S->setup(*G, aff(p), method(c));
  if (norm(cross(p.R.c[1], g.n)) < 1e-9L) c.label("lying flat on the ground");
  if (cancels(*S)) c.discard("normals cancel");
  well_formed(c, *S, s, p, g.mu, g.mu);
}
PBT(C07, well_formed_mesh, 600000, 15000000, "some rib touches") {
  Shape s = gen::shape(c);
  size_t n = gen::ribs(c);
  Pose p = gen::pose(c, false);
  auto ts = gen::mesh(c, s, p);
  // walls, including ones through the axle, and grids aligned with the ribs
  if (c.flag(1, 5)) {
    V d(std::cos(L(c.sreal(3))), std::sin(L(c.sreal(3))), 0);
    V o = p.t + L(c.sreal(1) * s.Rx) * V(0, 0, 1);
    L l = s.Rx * c.real(0.05, 3);
    if (c.flag()) ts.clear();
    gen::add(ts, o - l * d, o + l * d, o + V(0, 0, c.flag() ? l : -l), gen::friction(c));
    c.label("wall");
    if (ts.empty()) c.discard("no triangle");
  }
  enve::ground::mesh G(gen::libtris(ts));
  auto S = gen::lib(c, s, n);
  gen::note(c, s, n, p);
  c.note("mesh", ts);
  L lo = 1e9, hi = 0;
  for (auto const &t : ts) { lo = std::min<L>(lo, t.mu); hi = std::max<L>(hi, t.mu); }
  S->setup(G, aff(p), method(c));
  if (cancels(*S)) c.discard("normals cancel");
  well_formed(c, *S, s, p, lo, hi);
}
