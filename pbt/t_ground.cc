// G01 G02 G03 G04: ground meshes, their box queries, ground triangles and flat grounds
#include "gen.hh"
#include <algorithm>
#include <fstream>
#include <unistd.h>
using namespace mdl;
using pbt::Case;

typedef enve::triangleground TG;
template <class F> static bool throws(F f) {
  try { f(); } catch (std::exception const &) { return true; }
  return false;
}
static acme::aabb::ptr box(V lo, V hi) { return std::make_shared<acme::aabb const>(acme::point(ev(lo)), acme::point(ev(hi))); }

// triangles of any arrangement; coordinates often coincide exactly
static std::vector<Tri> heap(Case &c, int hi) {
  std::vector<Tri> ts;
  int n = int(c.size(0, hi)), kind = int(c.u(5));
  V o = gen::dbl(V(c.sreal(c.flag(1, 4) ? 1e5 : 3), c.sreal(3), c.sreal(3)));
  L span = c.logreal(0.1, 100);
  for (int i = 0; i < n; ++i) {
    Tri t;
    if (kind == 4 && i && c.flag()) { ts.push_back(ts[c.u(ts.size())]); continue; } // exact duplicates
    V q = o;
    if (kind == 0 || kind == 4) q = o + span * V(c.sreal(1), c.sreal(1), c.sreal(1));
    if (kind == 1) q = o + V(L(c.range(-6, 6)), L(c.range(-6, 6)), 0); // a lattice
    if (kind == 2) { L e = std::pow(L(2), -L(c.u(30))); q = o + span * e * V(c.u(2), c.u(2), c.u(2)); } // towards a point
    if (kind == 3) q = o + V(0, 0, span * L(c.range(-8, 8))); // a tower
    L l = kind == 0 ? span * L(c.logreal(1e-3, 2)) : 1;
    for (auto &v : t.v) v = gen::dbl(kind == 1 || kind == 3 ? q + V(L(c.range(-1, 1)), L(c.range(-1, 1)), kind == 3 ? L(c.range(-1, 1)) : 0) : q + l * V(c.sreal(1), c.sreal(1), c.sreal(1)));
    t.mu = gen::friction(c);
    ts.push_back(t);
  }
  return ts;
}
static TG::vecptr build(Case &c, std::vector<Tri> const &ts) {
  TG::vecptr v;
  int kind = int(c.u(4));
  for (size_t i = 0; i < ts.size(); ++i) {
    int id = kind == 0 ? int(i) : kind == 1 ? int(ts.size() - 1 - i) : kind == 2 ? int(c.range(-5, 400)) : int(c.u(2));
    v.push_back(std::make_shared<TG const>(id, ts[i].mu, acme::point(ev(ts[i].v[0])), acme::point(ev(ts[i].v[1])), acme::point(ev(ts[i].v[2]))));
  }
  return v;
}
// a query box related to the triangles: around, touching exactly, a point, everything, nothing
static Box query(Case &c, std::vector<Tri> const &ts) {
  Box b;
  int kind = int(c.u(6));
  V a = ts.empty() ? V() : ts[c.u(ts.size())].v[c.u(3)], d = ts.empty() ? V() : ts[c.u(ts.size())].v[c.u(3)];
  L e = c.logreal(1e-3, 30);
  switch (kind) {
    case 0: b = Box{a, d}; break;
    case 1: b = Box{a, a}; break;
    case 2: b = Box{a, a + V(e, e, e)}; break;
    case 3: b = Box{a - V(e, e, e), a}; break;
    case 4: { V m = a + e * V(c.sreal(1), c.sreal(1), c.sreal(1)); L w = c.logreal(1e-3, 30); b = Box{m - V(w, w, w), m + V(w, w, w)}; break; }
    default: b = Box{a - V(1e6L, 1e6L, 1e6L), a + V(1e6L, 1e6L, 1e6L)};
  }
  if (c.flag(1, 6)) { L far = e * 3; b.lo.z += far; b.hi.z += far; }
  b.lo = gen::dbl(b.lo); b.hi = gen::dbl(b.hi);
  Box r;
  r.lo = V(std::min(b.lo.x, b.hi.x), std::min(b.lo.y, b.hi.y), std::min(b.lo.z, b.hi.z));
  r.hi = V(std::max(b.lo.x, b.hi.x), std::max(b.lo.y, b.hi.y), std::max(b.lo.z, b.hi.z));
  return r;
}
// brute force over the triangles' vertices
static std::multiset<TG const *> wanted(TG::vecptr const &v, std::vector<Tri> const &ts, Box const &b) {
  std::multiset<TG const *> w;
  for (size_t i = 0; i < ts.size(); ++i) if (meet(box_of(ts[i]), b)) w.insert(v[i].get());
  return w;
}
static std::multiset<TG const *> got(TG::vecptr const &v) {
  std::multiset<TG const *> w;
  for (auto const &t : v) w.insert(t.get());
  return w;
}

PBT(G01, box_query, 1500000, 60000000, "the query meets some but not all triangles") {
  auto ts = heap(c, c.flag(1, 8) ? (c.flag(1, 60) ? 5000 : 400) : 40);
  auto v = build(c, ts);
  c.note("triangles", ts);
  std::unique_ptr<enve::ground::mesh> G;
  if (ts.empty()) G.reset(c.flag() ? new enve::ground::mesh(v) : new enve::ground::mesh());
  else G.reset(new enve::ground::mesh(v));
  int nq = int(c.range(1, 6));
  TG::vecptr list;
  if (c.flag(1, 3)) list = v; // previous content
  for (int k = 0; k < nq; ++k) {
    Box b = query(c, ts);
    if (c.verbose) c.log << "box " << b.lo << " " << b.hi << "\n";
    bool r = G->intersection(box(b.lo, b.hi), list);
    auto w = wanted(v, ts, b), g = got(list);
    CHECK(g == w, "box query " << b.lo << " " << b.hi << " returns " << list.size() << " triangles, " << w.size() << " of " << ts.size() << " meet the box");
    CHECK(r == !w.empty(), "box query answers " << r << " with " << w.size() << " triangles");
    if (!w.empty() && w.size() < ts.size()) c.hit();
    c.label(w.empty() ? "none" : w.size() == ts.size() ? "all" : "some");
    if (c.flag(1, 4)) list.clear();
  }
  c.label(ts.empty() ? "size 0" : ts.size() == 1 ? "size 1" : ts.size() < 40 ? "size 2..39" : ts.size() < 1000 ? "size 40+" : "size 1000+");
}

// ---------------------------------------------------------------------------
struct Model { TG::vecptr v; std::vector<Tri> ts; };
static void agree(Case &c, enve::ground::mesh const &G, Model const &m, char const *who, char const *after) {
  size_t n = m.ts.size();
  CHECK(G.size() == n, who << " after " << after << ": size " << G.size() << ", expected " << n);
  CHECK(G.vecptrTriangleground().size() == n, who << " after " << after << ": triangle list of " << G.vecptrTriangleground().size() << ", expected " << n);
  for (size_t i = 0; i < n; ++i) {
    auto t = G[i];
    CHECK(t && t == G.ptrTriangleground(i) && t == G.vecptrTriangleground()[i], who << " after " << after << ": element accessors disagree at " << i);
    for (int j = 0; j < 3; ++j) CHECK(maxabs(V::of(t->vertex(size_t(j))) - m.ts[i].v[j]) == 0, who << " after " << after << ": triangle " << i << " has other vertices");
    CHECK(t->friction() == m.ts[i].mu, who << " after " << after << ": triangle " << i << " has friction " << t->friction());
  }
  for (int k = 0; k < 2; ++k) {
    Box b = query(c, m.ts);
    TG::vecptr list;
    bool r = G.intersection(box(b.lo, b.hi), list);
    std::multiset<TG const *> w, g = got(list);
    for (size_t i = 0; i < n; ++i) if (meet(box_of(m.ts[i]), b)) w.insert(G[i].get());
    CHECK(g == w && r == !w.empty(), who << " after " << after << ": box query returns " << list.size() << " (" << r << "), " << w.size() << " of " << n << " triangles meet the box");
    if (!w.empty()) c.hit();
  }
}
static std::string workdir() { char const *w = getenv("PBT_WORK"); return std::string(w ? w : "/tmp"); }
static std::string store(std::vector<Tri> const &ts, bool rdf) {
  static unsigned serial = 0;
  std::string p = workdir() + "/m" + std::to_string(getpid()) + "_" + std::to_string(serial++ % 4) + (rdf ? ".rdf" : ".obj");
  std::ofstream f(p);
  f.precision(17);
  if (rdf) f << "[NODES]\n";
  int k = 0;
  for (auto const &t : ts) for (auto const &v : t.v) { if (rdf) f << ++k; else f << "v"; f << " " << double(v.x) << " " << double(v.y) << " " << double(v.z) << "\n"; }
  if (rdf) f << "[ELEMENTS]\n";
  for (size_t i = 0; i < ts.size(); ++i) { int b = int(3 * i) + (rdf ? 0 : 1); if (!rdf) f << "f "; f << b << " " << b + 1 << " " << b + 2; if (rdf) f << " " << ts[i].mu; f << "\n"; }
  return p;
}
struct Quiet { // the loader reports on standard output
  std::ostringstream s;
  std::streambuf *b;
  Quiet() : b(std::cout.rdbuf(s.rdbuf())) {}
  ~Quiet() { std::cout.rdbuf(b); }
};
static void touches(Case &c, enve::ground::mesh const &G, Model const &m, char const *who) {
  Shape s;
  V o = m.ts.empty() ? V() : (m.ts[0].v[0] + m.ts[0].v[1] + m.ts[0].v[2]) / 3;
  Pose p;
  p.t = o + V(0, 0, 0.29L);
  p = pose_of(aff(p));
  auto S = gen::lib(s, 3), F = gen::lib(s, 3);
  std::string meth = c.flag() ? "sampling" : "geometric";
  bool r = S->setup(G, aff(p), meth);
  if (m.ts.empty()) { CHECK(!r, who << ": contact with an empty mesh"); return; }
  enve::ground::mesh H(m.v);
  bool q = F->setup(H, aff(p), meth);
  CHECK(r == q, who << ": contact " << r << ", a mesh built from the same triangles gives " << q);
  for (size_t i = 0; i < 3; ++i) {
    Out a = read(*S, i), b = read(*F, i);
    CHECK(std::fabs(a.a - b.a) <= 1e-12L && std::fabs(a.v - b.v) <= 1e-12L && std::fabs(a.d - b.d) <= 1e-9L, who << ": contact differs from a mesh built from the same triangles");
  }
}
PBT(G02, history, 400000, 15000000, "a query of some mesh finds a triangle after copies, clears or loads") {
  int k = int(c.range(2, 3));
  std::vector<std::unique_ptr<enve::ground::mesh>> G;
  std::vector<Model> M(static_cast<size_t>(k));
  auto fresh = [&](Model &m, int lo) {
    do { m.ts = heap(c, c.flag(1, 600) ? 2000 : 12); } while (int(m.ts.size()) < lo && (m.ts.push_back(Tri()), m.ts.back().v[1] = V(1, 0, 0), m.ts.back().v[2] = V(0, 1, 0), false));
    m.v = build(c, m.ts);
  };
  for (int i = 0; i < k; ++i) {
    if (c.flag(1, 3)) { G.emplace_back(new enve::ground::mesh()); c.log << "mesh " << i << ": default\n"; }
    else { fresh(M[size_t(i)], 0); G.emplace_back(new enve::ground::mesh(M[size_t(i)].v)); c.log << "mesh " << i << ": " << M[size_t(i)].ts.size() << " triangles\n"; }
    agree(c, *G[size_t(i)], M[size_t(i)], "mesh", "construction");
  }
  bool changed = false;
  int steps = int(c.size(1, 10));
  for (int st = 0; st < steps; ++st) {
    size_t i = c.u(uint64_t(k));
    char const *what = "";
    Quiet quiet;
    switch (c.u(6)) {
      case 0: case 1: { size_t j = c.u(uint64_t(k)); what = "copy"; c.log << "mesh " << i << " copies mesh " << j << "\n"; G[i]->copy(*G[j]); M[i] = M[j]; changed = true; break; }
      case 2: { what = "clear"; c.log << "mesh " << i << " clear\n"; G[i]->clear(); M[i] = Model(); changed = true; break; }
      case 3: { what = "buildAABBtree"; c.log << "mesh " << i << " buildAABBtree\n"; G[i]->buildAABBtree(); break; }
      case 4: {
        what = "load";
        Model m;
        fresh(m, 1);
        bool rdf = c.flag();
        double mu = gen::friction(c);
        if (!rdf) for (auto &t : m.ts) t.mu = mu;
        if (!rdf) { m.v.clear(); m.v = build(c, m.ts); }
        std::string p = store(m.ts, rdf);
        c.log << "mesh " << i << " loads " << m.ts.size() << " triangles from " << (rdf ? "rdf" : "obj") << "\n";
        bool r = rdf ? G[i]->load(p) : G[i]->load(p, mu);
        std::remove(p.c_str());
        CHECK(r, "loading answers false");
        M[i] = m;
        changed = true;
        break;
      }
      default: {
        what = "failed load";
        c.log << "mesh " << i << " fails to load\n";
        std::string p = workdir() + "/none.rdf";
        CHECK(throws([&] { G[i]->load(p); }), "loading a missing file is accepted");
      }
    }
    for (int j = 0; j < k; ++j) agree(c, *G[size_t(j)], M[size_t(j)], j == int(i) ? "the mesh" : "another mesh", what);
    if (c.flag(1, 3)) touches(c, *G[i], M[i], what);
  }
  if (!changed) c.nontrivial = false;
}

// ---------------------------------------------------------------------------
static void facing(TG const &t, Tri const &m, int id, char const *who) {
  for (size_t j = 0; j < 3; ++j) CHECK(maxabs(V::of(t.vertex(j)) - m.v[j]) == 0 && maxabs(V::of(t[j]) - m.v[j]) == 0, who << ": vertex " << j << " is " << t.vertex(j).transpose());
  CHECK(t.id() == id, who << ": identifier " << t.id() << ", expected " << id);
  CHECK(t.friction() == m.mu, who << ": friction " << t.friction() << ", expected " << m.mu);
  V k = cross(m.v[1] - m.v[0], m.v[2] - m.v[0]), n = unit(k), g = V::of(t.normal());
  CHECK(std::fabs(norm(g) - 1) < 1e-12L, who << ": normal " << g << " is not a unit vector");
  CHECK(norm(cross(g, n)) < 1e-9L, who << ": normal " << g << " is not orthogonal to the face, whose normal is " << n);
  CHECK(g.z >= 0, who << ": normal " << g << " points down");
  // an exactly vertical face keeps the side its vertex order gives it
  bool wall = (m.v[0].x == m.v[1].x && m.v[1].x == m.v[2].x) || (m.v[0].y == m.v[1].y && m.v[1].y == m.v[2].y);
  if (wall) CHECK(dot(g, n) > 0, who << ": the normal " << g << " of the vertical face is on the other side than its vertex order says, " << n);
  Box b = box_of(m);
  auto const &x = t.bbox();
  CHECK(maxabs(V::of(x.min()) - b.lo) == 0 && maxabs(V::of(x.max()) - b.hi) == 0, who << ": box " << V::of(x.min()) << V::of(x.max()) << ", tightest box " << b.lo << b.hi);
  CHECK(x.id() == id, who << ": box identifier " << x.id() << ", expected " << id);
}
static Tri triangle(Case &c) {
  Tri t;
  V o = V(c.sreal(c.flag(1, 4) ? 3000 : 3), c.sreal(3), c.sreal(3));
  L l = c.logreal(1e-2, 100);
  int flat = int(c.u(5)); // some axis parallel or vertical faces
  for (auto &v : t.v) { v = o + l * V(c.sreal(1), c.sreal(1), c.sreal(1)); if (flat == 1) v.z = o.z; if (flat == 2) v.x = o.x; if (flat == 3) v.y = o.y; v = gen::dbl(v); }
  L len = std::max(norm(t.v[1] - t.v[0]), std::max(norm(t.v[2] - t.v[0]), norm(t.v[2] - t.v[1])));
  if (!(len > 1e-3L && norm(cross(t.v[1] - t.v[0], t.v[2] - t.v[0])) > 1e-3L * len * len)) c.discard("degenerate triangle");
  t.mu = gen::friction(c);
  return t;
}
static std::unique_ptr<TG> make(int how, int id, double mu, Tri const &t) {
  acme::point a(ev(t.v[0])), b(ev(t.v[1])), d(ev(t.v[2]));
  acme::point v[3] = {a, b, d};
  if (how == 0) return std::unique_ptr<TG>(new TG(id, mu, a, b, d));
  if (how == 1) return std::unique_ptr<TG>(new TG(id, mu, v));
  return std::unique_ptr<TG>(new TG(id, mu, a.x(), a.y(), a.z(), b.x(), b.y(), b.z(), d.x(), d.y(), d.z()));
}
PBT(G03, triangle, 6000000, 300000000, "the face points down as given, or the triangle is a copy, or the friction is rejected") {
  Tri t = triangle(c);
  int id = int(c.range(0, 1000)) - (c.flag(1, 4) ? 500 : 0), how = int(c.u(3));
  if (c.verbose) c.log << "vertices " << t.v[0] << t.v[1] << t.v[2] << " mu=" << t.mu << " id=" << id << " constructor " << how << "\n";
  if (c.flag(1, 10)) {
    double mu = -c.logreal(1e-300, 10);
    CHECK(throws([&] { make(how, id, mu, t); }), "a ground triangle with friction " << mu << " is accepted");
    c.hit(); c.label("negative friction");
    return;
  }
  auto g = make(how, id, t.mu, t);
  facing(*g, t, id, "triangle");
  if (cross(t.v[1] - t.v[0], t.v[2] - t.v[0]).z < 0) { c.hit(); c.label("faces down"); }
  if (c.flag(1, 3)) { // a copy over another triangle
    Tri u = triangle(c);
    auto h = c.flag(1, 4) ? std::unique_ptr<TG>(new TG()) : make(int(c.u(3)), int(c.range(-3, 3)), u.mu, u);
    h->copy(*g);
    facing(*h, t, id, "copy");
    CHECK(h->isApprox(*g) && g->isApprox(*h), "a copy does not compare equal to its source");
    facing(*g, t, id, "source of a copy");
    c.hit(); c.label("copy");
  }
  if (c.flag(1, 3)) { // comparison
    Tri u = t;
    double tol = c.flag() ? 1.4901161193847656e-08 : c.logreal(1e-6, 1e-2);
    L len = 1 + maxabs(t.v[0]) + maxabs(t.v[1]) + maxabs(t.v[2]);
    bool close = c.flag();
    L step = close ? tol * 1e-3L : len * tol * 100;
    int what = int(c.u(4));
    if (what < 3) { u.v[what] = gen::dbl(u.v[what] + (what == 0 ? V(step, 0, 0) : what == 1 ? V(0, step, 0) : V(0, 0, step))); if (close && maxabs(t.v[what]) < 1e-3L) return; }
    else { u.mu = double(u.mu + (close ? tol * 1e-3L * std::max(1e-3, u.mu) : tol * 100 * (1 + u.mu))); }
    std::unique_ptr<TG> h;
    try { h = make(0, id, u.mu, u); } catch (std::exception const &) { return; }
    bool a = g->isApprox(*h, tol), b = h->isApprox(*g, tol);
    CHECK(a == close && b == close, "triangles that differ by " << double(step) << " in " << (what < 3 ? "a vertex" : "friction") << " compare " << a << "/" << b << " with tolerance " << tol);
    c.label(close ? "compared close" : "compared apart");
  }
}

// a ground triangle is an entity: it can be moved like one, alone or as a member of a collection
PBT(G03, moved, 1000000, 50000000, "the triangle was moved") {
  Tri t = triangle(c);
  int id = int(c.range(0, 1000));
  std::shared_ptr<TG> g(make(int(c.u(3)), id, t.mu, t).release());
  int steps = int(c.size(1, 4));
  for (int k = 0; k < steps; ++k) {
    int how = int(c.u(4)), who = int(c.u(3));
    acme::collection box;
    if (who == 2) box.push_back(g);
    acme::entity &e = *g;
    Tri was = t;
    static char const *nm[] = {"translation", "transformation", "rotation", "copy"};
    V s(c.sreal(5), c.sreal(5), c.sreal(5)), ax = unit(V(c.sreal(1), c.sreal(1), c.real(0.01, 1)));
    s = gen::dbl(s);
    double ang = c.sreal(3.1416);
    acme::affine A;
    A.setIdentity();
    if (c.verbose) c.log << nm[how] << (who == 0 ? "" : who == 1 ? " as an entity" : " in a collection") << " by " << s << " angle " << ang << " about " << ax << "\n";
    if (how == 0) { if (who == 0) g->translate(ev(s)); else if (who == 1) e.translate(ev(s)); else box.translate(ev(s)); for (auto &v : was.v) v = v + s; }
    if (how == 1 || how == 2) {
      if (how == 1) A.translate(ev(s));
      A.rotate(acme::angleaxis(ang, acme::vec3(ev(ax))));
      if (how == 1) { if (who == 0) g->transform(A); else if (who == 1) e.transform(A); else box.transform(A); }
      else { if (who == 0) g->rotate(ang, ev(ax)); else if (who == 1) e.rotate(ang, ev(ax)); else box.rotate(ang, ev(ax)); }
      auto const &m = A.matrix();
      for (auto &v : was.v) { V w; w.x = m(0, 0) * v.x + m(0, 1) * v.y + m(0, 2) * v.z + m(0, 3); w.y = m(1, 0) * v.x + m(1, 1) * v.y + m(1, 2) * v.z + m(1, 3); w.z = m(2, 0) * v.x + m(2, 1) * v.y + m(2, 2) * v.z + m(2, 3); v = w; }
    }
    if (how == 3) { std::shared_ptr<TG> h(make(0, 7, 0.5, triangle(c)).release()); h->copy(*g); g = h; }
    V const old = was.v[0];
    (void)old;
    TG const &cg = *g;
    for (size_t j = 0; j < 3; ++j) {
      t.v[j] = V::of(cg.vertex(j));
      CHECK(maxabs(t.v[j] - was.v[j]) < 1e-12L * (10 + maxabs(was.v[j])) * (maxabs(s) + 2), "vertex " << j << " is at " << t.v[j] << " after a " << nm[how] << ", expected " << was.v[j]);
    }
    facing(cg, t, id, nm[how]);
    c.label(nm[how]);
  }
  c.hit();
}

// ---------------------------------------------------------------------------
PBT(G04, flat, 6000000, 300000000, "the given normal is not a unit vector, or the ground is rejected, copied or compared") {
  V n, o = gen::dbl(V(c.sreal(c.flag(1, 4) ? 3000 : 3), c.sreal(3), c.sreal(3)));
  L len = c.flag(1, 3) ? 1.0L : L(c.logreal(1e-3, 1e3));
  int kind = int(c.u(5));
  n = unit(V(c.sreal(1), c.sreal(1), c.real(0.01, 1)));
  if (kind == 3) n.z = -n.z;
  if (kind == 4) n.z = 0;
  n = gen::dbl(len * n);
  double mu = gen::friction(c);
  if (c.flag(1, 10)) mu = -c.logreal(1e-300, 10);
  int how = int(c.u(3));
  if (c.verbose) c.log << "origin " << o << " normal " << n << " mu=" << mu << " constructor " << how << "\n";
  auto mk = [&](int h, double f, V og, V nn) {
    if (h == 0) return std::unique_ptr<enve::ground::flat>(new enve::ground::flat(f, double(og.x), double(og.y), double(og.z), double(nn.x), double(nn.y), double(nn.z)));
    if (h == 1) return std::unique_ptr<enve::ground::flat>(new enve::ground::flat(f, acme::point(ev(og)), ev(nn)));
    return std::unique_ptr<enve::ground::flat>(new enve::ground::flat(f, acme::plane(acme::point(ev(og)), ev(nn))));
  };
  if (mu < 0 || n.z <= 0) {
    CHECK(throws([&] { mk(how, mu, o, n); }), "a flat ground with friction " << mu << " and normal " << n << " is accepted");
    c.hit(); c.label("rejected");
    return;
  }
  auto check = [&](enve::ground::flat const &g, V og, V nn, double f, char const *who) {
    CHECK(maxabs(V::of(g.origin()) - og) == 0, who << ": origin " << g.origin().transpose());
    CHECK(g.friction() == f, who << ": friction " << g.friction());
    CHECK(maxabs(V::of(g.normal()) - unit(nn)) < 1e-14L, who << ": normal " << V::of(g.normal()) << ", expected " << unit(nn));
    CHECK(maxabs(V::of(g.layingPlane().origin()) - og) == 0 && maxabs(V::of(g.layingPlane().normal()) - unit(nn)) < 1e-14L, who << ": laying plane differs");
  };
  auto g = mk(how, mu, o, n);
  check(*g, o, n, mu, "flat ground");
  if (std::fabs(norm(n) - 1) > 1e-6L) c.hit();
  V n2 = unit(V(c.sreal(1), c.sreal(1), c.real(0.01, 1))), o2 = gen::dbl(V(c.sreal(3), c.sreal(3), c.sreal(3)));
  double mu2 = gen::friction(c);
  auto h = c.flag(1, 4) ? std::unique_ptr<enve::ground::flat>(new enve::ground::flat()) : mk(int(c.u(3)), mu2, o2, n2);
  if (c.flag()) {
    h->copy(*g);
    check(*h, o, n, mu, "copy");
    check(*g, o, n, mu, "source of a copy");
    CHECK(h->isApprox(*g) && g->isApprox(*h), "a copy does not compare equal to its source");
    c.hit(); c.label("copy");
  } else { // comparison of clearly equal or clearly different grounds
    double tol = c.flag() ? 1.4901161193847656e-08 : c.logreal(1e-6, 1e-2);
    bool close = c.flag();
    V oo = o, nn = unit(n);
    double f = mu;
    L sc = 1 + norm(o);
    L step = close ? tol * 1e-3L : tol * 100;
    int what = int(c.u(3));
    if (what == 0) { if (norm(o) < 1e-2L) return; oo = gen::dbl(o + sc * step * (close ? norm(o) / sc : 1) * unit(V(c.sreal(1), c.sreal(1), c.sreal(1)) + V(0, 0, 0.01L))); }
    if (what == 1) { V e = unit(cross(nn, std::fabs(nn.x) < 0.8L ? V(1, 0, 0) : V(0, 1, 0))); nn = unit(nn + step * e); if (nn.z <= 1e-3L) return; }
    if (what == 2) { if (mu < 1e-2 && close) return; f = double(mu + (close ? step * mu : step * (1 + mu))); }
    auto k = mk(int(c.u(3)), f, oo, nn);
    bool a = g->isApprox(*k, tol), b = k->isApprox(*g, tol);
    CHECK(a == close && b == close, "flat grounds that differ by " << double(step) << " in " << (what == 0 ? "origin" : what == 1 ? "normal" : "friction") << " compare " << a << "/" << b << " with tolerance " << tol);
    c.hit(); c.label(close ? "compared close" : "compared apart");
  }
}
