// F01 F02 F03: RDF and OBJ mesh files
#include "gen.hh"
#include <algorithm>
#include <fstream>
#include <unistd.h>
#include <sys/stat.h>
using namespace mdl;
using pbt::Case;

struct Quiet { // the loader reports on standard output
  std::ostringstream s;
  std::streambuf *b;
  Quiet() : b(std::cout.rdbuf(s.rdbuf())) {}
  ~Quiet() { std::cout.rdbuf(b); }
};
static std::string dir() { char const *w = getenv("PBT_WORK"); return std::string(w ? w : "/tmp") + "/f" + std::to_string(getpid()); }
static std::string put(std::string const &text, std::string const &name) {
  std::string p = dir() + name;
  std::ofstream f(p, std::ios::binary);
  f << text;
  return p;
}
static std::string number(Case &c, double v) {
  char b[64];
  switch (c.u(7)) {
    case 5: snprintf(b, sizeof b, "%.30f", v); break;
    case 6: snprintf(b, sizeof b, "%.17E", v); break;
    case 0: snprintf(b, sizeof b, "%.17g", v); break;
    case 1: snprintf(b, sizeof b, "%.6f", v); break;
    case 2: snprintf(b, sizeof b, "%.16e", v); break;
    case 3: snprintf(b, sizeof b, "%+.17g", v); break;
    default: snprintf(b, sizeof b, "%d", int(v)); break;
  }
  return b;
}
// the values are what the text says
static double value(std::string const &s) { return std::strtod(s.c_str(), nullptr); }

struct File {
  std::vector<std::string> lines;
  std::vector<V>           nodes;
  struct El { int a, b, d; double mu; };
  std::vector<El> els;
  bool crlf = false, last = true;
  std::string text() const {
    std::string t;
    for (size_t i = 0; i < lines.size(); ++i) { t += lines[i]; if (i + 1 < lines.size() || last) t += crlf ? "\r\n" : "\n"; }
    return t;
  }
};
static std::string gap(Case &c, bool tabs) { switch (c.u(6)) { case 0: case 1: case 2: return " "; case 3: return "  "; case 4: return "     "; default: return tabs ? "\t" : "   "; } }
static std::string pad(Case &c, bool tabs) { return c.flag(1, 4) ? gap(c, tabs) : ""; }
static std::string join(Case &c, std::vector<std::string> const &w, bool tabs) {
  std::string s = pad(c, tabs);
  for (size_t i = 0; i < w.size(); ++i) s += (i ? gap(c, tabs) : "") + w[i];
  return s + pad(c, tabs);
}
static V vertex(Case &c, std::vector<std::string> &w) {
  double sc = c.logreal(1e-3, 1e4);
  std::vector<double> v;
  for (int i = 0; i < 3; ++i) { w.push_back(number(c, c.sreal(sc))); v.push_back(value(w.back())); }
  return V(v[0], v[1], v[2]);
}
static void noise(Case &c, File &f, std::vector<std::string> const &kinds) {
  while (c.flag(1, 6)) {
    std::string s = c.pick(kinds);
    if (s == "!blank") f.lines.push_back(c.flag(1, 3) ? gap(c, true) : "");
    else f.lines.push_back(pad(c, true) + s + (c.flag(1, 20) ? std::string(c.u(6000), ' ') + "2 3 4" : ""));
  }
}
static File rdf(Case &c) {
  File f;
  f.crlf = c.flag(1, 3);
  f.last = !c.flag(1, 6);
  bool tabs = c.flag(1, 5);
  static std::vector<std::string> const kinds{"!blank", "% a comment 1 2 3", "# a comment", "{ id x y z }", "%", "#", "{n1 n2 n3 mu}", "% [NODES]", "#ELEMENTS"};
  noise(c, f, kinds);
  int parts = int(c.range(1, 2));
  for (int k = 0; k < parts; ++k) {
    f.lines.push_back(pad(c, tabs) + (c.flag() ? "NODES" : "[NODES]") + pad(c, tabs));
    bool large = c.flag(1, 400);
    int n = int(c.size(k ? 0 : 1, large ? 3000 : 20));
    for (int i = 0; i < n; ++i) {
      noise(c, f, kinds);
      std::vector<std::string> w{std::to_string(f.nodes.size())};
      f.nodes.push_back(vertex(c, w));
      f.lines.push_back(join(c, w, tabs));
    }
    noise(c, f, kinds);
    f.lines.push_back(pad(c, tabs) + (c.flag() ? "ELEMENTS" : "[ELEMENTS]") + pad(c, tabs));
    int m = int(c.size(k ? 0 : 1, large ? 3000 : 24));
    c.label("large", n > 100 || m > 100);
    for (int i = 0; i < m; ++i) {
      noise(c, f, kinds);
      File::El e;
      int nn = int(f.nodes.size());
      e.a = int(c.u(nn)); e.b = int(c.u(nn)); e.d = int(c.u(nn));
      std::vector<std::string> w{std::to_string(e.a), std::to_string(e.b), std::to_string(e.d), number(c, gen::friction(c))};
      e.mu = value(w[3]);
      f.els.push_back(e);
      f.lines.push_back(join(c, w, tabs));
    }
  }
  noise(c, f, kinds);
  return f;
}
static File obj(Case &c) {
  File f;
  f.crlf = c.flag(1, 3);
  f.last = !c.flag(1, 6);
  bool tabs = c.flag(1, 5);
  static std::vector<std::string> const kinds{"!blank", "# a comment", "#", "vn 0 0 1", "vt 0.5 0.5", "o road", "g left right", "s off", "s 1", "usemtl tar", "mtllib road.mtl", "vp 1 2 3", "# f 1 2 3", "% v 1 2 3"};
  noise(c, f, kinds);
  bool large = c.flag(1, 400);
  int n = int(c.size(1, large ? 3000 : 20)), m = int(c.size(1, large ? 3000 : 24));
  c.label("large", n > 100 || m > 100);
  int before = c.flag(1, 3) ? int(c.u(uint64_t(n))) + 1 : n; // the remaining vertices come between faces
  auto vert = [&]() { noise(c, f, kinds); std::vector<std::string> w{"v"}; f.nodes.push_back(vertex(c, w)); f.lines.push_back(join(c, w, tabs)); };
  for (int i = 0; i < before; ++i) vert();
  int style = int(c.u(5));
  for (int i = 0; i < m; ++i) {
    noise(c, f, kinds);
    if (int(f.nodes.size()) < n && c.flag()) vert();
    File::El e;
    int nn = int(f.nodes.size());
    e.a = int(c.u(nn)); e.b = int(c.u(nn)); e.d = int(c.u(nn));
    e.mu = 0;
    int st = style == 4 ? int(c.u(4)) : style;
    auto corner = [&](int k) {
      std::string s = std::to_string(k + 1), x = std::to_string(1 + c.u(30));
      return st == 0 ? s : st == 1 ? s + "/" + x : st == 2 ? s + "//" + x : s + "/" + x + "/" + x;
    };
    f.els.push_back(e);
    f.lines.push_back(join(c, {"f", corner(e.a), corner(e.b), corner(e.d)}, tabs));
  }
  noise(c, f, kinds);
  return f;
}
// tens of thousands of nodes and elements, in a plain layout
static File big(Case &c, bool isrdf) {
  File f;
  f.crlf = c.flag(1, 3);
  f.last = !c.flag(1, 6);
  int n = int(c.range(2000, 70000)), m = int(c.flag() ? c.range(1, 200) : c.range(1000, 40000));
  gen::Noise r(c);
  double sc = c.logreal(1e-3, 1e4);
  char b[200];
  if (isrdf) f.lines.push_back("[NODES]");
  for (int i = 0; i < n; ++i) {
    double v[3];
    for (double &x : v) x = r.sym() * sc;
    if (isrdf) snprintf(b, sizeof b, "%d %.17g %.17g %.17g", i, v[0], v[1], v[2]);
    else snprintf(b, sizeof b, "v %.17g %.17g %.17g", v[0], v[1], v[2]);
    f.nodes.push_back(V(v[0], v[1], v[2]));
    f.lines.push_back(b);
  }
  if (isrdf) f.lines.push_back("[ELEMENTS]");
  for (int i = 0; i < m; ++i) {
    File::El e;
    e.a = int(r.bits() % uint64_t(n)); e.b = int(r.bits() % uint64_t(n)); e.d = int(r.bits() % uint64_t(n));
    if (i == 0) e.a = n - 1;
    e.mu = double(r.bits() % 1000) / 500;
    if (isrdf) snprintf(b, sizeof b, "%d %d %d %.17g", e.a, e.b, e.d, e.mu);
    else snprintf(b, sizeof b, "f %d %d %d", e.a + 1, e.b + 1, e.d + 1);
    f.els.push_back(e);
    f.lines.push_back(b);
  }
  return f;
}
static acme::affine pose(Case &c) {
  acme::affine a;
  a.setIdentity();
  switch (c.u(5)) {
    case 0: break;
    case 1: a = aff(gen::pose(c, false)); break;
    case 4: { // a hardly noticeable motion
      double t = c.logreal(1e-9, 0.1), k = c.flag() ? 0 : c.logreal(1e-9, 0.1);
      a.translation() = t * acme::vec3(c.sreal(1), c.sreal(1), c.sreal(1));
      a.matrix().block<3, 3>(0, 0) = acme::angleaxis(k, acme::vec3(c.sreal(1), c.sreal(1), 1).normalized()).toRotationMatrix();
      c.label("small motion");
      break;
    }
    case 2: { double k = c.logreal(1e-3, 10); a.matrix().block<3, 3>(0, 0) *= k; break; } // a change of units
    default: { a = aff(gen::pose(c, true)); a.matrix().block<3, 3>(0, 0) *= c.logreal(0.01, 10); }
  }
  return a;
}
static void loaded(Case &c, enve::ground::mesh const &G, File const &f, acme::affine const &pose) {
  CHECK(G.size() == f.els.size(), "loaded " << G.size() << " triangles, the file has " << f.els.size() << " elements");
  Pose p = pose_of(pose);
  for (size_t i = 0; i < f.els.size(); ++i) {
    auto t = G[i];
    auto const &e = f.els[i];
    int id[3] = {e.a, e.b, e.d};
    CHECK(t->id() == int(i), "triangle " << i << " is numbered " << t->id());
    CHECK(t->friction() == e.mu, "triangle " << i << " has friction " << t->friction() << ", expected " << e.mu);
    for (int k = 0; k < 3; ++k) {
      V q = p(f.nodes[size_t(id[k])]), g = V::of(t->vertex(size_t(k)));
      CHECK(maxabs(g - q) <= 1e-12L * (1e-3L + maxabs(q) + maxabs(p.t) + norm(f.nodes[size_t(id[k])]) * (norm(p.R.c[0]) + norm(p.R.c[1]))), "triangle " << i << " vertex " << k << " is " << g << ", expected node " << id[k] << " at " << q);
    }
  }
  // usable at once
  for (int k = 0; k < 2; ++k) {
    V m = V::of(G[c.u(f.els.size())]->vertex(c.u(3))), w = L(c.logreal(1e-3, 1e4)) * V(1, 1, 1);
    acme::aabb::ptr b = std::make_shared<acme::aabb const>(acme::point(ev(m - w)), acme::point(ev(m + w)));
    Box q{V::of(b->min()), V::of(b->max())};
    enve::triangleground::vecptr list;
    bool r = G.intersection(b, list);
    std::multiset<void const *> want, got;
    for (size_t i = 0; i < G.size(); ++i) {
      Tri t;
      for (size_t j = 0; j < 3; ++j) t.v[j] = V::of(G[i]->vertex(j));
      if (meet(box_of(t), q)) want.insert(G[i].get());
    }
    for (auto const &t : list) got.insert(t.get());
    CHECK(r && want == got, "a box query on the loaded mesh returns " << got.size() << " triangles, expected " << want.size());
  }
  Shape s;
  auto S = gen::lib(s, 3), F = gen::lib(s, 3);
  acme::affine a;
  a.setIdentity();
  a.translation() = acme::vec3(G[0]->vertex(0)) + acme::vec3(0.01, 0.02, 0.2);
  enve::ground::mesh H(G.vecptrTriangleground());
  std::string m = c.flag() ? "sampling" : "geometric";
  bool r = S->setup(G, a, m), q = F->setup(H, a, m);
  CHECK(r == q, "contact on the loaded mesh " << r << ", on a mesh of the same triangles " << q);
  if (r) c.label("touch");
}

template <class LOAD> static void roundtrip(Case &c, File const &f, std::string const &ext, acme::affine const &a, bool identity, LOAD load) {
  std::string p = put(f.text(), ext);
  if (c.verbose) c.log << "pose\n" << a.matrix() << "\nfile:\n" << f.text() << "\n--\n";
  (void)identity;
  std::unique_ptr<enve::ground::mesh> G;
  try {
    Quiet q;
    G = load(p);
  } catch (std::exception const &e) {
    std::remove(p.c_str());
    c.fail(std::string("a well-formed file is rejected: ") + e.what());
  }
  std::remove(p.c_str());
  loaded(c, *G, f, a);
  c.hit();
  c.label(f.crlf ? "CRLF" : "LF");
}
// a mesh that already holds a ground
static std::unique_ptr<enve::ground::mesh> used(Case &c) {
  typedef enve::ground::mesh mesh;
  if (c.flag()) return std::unique_ptr<mesh>(new mesh());
  std::vector<Tri> ts;
  int n = int(c.range(1, 6));
  for (int i = 0; i < n; ++i) { V o(c.sreal(5), c.sreal(5), c.sreal(5)); gen::add(ts, o, o + V(1, c.sreal(1), 0), o + V(0, 1.5, c.sreal(1)), gen::friction(c)); }
  c.label("into a used mesh");
  return std::unique_ptr<mesh>(new mesh(gen::libtris(ts)));
}
PBT(F01, rdf, 500000, 5000000, "every loaded file: at least one element") {
  File f = rdf(c);
  acme::affine a = pose(c);
  int how = int(c.u(4));
  if (how == 2) a.setIdentity();
  roundtrip(c, f, ".rdf", a, how == 2, [&](std::string const &p) {
    typedef enve::ground::mesh mesh;
    if (how == 0) return std::unique_ptr<mesh>(new mesh(p, a));
    if (how == 2) return std::unique_ptr<mesh>(c.flag() ? new mesh(p) : new mesh(p, acme::affine(a)));
    std::unique_ptr<mesh> G = used(c);
    if (!G->load(p, a)) c.fail("load() answers false");
    return G;
  });
}
PBT(F02, obj, 500000, 5000000, "every loaded file: at least one face") {
  File f = obj(c);
  double mu = gen::friction(c);
  for (auto &e : f.els) e.mu = mu;
  acme::affine a = pose(c);
  int how = int(c.u(4));
  if (how == 2) a.setIdentity();
  roundtrip(c, f, ".obj", a, how == 2, [&](std::string const &p) {
    typedef enve::ground::mesh mesh;
    if (how == 0) return std::unique_ptr<mesh>(new mesh(p, mu, a));
    if (how == 2) return std::unique_ptr<mesh>(c.flag() ? new mesh(p, mu) : new mesh(p, mu, acme::affine(a)));
    std::unique_ptr<mesh> G = used(c);
    if (!G->load(p, mu, a)) c.fail("load() answers false");
    return G;
  });
}

PBT(F01, rdf_big, 240, 6000, "every loaded file: at least one element") {
  File f = big(c, true);
  acme::affine a = pose(c);
  roundtrip(c, f, ".rdf", a, false, [&](std::string const &p) { return std::unique_ptr<enve::ground::mesh>(new enve::ground::mesh(p, a)); });
}
PBT(F02, obj_big, 240, 6000, "every loaded file: at least one face") {
  File f = big(c, false);
  double mu = gen::friction(c);
  for (auto &e : f.els) e.mu = mu;
  acme::affine a = pose(c);
  roundtrip(c, f, ".obj", a, false, [&](std::string const &p) { return std::unique_ptr<enve::ground::mesh>(new enve::ground::mesh(p, mu, a)); });
}

// ---------------------------------------------------------------------------
// tries to load; "" on success, the exception's text otherwise
static bool attempt(std::string const &p, bool isrdf, double mu, std::unique_ptr<enve::ground::mesh> &G, std::string &why) {
  Quiet q;
  if (!G) G.reset(new enve::ground::mesh());
  try { if (isrdf) G->load(p); else G->load(p, mu); }
  catch (std::exception const &e) { why = e.what(); return false; }
  return true;
}
PBT(F03, broken, 60000, 2500000, "the file was well formed except for one named defect") {
  bool isrdf = c.flag();
  File f = isrdf ? rdf(c) : obj(c);
  double mu = gen::friction(c);
  // pick an element line and a node line again by their content
  auto fields = [&](std::string const &s) { std::istringstream is(s); std::vector<std::string> w; std::string x; while (is >> x) w.push_back(x); return w; };
  std::vector<size_t> el, nd;
  bool innodes = false, inels = false;
  for (size_t i = 0; i < f.lines.size(); ++i) {
    auto w = fields(f.lines[i]);
    if (w.empty() || w[0][0] == '%' || w[0][0] == '#' || w[0][0] == '{') continue;
    if (isrdf) {
      if (w[0].find("NODES") != std::string::npos) { innodes = true; inels = false; }
      else if (w[0].find("ELEMENTS") != std::string::npos) { innodes = false; inels = true; }
      else if (innodes) nd.push_back(i);
      else if (inels) el.push_back(i);
    } else { if (w[0] == "f") el.push_back(i); if (w[0] == "v") nd.push_back(i); }
  }
  auto glue = [&](std::vector<std::string> const &w) { std::string s; for (size_t i = 0; i < w.size(); ++i) s += (i ? " " : "") + w[i]; return s; };
  int kind = int(c.u(8));
  std::string ext = isrdf ? ".rdf" : ".obj", path;
  std::string what;
  size_t o = isrdf ? 0 : 1;
  switch (kind) {
    case 0: case 1: {
      what = "a node that does not exist";
      auto &l = f.lines[c.pick(el)];
      auto w = fields(l);
      int64_t n = int64_t(f.nodes.size());
      static std::vector<int64_t> const far{1, 2, 7, 100, 25000, 30000, 1000000, 2147483647};
      int64_t k = n + c.pick(far) - (isrdf ? 1 : 0);
      if (c.flag(1, 3)) k = -1 - int64_t(c.u(1000));
      else if (!isrdf && c.flag(1, 6)) k = 0;
      w[o + c.u(3)] = std::to_string(k);
      l = glue(w);
      break;
    }
    case 2: {
      what = "a negative friction";
      if (isrdf) { auto &l = f.lines[c.pick(el)]; auto w = fields(l); w[3] = c.flag() ? "-0.5" : "-1e-12"; l = glue(w); }
      else mu = -c.logreal(1e-12, 10);
      break;
    }
    case 3: { what = "an element with a wrong number of fields"; auto &l = f.lines[c.pick(el)]; auto w = fields(l); if (c.flag()) w.push_back("1"); else w.pop_back(); l = glue(w); break; }
    case 4: { what = "a node with a wrong number of fields"; auto &l = f.lines[c.pick(nd)]; auto w = fields(l); if (c.flag()) w.push_back("1"); else w.pop_back(); l = glue(w); break; }
    case 5: {
      what = "no element";
      std::vector<std::string> keep;
      for (size_t i = 0; i < f.lines.size(); ++i) if (std::find(el.begin(), el.end(), i) == el.end()) keep.push_back(f.lines[i]);
      f.lines = keep;
      if (c.flag(1, 4)) f.lines.clear();
      break;
    }
    case 6: {
      what = "another extension";
      static std::vector<std::string> const exts{".txt", "", ".RDF", "rdf", ".rdf.bak", ".rd", ".r", "obj", ".rdff", ".stl"};
      ext = c.flag(1, 4) ? (isrdf ? ".obj" : ".rdf") : c.pick(exts);
      break;
    }
    default: {
      static std::vector<std::string> const bad{"", ".", "/", "a", "rdf", ".rdf", "x.rdf", "/nonexistent/x.rdf", ".obj", "x.obj", "y/"};
      std::string b = c.pick(bad);
      if (c.flag(1, 4)) { // a directory with a mesh name
        what = "a directory";
        path = dir() + "d" + ext;
        mkdir(path.c_str(), 0700);
      } else { what = "an unusable path"; path = c.flag() ? b : dir() + "none" + ext; if (path == ".rdf" || path == "x.rdf" || path == "x.obj" || path == ".obj") path = "missing_" + path; }
    }
  }
  bool made = path.empty() && what != "an unusable path";
  if (made) path = put(f.text(), "b" + ext);
  if (c.verbose) c.log << (isrdf ? "RDF" : "OBJ") << " with " << what << ", path '" << path << "', friction " << mu << "\nfile:\n" << f.text() << "\n--\n";
  std::unique_ptr<enve::ground::mesh> G = used(c);
  enve::triangleground::vecptr held = G->vecptrTriangleground();
  std::string why;
  bool ok = attempt(path, isrdf, mu, G, why);
  if (made) std::remove(path.c_str());
  if (what == "a directory") rmdir(path.c_str());
  c.label(what);
  CHECK(!ok, (isrdf ? "an RDF" : "an OBJ") << " load with " << what << " is accepted");
  CHECK(G->vecptrTriangleground() == held, "a refused load with " << what << " leaves " << G->size() << " triangles in a mesh that held " << held.size());
  c.hit();
}

PBT(F03, mutated, 120000, 5000000, "the text differs from the well-formed one it came from") {
  bool isrdf = c.flag();
  File f = isrdf ? rdf(c) : obj(c);
  std::string t = f.text(), t0 = t;
  int edits = int(c.size(1, 12));
  static std::vector<std::string> const bits{"-1", "99999999999999999999", "1e400", "nan", "-inf", "0x10", "[ELEMENTS]\n", "NODES\n", "[NODES]", "f 1 2 3\n", "f 1/2 3/4 5/6\n", "v 1 2 3\n", "f -1 -2 -3\n", "2147483648", "-2147483649", "\r", "\n", "\n\n", "\t", " ", "{", "%", "#", "0 0 0 1\n", "1 2", "/", "//", "abc", "f", "v", "f\n", "v\n", "f  \n", "99 98 97 1\n", "1.5", "+", "-", "."};
  if (c.flag(1, 12)) { t.clear(); int n = int(c.size(0, 60)); for (int i = 0; i < n; ++i) t += c.flag(1, 3) ? c.pick(bits) : std::string(1, char(c.u(256))); }
  else
    for (int k = 0; k < edits; ++k) {
      size_t at = t.empty() ? 0 : c.u(t.size() + 1);
      switch (c.u(6)) {
        case 0: t.insert(at, c.pick(bits)); break;
        case 1: if (!t.empty()) t.erase(std::min(at, t.size() - 1), 1 + c.u(6)); break;
        case 2: if (!t.empty()) t[std::min(at, t.size() - 1)] = char(c.u(256)); break;
        case 3: t.resize(at); break; // truncated
        case 4: if (!t.empty()) { size_t n = 1 + c.u(30); t.insert(at, t.substr(c.u(t.size()), n)); } break;
        default: { size_t e = t.find('\n', at); if (e != std::string::npos) { size_t e2 = t.find('\n', e + 1); if (e2 != std::string::npos) { std::string l = t.substr(e + 1, e2 - e); t.erase(e + 1, e2 - e); t.insert(0, l); } } }
      }
    }
  double mu = c.flag(1, 10) ? -1 : gen::friction(c);
  std::string p = put(t, isrdf ? "m.rdf" : "m.obj");
  if (c.verbose) c.log << (isrdf ? "RDF" : "OBJ") << " friction " << mu << " file:\n" << t << "\n--\n";
  std::unique_ptr<enve::ground::mesh> G;
  std::string why;
  bool ok = attempt(p, isrdf, mu, G, why);
  std::remove(p.c_str());
  c.label(ok ? "accepted" : "rejected");
  if (t != t0) c.hit();
  if (!ok) { CHECK(G->size() == 0, "a failed load leaves " << G->size() << " triangles"); return; }
  // every coordinate stands in the file
  std::vector<double> nums;
  for (size_t i = 0; i < t.size(); ++i) {
    if (i && !std::isspace((unsigned char)t[i - 1])) continue;
    std::string w = t.substr(i, 400);
    size_t z = w.find('\0');
    if (z != std::string::npos) w.resize(z);
    if (w.empty() || std::isspace((unsigned char)w[0])) continue;
    double v = std::strtod(w.c_str(), nullptr);
    if (std::isfinite(v)) nums.push_back(v);
  }
  std::sort(nums.begin(), nums.end());
  bool finite = true;
  for (size_t i = 0; i < G->size(); ++i)
    for (size_t j = 0; j < 3; ++j)
      for (int k = 0; k < 3; ++k) {
        double v = (*G)[i]->vertex(j)(k);
        if (!std::isfinite(v)) { finite = false; continue; }
        CHECK(std::binary_search(nums.begin(), nums.end(), v) , "triangle " << i << " uses the coordinate " << v << ", which is not in the file");
      }
  CHECK(G->size() >= 1, "an empty mesh is accepted");
  CHECK(mu >= 0 || isrdf, "friction " << mu << " is accepted");
  // queries on whatever was loaded stay well behaved
  enve::triangleground::vecptr list;
  acme::aabb::ptr b = std::make_shared<acme::aabb const>(acme::point(-1, -1, -1), acme::point(1e5, 1e5, 1e5));
  G->intersection(b, list);
  CHECK(list.size() <= G->size(), "a query returns more triangles than loaded");
  if (!finite) c.label("non-finite");
}
