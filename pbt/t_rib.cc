// S05: ribs and shapes as objects of their own. P01: printed reports
#include "ground.hh"
#include <cstring>
#include <fstream>
#include <unistd.h>

static Out conv(enve::output const &o) {
  Out u;
  u.P = V::of(o.point); u.N = V::of(o.normal); u.f = o.friction; u.d = o.depth; u.a = o.area; u.v = o.volume;
  u.touch = u.a != 0 || u.v != 0 || u.d != 0 || u.f != 0;
  return u;
}
static bool same(Out const &a, Out const &b, L R, L w, L coord) {
  L r = 1e-9L, sc = r * R + 1e-12L * coord;
  return std::fabs(a.a - b.a) <= r * R * w && std::fabs(a.v - b.v) <= r * R * R * w && std::fabs(a.f - b.f) <= r * (1 + std::fabs(b.f)) && std::fabs(a.d - b.d) <= sc && maxabs(a.P - b.P) <= sc && maxabs(a.N - b.N) <= 1e-9L;
}
PBT(S05, alone, 700000, 25000000, "a rib of its own touches the ground") {
  Shape s = gen::shape(c);
  size_t n = gen::ribs(c, 12);
  Pose p = gen::pose(c, false);
  gen::note(c, s, n, p);
  Ground g = ground(c, s, p, 30);
  std::string m = method(c);
  c.note("method", m);
  auto S = gen::lib(c, s, n);
  bool ret = g.setup(*S, aff(p), m);
  enve::triangleground::vecptr near;
  if (g.mesh) g.mesh->intersection(S->bbox(), near);
  bool any = false, border = false;
  for (size_t i = 0; i < n; ++i) {
    enve::rib R(int(i), S->ribRadius(i), S->ribCenter(i).y(), S->ribWidth(i), S->ribAngle(i)), K(R), Q;
    Q.copy(R);
    enve::output o[3];
    enve::rib const *rs[3] = {&R, &K, &Q};
    Out want = read(*S, i);
    if (g.mesh && m == "geometric" && mesh_geometric(s.rib(i, n), p, g.ts).unsure) { border = true; continue; }
    for (int k = 0; k < 3; ++k) {
      bool t = g.mesh ? rs[k]->envelop(near, aff(p), m, o[k]) : rs[k]->envelop(*g.flat, aff(p), m, o[k]);
      any |= t;
      Out got = conv(o[k]);
      CHECK(t == want.touch, "rib " << i << (k ? " copied" : " alone") << ": touching is " << t << ", in the shell " << want.touch);
      CHECK(same(got, want, S->ribRadius(i), S->ribWidth(i), gen::coord(p)), "rib " << i << (k ? " copied" : " alone") << "\n  answers  " << got << "\n  in shell " << want);
    }
    enve::output f;
    bool t = R.envelop(aff(p), f);
    Out fr = conv(f), no = no_contact(p(V(0, S->ribCenter(i).y(), 0)), S->ribRadius(i), p);
    CHECK(!t && !fr.touch && maxabs(fr.P - no.P) <= 1e-12L * gen::coord(p) && maxabs(fr.N - no.N) < 1e-12L, "a rib without ground answers " << fr);
    if (g.mesh) {
      enve::output e;
      bool te = R.envelop(enve::triangleground::vecptr(), aff(p), m, e);
      CHECK(!te && same(conv(e), fr, S->ribRadius(i), S->ribWidth(i), gen::coord(p)), "a rib without candidate triangles answers " << conv(e));
    }
    enve::output x;
    bool threw = false;
    try { if (g.mesh) R.envelop(near, aff(p), m + "x", x); else R.envelop(*g.flat, aff(p), m + "x", x); } catch (std::exception const &) { threw = true; }
    CHECK(threw, "the unknown method " << m << "x is accepted by a rib");
  }
  if (!border) CHECK(any == ret, "the ribs of their own touch: " << any << ", the shell: " << ret);
  if (any) c.hit();
  c.label(std::string(g.mesh ? "mesh " : "flat ") + m);
}
PBT(S05, copies, 3000000, 120000000, "two shapes or ribs that differ in one parameter were compared") {
  Shape s = gen::shape(c);
  double v[5] = {s.Rx, s.Mx, s.Ry, s.My, s.Ly}, w[5];
  std::memcpy(w, v, sizeof v);
  enve::shape A(v[0], v[1], v[2], v[3], v[4]), B(A), D;
  D.copy(A);
  auto reads = [&](enve::shape const &x, double const *u) { return x.Rx() == u[0] && x.Mx() == u[1] && x.Ry() == u[2] && x.My() == u[3] && x.Ly() == u[4] && x.surfaceMaxRadius() == u[0] && x.surfaceMaxWidth() == u[4] && x.surfaceWidth() == u[4]; };
  c.note("shape", s);
  CHECK(reads(A, v) && reads(B, v) && reads(D, v), "a shape or its copy does not read back its parameters");
  CHECK(A.isApprox(B) && B.isApprox(A) && A.isApprox(D), "a copy of a shape is not equal to it");
  int k = int(c.u(6));
  double by = c.logreal(1e-3, 1) * (c.flag() ? 1 : -1);
  if (k < 5) {
    double *q[5] = {&D.Rx(), &D.Mx(), &D.Ry(), &D.My(), &D.Ly()};
    w[k] = *q[k] = v[k] + by;
    CHECK(reads(D, w) && reads(A, v), "editing one parameter of a copy: the copy or its source reads wrong values");
    CHECK(!A.isApprox(D) && !D.isApprox(A), "shapes that differ by " << by << " in parameter " << k << " are said to be equal");
    CHECK(A.isApprox(D, 2 * std::fabs(by)), "a tolerance twice the difference is not honoured");
    c.hit();
  }
  // ribs
  double r[4] = {c.real(0.1, 1), c.sreal(0.5), c.real(0.01, 0.3), c.sreal(1.5)}, z[4];
  int id = int(c.range(0, 100));
  std::memcpy(z, r, sizeof r);
  int j = int(c.u(6)), id2 = id;
  if (j < 4) z[j] = j == 3 || j == 1 ? r[j] + by : r[j] + std::fabs(by);
  if (j == 4) id2 = id + int(c.range(1, 5));
  enve::rib P(id, r[0], r[1], r[2], r[3]), Q(P), E, F(id2, z[0], z[1], z[2], z[3]);
  E.copy(P);
  for (enve::rib const *x : {(enve::rib const *)&P, (enve::rib const *)&Q, (enve::rib const *)&E})
    CHECK(x->radius() == r[0] && x->center().y() == r[1] && x->center().x() == 0 && x->center().z() == 0 && x->width() == r[2] && x->angle() == r[3] && maxabs(V::of(x->normal()) - V(0, 1, 0)) == 0, "a rib or its copy does not read back its parameters");
  if (r[1] != 0 || true) CHECK(P.isApprox(Q) && Q.isApprox(P) && P.isApprox(E) && E.isApprox(P), "a copy of a rib is not equal to it");
  bool eq = j > 4;
  CHECK(P.isApprox(F) == eq && F.isApprox(P) == eq, "ribs that " << (eq ? "are equal" : "differ in one parameter") << " compare as " << P.isApprox(F) << (j == 4 ? " (identifier)" : ""));
  E.width() = z[2]; E.angle() = z[3];
  CHECK(E.width() == z[2] && E.angle() == z[3] && P.width() == r[2] && P.angle() == r[3], "editing a copy of a rib reaches its source");
  if (!eq) c.hit();
  c.label(eq ? "equal ribs" : "one parameter differs");
}

// ---------------------------------------------------------------------------
// P01: the numbers of a report, keyed by the word before '='
struct Line { std::string key; std::vector<double> v; };
static std::vector<double> numbers(std::string const &t) {
  std::vector<double> r;
  char const *p = t.c_str();
  while (*p) {
    bool start = std::isdigit((unsigned char)*p) || ((*p == '-' || *p == '+' || *p == '.') && (std::isdigit((unsigned char)p[1]) || p[1] == '.'));
    bool word = p != t.c_str() && (std::isalnum((unsigned char)p[-1]) || p[-1] == '^');
    if (start && !word) { char *e; r.push_back(std::strtod(p, &e)); p = e; }
    else if (!std::strncmp(p, "nan", 3) || !std::strncmp(p, "-nan", 4)) { r.push_back(NAN); p += *p == '-' ? 4 : 3; }
    else ++p;
  }
  return r;
}
static std::vector<Line> lines(std::string const &text) {
  std::vector<Line> r;
  std::istringstream in(text);
  std::string l;
  while (std::getline(in, l)) {
    size_t e = l.find('=');
    if (e == std::string::npos) {
      auto v = numbers(l);
      if (v.size() == 4) r.push_back(Line{"row", v});
      else if (v.size() == 1 && !r.empty()) r.back().v.push_back(v[0]); // a vector printed downwards
      continue;
    }
    std::string k = l.substr(0, e), val = l.substr(e + 1);
    size_t t = val.find('\t');
    if (t != std::string::npos) val.resize(t);
    k = k.substr(0, k.find_last_not_of(' ') + 1);
    size_t b = k.find("TRINGLEGROUND DATA");
    if (b == 0) k = k.substr(18);
    while (!k.empty() && (k[0] == ' ' || k[0] == '\t')) k.erase(0, 1);
    size_t e2 = val.find(" = "); // a second quantity on the line
    if (e2 != std::string::npos) {
      size_t k2 = val.rfind(' ', e2 - 1);
      r.push_back(Line{k, numbers(val.substr(0, k2))});
      r.push_back(Line{val.substr(k2 + 1, e2 - k2 - 1), numbers(val.substr(e2 + 3))});
      continue;
    }
    r.push_back(Line{k, numbers(val)});
  }
  return r;
}
static void expect(std::vector<Line> const &ls, size_t &at, std::string const &key, std::vector<double> const &want, std::string const &what, L scale = 0) {
  size_t i = at;
  while (i < ls.size() && ls[i].key != key) ++i;
  CHECK(i < ls.size(), what << ": no line \"" << key << "\" in the report");
  CHECK(ls[i].v.size() == want.size(), what << ": line \"" << key << "\" holds " << ls[i].v.size() << " numbers, expected " << want.size());
  for (size_t k = 0; k < want.size(); ++k) {
    bool nan = std::isnan(want[k]) && std::isnan(ls[i].v[k]);
    CHECK(nan || std::fabs(ls[i].v[k] - want[k]) <= 1e-5 * std::fabs(want[k]) + 1e-15L * (1 + scale) , what << ": line \"" << key << "\" prints " << ls[i].v[k] << " for " << want[k]);
  }
  at = i + 1;
}
static std::vector<double> vv(acme::vec3 const &v) { return {v.x(), v.y(), v.z()}; }
PBT(P01, reports, 400000, 15000000, "a report of a touching shell was read back") {
  Shape s = gen::shape(c);
  size_t n = gen::ribs(c, 8);
  Pose p = gen::pose(c, false);
  gen::note(c, s, n, p);
  Ground g = ground(c, s, p, 6);
  std::string m = method(c);
  auto S = gen::lib(c, s, n);
  bool touch = g.setup(*S, aff(p), m);
  {
    std::ostringstream os;
    S->print(os);
    auto ls = lines(os.str());
    size_t at = 0;
    expect(ls, at, "Rx", {s.Rx}, "shape"); expect(ls, at, "Mx", {s.Mx}, "shape"); expect(ls, at, "Ry", {s.Ry}, "shape"); expect(ls, at, "My", {s.My}, "shape"); expect(ls, at, "Ly", {s.Ly}, "shape");
    auto rib = [](size_t i, char const *k) { return "Rib " + std::to_string(i) + k; };
    for (size_t i = 0; i < n; ++i) {
      expect(ls, at, rib(i, " : C"), vv(S->ribCenter(i)), "rib"); expect(ls, at, "R", {S->ribRadius(i)}, "rib"); expect(ls, at, "W", {S->ribWidth(i)}, "rib"); expect(ls, at, "A", {S->ribAngle(i)}, "rib");
    }
    acme::vec3 e, N, ang; acme::point P; double f, d, a, v; acme::affine F;
    S->eulerAngles(e); S->contactPoint(P); S->contactNormal(N); S->contactFriction(f); S->contactDepth(d); S->contactArea(a); S->contactVolume(v); S->contactPointAffine(F); S->relativeAngles(ang);
    double const pi = acme::PI;
    expect(ls, at, "R", {s.Rx}, "shell");
    expect(ls, at, "Γ", {e.y() / pi}, "camber"); expect(ls, at, "ß", {e.z() / pi}, "rotation"); expect(ls, at, "α", {e.x() / pi}, "yaw");
    expect(ls, at, "P", vv(P), "contact point");
    for (size_t i = 0; i < n; ++i) expect(ls, at, rib(i, " - P"), vv(ev(read(*S, i).P)), "rib point");
    expect(ls, at, "N", vv(N), "contact normal");
    for (size_t i = 0; i < n; ++i) expect(ls, at, rib(i, " - N"), vv(ev(read(*S, i).N)), "rib normal");
    expect(ls, at, "f", {f}, "friction");
    for (size_t i = 0; i < n; ++i) expect(ls, at, rib(i, " - f"), {double(read(*S, i).f)}, "rib friction");
    expect(ls, at, "d", {d}, "depth");
    for (size_t i = 0; i < n; ++i) expect(ls, at, rib(i, " - d"), {double(read(*S, i).d)}, "rib depth");
    expect(ls, at, "A", {a}, "area");
    for (size_t i = 0; i < n; ++i) expect(ls, at, rib(i, " - A"), {double(read(*S, i).a)}, "rib area");
    expect(ls, at, "V", {v}, "volume");
    for (size_t i = 0; i < n; ++i) expect(ls, at, rib(i, " - V"), {double(read(*S, i).v)}, "rib volume");
    for (auto const *A : {&S->transformation(), (acme::affine const *)&F})
      for (int r = 0; r < 4; ++r) { auto const &M = A->matrix(); expect(ls, at, "row", {M(r, 0), M(r, 1), M(r, 2), M(r, 3)}, "frame"); }
    expect(ls, at, "[Γ ß α]'", {ang.x() / pi, ang.y() / pi, ang.z() / pi}, "relative angles");
    for (size_t i = 0; i < n; ++i) { acme::vec3 q; S->relativeAngles(i, q); expect(ls, at, rib(i, " - [Γ ß α]'"), {q.x() / pi, q.y() / pi, q.z() / pi}, "rib relative angles"); }
    if (touch) c.hit();
    c.label(touch ? "touching shell" : "free shell");
  }
  if (g.mesh) {
    char const *w = std::getenv("PBT_WORK");
    std::string path = std::string(w ? w : "/tmp") + "/print_" + std::to_string(getpid()) + ".txt";
    g.mesh->print(path);
    std::ifstream in(path);
    std::stringstream b;
    b << in.rdbuf();
    auto ls = lines(b.str());
    size_t at = 0;
    for (size_t i = 0; i < g.mesh->size(); ++i) {
      enve::triangleground const &t = *(*g.mesh)[i];
      std::string what = "triangle " + std::to_string(i);
      expect(ls, at, "T", {double(i)}, what);
      for (int k = 0; k < 3; ++k) expect(ls, at, "V" + std::to_string(k), vv(t.vertex(k)), what);
      expect(ls, at, "N", vv(t.normal()), what); expect(ls, at, "F", {t.friction()}, what);
    }
    CHECK(at == ls.size(), "the mesh report holds further lines");
    unlink(path.c_str());
    std::ostringstream os;
    enve::triangleground const &t = *(*g.mesh)[c.u(g.mesh->size())];
    t.print(os);
    ls = lines(os.str());
    at = 0;
    expect(ls, at, "ID", {double(t.id())}, "triangle"); expect(ls, at, "F", {t.friction()}, "triangle");
    for (int k = 0; k < 3; ++k) expect(ls, at, "V" + std::to_string(k), vv(t.vertex(k)), "triangle");
    expect(ls, at, "N", vv(t.normal()), "triangle"); expect(ls, at, "Max", vv(t.bbox().max()), "triangle"); expect(ls, at, "Min", vv(t.bbox().min()), "triangle");
    c.label("mesh");
  } else {
    std::ostringstream os;
    g.flat->print(os);
    auto ls = lines(os.str());
    size_t at = 0;
    expect(ls, at, "F", {g.flat->friction()}, "flat"); expect(ls, at, "O", vv(g.flat->origin()), "flat"); expect(ls, at, "N", vv(g.flat->normal()), "flat");
    c.label("flat");
  }
}
