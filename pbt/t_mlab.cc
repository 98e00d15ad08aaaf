// M02: the MATLAB classes of toolbox/lib, run by an interpreter (mlang.hh) over the real gateways,
// against the library called directly
#include "t_mex.cc"
#include "mlang.hh"
namespace {
using ml::Value;
using ml::Values;
char const *cname[] = {"enve_shell", "enve_flat", "enve_mesh", "enve_triangleground"};
struct Drawn { std::string what; Values args; };

struct Lab {
  ml::Interp in;
  std::map<uint64_t, Value> objs[NOBJ]; // the wrapper objects by handle
  std::vector<Drawn> drawn;
  std::map<std::string, Values> window; // the limits of the axes
  std::set<std::string> absent{"ribAngle", "checkTransformation", "load"}; // commands that no class offers
  Lab() {
    char const *repo = getenv("PBT_REPO");
    for (auto n : cname) in.load(std::string(repo ? repo : "/repo") + "/toolbox/lib/" + n + ".m");
    in.host = [this](std::string const &n, int nargout, Values &a, Values &o) { return host(n, nargout, a, o); };
    in.host_method = [this](std::shared_ptr<ml::Obj> const &s, std::string const &n, int nargout, Values &a, Values &o) { return foreign(s, n, nargout, a, o); };
  }
  void reset() { for (auto &m : objs) { for (auto &q : m) q.second.o->end = nullptr; m.clear(); } drawn.clear(); in.shown.clear(); in.ends.clear(); in.steps = 0; }
  static mxArray *pack(Value const &v) {
    if (v.k == Value::STR) return mock::text(v.s);
    if (v.k == Value::NUM) {
      if (v.u64) return ::handle(v.h);
      if (v.logical) { mxArray *a = mock::make(mxLOGICAL_CLASS, {v.r, v.c}); for (size_t i = 0; i < v.x.size(); ++i) a->data[i] = v.x[i] != 0; return a; }
      return matrix(v.r, v.c, v.x);
    }
    return mock::make(v.k == Value::CELL ? mxCELL_CLASS : mxUNKNOWN_CLASS, {v.r, v.c});
  }
  static Value unpack(mxArray const *a) {
    if (a->cls == mxCHAR_CLASS) return Value::str(a->text);
    if (a->cls == mxUINT64_CLASS && a->count() == 1) { uint64_t h; std::memcpy(&h, a->data, 8); return Value::handle(h); }
    Value v = Value::mat(mxGetM(a), mxGetN(a));
    if (a->cls == mxDOUBLE_CLASS) v.x.assign(mxGetPr(a), mxGetPr(a) + a->count());
    else if (a->count() == 1) v.x = {mxGetScalar(a)};
    else if (a->cls == mxLOGICAL_CLASS) for (size_t i = 0; i < v.x.size(); ++i) v.x[i] = a->data[i];
    else throw ml::Unsupported{"an array of another class"};
    v.logical = a->cls == mxLOGICAL_CLASS;
    return v;
  }
  static Value vec(acme::vec3 const &p) { return Value::mat(3, 1, {p.x(), p.y(), p.z()}); }
  static acme::vec3 vec(Value const &v) { if (v.k != Value::NUM || v.count() != 3) throw ml::MError{"three numbers expected"}; return acme::vec3(v.x[0], v.x[1], v.x[2]); }
  // objects of the ACME toolbox own a C++ object and know it by its handle
  template <class T> Value own(char const *cls, T *p) {
    Value o;
    o.k = Value::OBJ;
    o.r = o.c = 1;
    o.o = std::make_shared<ml::Obj>();
    o.o->cls = cls;
    mxArray *h = utils::mex_convert_ptr_to_mx<T>(p);
    o.o->f["objectHandle"] = unpack(h);
    o.o->end = [](ml::Obj &q) { mxArray const *k = ::handle(q.f["objectHandle"].h); utils::mex_destroy_object<T>(k); };
    return o;
  }
  template <class T> static T &get(ml::Obj &o) { return *utils::mex_convert_mx_to_ptr<T>(::handle(o.f["objectHandle"].h)); }
  template <class T> static void adopt(ml::Obj &o, Values &a) {
    if (a.size() != 1 || !a[0].u64) throw ml::MError{"copyByHandle: a handle is expected"};
    mxArray const *k = ::handle(a[0].h);
    get<T>(o) = *utils::mex_convert_mx_to_ptr<T>(k);
    utils::mex_destroy_object<T>(k);
  }
  static Value plain(char const *cls) { Value o; o.k = Value::OBJ; o.r = o.c = 1; o.o = std::make_shared<ml::Obj>(); o.o->cls = cls; return o; }
  bool host(std::string const &n, int nargout, Values &a, Values &out) {
    for (int g = 0; g < NOBJ; ++g) if (n == oname[g]) {
      std::vector<mxArray *> v;
      for (auto const &x : a) v.push_back(pack(x));
      Result r = call(Obj(g), nargout, v);
      if (r.err) throw ml::MError{r.msg};
      if (r.out) out = {unpack(r.out)};
      return true;
    }
    if (n == "acme_point") {
      acme::point p(acme::QUIET_NAN, acme::QUIET_NAN, acme::QUIET_NAN);
      if (a.size() == 1) p = acme::point(vec(a[0]));
      if (a.size() == 3) p = acme::point(ml::Interp::scalar(a[0]), ml::Interp::scalar(a[1]), ml::Interp::scalar(a[2]));
      out = {own("acme_point", new acme::point(p))};
      return true;
    }
    if (n == "acme_plane") {
      acme::plane *p = new acme::plane();
      out = {own("acme_plane", p)};
      if (a.size() == 2) *p = acme::plane(acme::point(vec(a[0])), vec(a[1]));
      return true;
    }
    if (n == "acme_disk") {
      if (a.size() != 3) throw ml::MError{"acme_disk: three arguments"};
      Value o = plain("acme_disk");
      o.o->f["radius"] = a[0];
      o.o->f["center"] = vec(vec(a[1]));
      o.o->f["normal"] = vec(vec(a[2]));
      out = {o};
      return true;
    }
    if (n == "acme_triangle") {
      if (a.size() != 3) throw ml::MError{"acme_triangle: three arguments"};
      Value o = plain("acme_triangle");
      for (int i = 0; i < 3; ++i) o.o->f["v" + std::to_string(i)] = vec(vec(a[i]));
      out = {o};
      return true;
    }
    static std::set<std::string> const pictures{"surf", "mesh", "patch", "plot", "plot3", "quiver3", "fill3", "line"}, quiet{"hold", "axis", "grid", "xlim", "ylim", "zlim", "figure", "view", "clc", "drawnow", "xlabel", "ylabel", "zlabel", "title", "colormap", "shading", "camlight", "lighting", "set", "gca", "gcf"};
    if (pictures.count(n)) { drawn.push_back({n, a}); out = {plain("graphics")}; return true; }
    if (n.size() == 4 && n.substr(1) == "lim") window[n] = a;
    if (quiet.count(n)) { out = {plain("graphics")}; return true; }
    return false;
  }
  bool foreign(std::shared_ptr<ml::Obj> const &s, std::string const &n, int, Values &a, Values &out) {
    if (s->cls == "acme_point") {
      acme::point &p = get<acme::point>(*s);
      if (n == "get") { out = {vec(p)}; return true; }
      if (n == "getX" || n == "getY" || n == "getZ") { out = {Value::num(p(n[3] - 'X'))}; return true; }
      if (n == "copyByHandle") { adopt<acme::point>(*s, a); return true; }
      if (n == "type") { out = {Value::str("point")}; return true; }
    } else if (s->cls == "acme_plane") {
      acme::plane &p = get<acme::plane>(*s);
      if (n == "getOrigin") { out = {own("acme_point", new acme::point(p.origin()))}; return true; }
      if (n == "getNormal") { out = {vec(p.normal())}; return true; }
      if (n == "copyByHandle") { adopt<acme::plane>(*s, a); return true; }
      if (n == "type") { out = {Value::str("plane")}; return true; }
      if (n == "plot") { drawn.push_back({"plane", {vec(p.origin()), vec(p.normal())}}); return true; }
    } else if (s->cls == "acme_disk") {
      if (n == "plot") { drawn.push_back({"disk", {s->f["radius"], s->f["center"], s->f["normal"]}}); return true; }
      if (n == "transform") {
        if (a.size() != 1 || a[0].r != 4 || a[0].c != 4) throw ml::MError{"acme_disk: a 4x4 matrix is expected"};
        std::vector<double> const &T = a[0].x;
        acme::vec3 p = vec(s->f["center"]), m = vec(s->f["normal"]), q, k;
        for (int i = 0; i < 3; ++i) { q(i) = T[12 + i]; k(i) = 0; for (int j = 0; j < 3; ++j) { q(i) += T[i + 4 * j] * p(j); k(i) += T[i + 4 * j] * m(j); } }
        s->f["center"] = vec(q);
        s->f["normal"] = vec(k);
        return true;
      }
    } else if (s->cls == "acme_triangle") {
      if (n == "type") { out = {Value::str("triangle")}; return true; }
    }
    return false;
  }
  uint64_t keep(Obj g, Value const &o) {
    if (o.k != Value::OBJ || o.o->cls != cname[g] || !o.o->f.count("objectHandle") || !o.o->f["objectHandle"].u64) throw ml::MError{"no object with a handle"};
    uint64_t h = o.o->f["objectHandle"].h;
    objs[g][h] = o;
    return h;
  }
  // a gateway command, given through the class
  Result go(Obj g, int nlhs, std::vector<mxArray *> const &args) {
    std::string n = args[0]->text;
    try {
      Values a;
      if (n == "new") {
        for (size_t i = 1; i < args.size(); ++i) a.push_back(args[i]->cls == mxDOUBLE_CLASS || args[i]->cls == mxCHAR_CLASS ? unpack(args[i]) : Value::num(mxGetScalar(args[i])));
        return {false, "", ::handle(keep(g, in.construct(cname[g], a)))};
      }
      uint64_t h;
      std::memcpy(&h, args[1]->data, 8);
      if (!objs[g].count(h)) throw ml::MError{"lost object"};
      Value self = objs[g][h];
      if (n == "delete") { in.call(self, "delete", {}, 0); self.o->end = nullptr; objs[g].erase(h); return {false, "", nullptr}; }
      std::string m = n == "checkWidthBound" ? "surfaceWidthBound" : n;
      if (absent.count(m) && !in.method(cname[g], m)) return call(g, nlhs, args);
      std::vector<std::shared_ptr<void>> hold;
      for (size_t i = 2; i < args.size(); ++i) {
        if (args[i]->cls == mxUINT64_CLASS && m.compare(0, 9, "setVertex") == 0) { a.push_back(own("acme_point", new acme::point(*utils::mex_convert_mx_to_ptr<acme::point>(args[i])))); continue; }
        if (args[i]->cls != mxUINT64_CLASS || !(m == "setupFlat" || m == "setupMesh" || m == "copy" || m == "isApprox" || m == "setPlane")) {
          a.push_back(args[i]->cls == mxDOUBLE_CLASS || args[i]->cls == mxCHAR_CLASS ? unpack(args[i]) : Value::num(mxGetScalar(args[i])));
          continue;
        }
        uint64_t k;
        std::memcpy(&k, args[i]->data, 8);
        if (m == "setPlane") { Value p = own("acme_plane", new acme::plane(*utils::mex_convert_mx_to_ptr<acme::plane>(args[i]))); a.push_back(p); continue; }
        Obj e = m == "setupFlat" ? FLAT : m == "setupMesh" ? MESH : g;
        a.push_back(objs[e].at(k));
      }
      Values r = in.call(self, m, a, nlhs);
      if (nlhs == 0) return {false, "", nullptr};
      if (r.empty()) return {false, "", nullptr};
      return {false, "", back(r[0])};
    } catch (ml::MError const &e) { return {true, e.msg, nullptr}; }
  }
  mxArray *back(Value const &v) {
    if (v.k == Value::OBJ) {
      if (v.o->cls == "acme_point") return utils::mex_convert_ptr_to_mx<acme::point>(new acme::point(get<acme::point>(*v.o)));
      if (v.o->cls == "acme_plane") return utils::mex_convert_ptr_to_mx<acme::plane>(new acme::plane(get<acme::plane>(*v.o)));
      if (v.o->cls == cname[TRIA]) return ::handle(keep(TRIA, v));
      throw ml::MError{"an object of class " + v.o->cls};
    }
    return pack(v);
  }
};
Lab &lab() { static Lab *l = new Lab; return *l; }

struct Classes : Session {
  Lab &l;
  explicit Classes(Case &cc) : Session(cc), l(lab()) {
    l.reset();
    empty_meshes = false;
    go = [this](Obj g, int nlhs, std::vector<mxArray *> const &a) { return l.go(g, nlhs, a); };
  }
  Value &obj(Obj g, size_t o) { return l.objs[g].at(w.handle(g, o)); }
  // a method of the class, which must not fail
  Value ask(Obj g, size_t o, std::string const &m, Values a, int nargout = 1) {
    if (c.verbose) c.log << cname[g] << " " << o << ": " << m << "\n";
    try {
      Values r = l.in.call(obj(g, o), m, a, nargout);
      CHECK(int(r.size()) >= nargout, cname[g] << "." << m << " gives no output");
      return nargout ? r[0] : Value();
    } catch (ml::MError const &e) { CHECK(false, cname[g] << "." << m << " fails: " << e.msg); }
    return Value();
  }
  void refused(Obj g, size_t o, std::string const &m, Values a) {
    bool e = false;
    try { Quiet z; l.in.call(obj(g, o), m, a, m == "isApprox" ? 1 : 0); } catch (ml::MError const &) { e = true; }
    CHECK(e, cname[g] << "." << m << " takes an object of class " << (a.empty() || a[0].k != Value::OBJ ? "?" : a[0].o->cls));
  }
  static std::vector<double> numbers(Value const &v) {
    if (v.k == Value::NUM) return v.x;
    if (v.k == Value::OBJ && v.o->cls == "acme_point") { acme::point &p = Lab::get<acme::point>(*v.o); return {p.x(), p.y(), p.z()}; }
    CHECK(false, "no number came back");
    return {};
  }
  void equal(std::vector<double> const &got, std::vector<double> const &want, std::string const &what, double tol = 0) {
    CHECK(got.size() == want.size(), what << " gives " << got.size() << " numbers, expected " << want.size());
    for (size_t i = 0; i < got.size(); ++i) CHECK(same(got[i], want[i]) || std::fabs(got[i] - want[i]) <= tol, what << " gives " << show(got) << ", expected " << show(want));
  }
  void vectors(size_t o) {
    static char const *const base[] = {"contactPoint", "contactNormal", "contactDepth", "contactFriction", "contactArea", "contactVolume", "relativeAngles", "contactPointAffine"};
    std::string b = base[c.u(8)];
    Cmd const *q = nullptr;
    for (auto const &k : queries()) if (k.g == SHELL && k.name == b + "Rib") q = &k;
    Value v = ask(SHELL, o, b + "Vec", {});
    size_t n = w.s[o].m->size();
    CHECK((v.k == Value::CELL || v.k == Value::NUM) && v.count() == n, "enve_shell." << b << "Vec gives " << v.count() << " values for " << n << " ribs");
    for (size_t i = 0; i < n; ++i) {
      std::vector<Arg> a(1);
      a[0].i = int64_t(i) + 1;
      Val want;
      { Quiet z; want = q->fn(w, o, a); }
      equal(v.k == Value::NUM ? std::vector<double>{v.x[i]} : numbers(v.cells[i]), want.x, "enve_shell." + b + "Vec, rib " + std::to_string(i + 1));
    }
    c.label("vectors");
  }
  void kinds() {
    static char const *const names[] = {"shell", "flat", "mesh", "triangleground"};
    Obj g = Obj(c.u(NOBJ));
    if (!w.count(g)) return;
    size_t o = c.u(w.count(g));
    Value t = ask(g, o, "type", {});
    CHECK(t.k == Value::STR && t.s == names[g], cname[g] << " says that it is a " << t.s);
    l.in.shown.clear();
    ask(g, o, "disp", {}, 0);
    if (g == SHELL || g == MESH) {
      std::string n = std::to_string(g == SHELL ? w.s[o].m->size() : w.g[o].m->size());
      CHECK(l.in.shown.find(n) != std::string::npos, cname[g] << ".disp shows " << l.in.shown << ", the size is " << n);
    } else CHECK(!l.in.shown.empty(), cname[g] << ".disp shows nothing");
    if (g == SHELL) return;
    for (int e = 1; e < NOBJ; ++e) if (e != g && w.count(Obj(e))) {
      Value other = obj(Obj(e), c.u(w.count(Obj(e))));
      refused(g, o, "copy", {other});
      if (g == FLAT) refused(g, o, "isApprox", {other});
      c.label("copy from another kind");
    }
    if (g == SHELL || w.count(g) < 1) return;
    size_t p = c.u(w.count(g)); // copyByHandle is copy
    if (c.flag()) {
      ask(g, o, "copyByHandle", {Value::handle(w.handle(g, p))}, 0);
      if (g == FLAT) w.f[o].m->copy(*w.f[p].m); else if (g == MESH) w.g[o].m->copy(*w.g[p].m); else w.t[o].m->copy(*w.t[p].m);
    }
  }
  void triangles() {
    if (w.g.empty()) return;
    size_t o = c.u(w.g.size()), n = w.g[o].m->size();
    if (!n) return;
    size_t i = c.u(n);
    auto t = w.g[o].m->ptrTriangleground(i);
    std::vector<double> want;
    for (int k = 0; k < 3; ++k) for (int j = 0; j < 3; ++j) want.push_back(t->vertex(k)(j));
    equal(numbers(ask(MESH, o, "getTriangleVertices", {Value::num(double(i + 1))})), want, "enve_mesh.getTriangleVertices");
    Value v = ask(MESH, o, "getTriangle", {Value::num(double(i + 1))});
    CHECK(v.k == Value::OBJ && v.o->cls == "acme_triangle", "enve_mesh.getTriangle gives no triangle");
    std::vector<double> got;
    for (int k = 0; k < 3; ++k) for (double d : numbers(v.o->f["v" + std::to_string(k)])) got.push_back(d);
    equal(got, want, "enve_mesh.getTriangle");
  }
  void files() {
    Values a;
    std::string why;
    auto obj = [&] { std::ofstream(dir + ".obj") << "v 0 0 0\nv 1 0 0\nv 0 1 0\nf 1 2 3\n"; return Value::str(dir + ".obj"); };
    switch (c.u(6)) {
      case 3: a = {obj(), Value::mat(4, 4)}; why = "a matrix for the friction"; break;
      case 4: a = {obj(), Value::mat(4, 4), Value::num(1)}; why = "a matrix for the friction and a number for the pose"; break;
      case 5: a = {obj(), Value::num(1), Value::mat(3, 3)}; why = "a pose of another size"; break;
      case 0: a = {Value::str(dir + ".missing.obj"), Value::num(1)}; why = "a missing file"; break;
      case 1: { std::ofstream(dir + ".txt") << "v 0 0 0\n"; a = {Value::str(dir + ".txt")}; why = "a file of another kind"; break; }
      default: { std::ofstream(dir + ".rdf") << "[NODES]\n[ELEMENTS]\n"; a = {Value::str(dir + ".rdf"), Value::mat(4, 4), Value::num(1)}; why = "too many arguments"; break; }
    }
    bool e = false;
    try { Quiet z; Value v = l.in.construct("enve_mesh", a); } catch (ml::MError const &) { e = true; }
    std::remove((dir + ".txt").c_str());
    std::remove((dir + ".rdf").c_str());
    std::remove((dir + ".obj").c_str());
    CHECK(e, "enve_mesh takes " << why);
    c.label("file refused");
  }
  // three arrows along the axes of a pose
  void arrows(std::string const &what, std::vector<double> const &T, double tol) {
    int k = 0;
    for (auto const &d : l.drawn) if (d.what == "quiver3") {
      CHECK(k < 3 && d.args.size() >= 6, what << " draws other arrows than the axes");
      std::vector<double> g;
      for (int i = 0; i < 6; ++i) g.push_back(ml::Interp::scalar(d.args[i]));
      equal(g, {T[12], T[13], T[14], T[size_t(4 * k)], T[size_t(4 * k + 1)], T[size_t(4 * k + 2)]}, what + ", arrow " + std::to_string(k + 1), tol);
      ++k;
    }
    CHECK(k == 3, what << " draws " << k << " arrows");
  }
  // the picture shows what is at a point, and around it across the axle
  void shown(std::string const &what, double x, double y, double z, double r) {
    double const at[3] = {x, y, z};
    if (!std::isfinite(x + y + z)) return;
    for (int j = 0; j < 3; ++j) {
      auto q = l.window.find(std::string(1, char('x' + j)) + "lim");
      if (q == l.window.end()) continue; // then MATLAB shows everything
      CHECK(q->second.size() == 1 && q->second[0].count() == 2 && q->second[0].k == Value::NUM, what << " sets a strange limit");
      double lo = q->second[0].x[0], hi = q->second[0].x[1], e = 1e-9 * (1 + std::fabs(at[j])), s = j == 1 ? 0 : r;
      CHECK(lo <= at[j] - s + e && hi >= at[j] + s - e, what << " shows " << char('x' + j) << " from " << lo << " to " << hi << ", the object is at " << at[j] << ", radius " << r);
    }
  }
  void draw() {
    l.drawn.clear();
    l.window.clear();
    Value fig = Value::num(1), red = Value::str("r"), one = Value::num(0.5);
    Obj g = Obj(c.u(NOBJ));
    if (c.flag(2, 3)) g = SHELL;
    if (!w.count(g)) return;
    size_t o = c.u(w.count(g));
    c.label("drawing");
    if (g == MESH || g == TRIA) {
      ask(g, o, "plot", {fig, red}, 0);
      size_t n = g == MESH ? w.g[o].m->size() : 1;
      CHECK(l.drawn.size() == 1 && l.drawn[0].what == "patch" && l.drawn[0].args.size() >= 3, cname[g] << ".plot draws no patch");
      for (int j = 0; j < 3; ++j) {
        std::vector<double> want;
        for (size_t i = 0; i < n; ++i) for (int k = 0; k < 3; ++k) want.push_back(g == MESH ? double(w.g[o].m->ptrTriangleground(i)->vertex(k)(j)) : double(cst(*w.t[o].m).vertex(k)(j)));
        equal(numbers(l.drawn[0].args[j]), want, std::string(cname[g]) + ".plot, coordinate " + std::to_string(j + 1));
      }
      return;
    }
    if (g == FLAT) {
      ask(g, o, "plot", {fig, red}, 0);
      CHECK(l.drawn.size() == 1 && l.drawn[0].what == "plane", "enve_flat.plot draws no plane");
      acme::plane p(w.f[o].m->layingPlane());
      equal(numbers(l.drawn[0].args[0]), {p.origin().x(), p.origin().y(), p.origin().z()}, "enve_flat.plot");
      equal(numbers(l.drawn[0].args[1]), {p.normal().x(), p.normal().y(), p.normal().z()}, "enve_flat.plot");
      return;
    }
    enve::shell &S = *w.s[o].m;
    std::vector<double> T = cols(S.transformation()), I = cols(aff(Pose()));
    double far = 1 + S.surfaceMaxRadius();
    for (int i = 12; i < 15; ++i) far += std::fabs(T[size_t(i)]);
    L tol = 1e-12L * far;
    bool posed = c.flag();
    std::vector<double> const &M = posed ? T : I;
    auto local = [&](double x, double y, double z) { V p(x - M[12], y - M[13], z - M[14]); return V(dot(V(M[0], M[1], M[2]), p), dot(V(M[4], M[5], M[6]), p), dot(V(M[8], M[9], M[10]), p)); };
    // the pose may have been set to something that is no rotation: then the pictures are not judged
    bool rigid = true;
    for (size_t i = 0; i < 3; ++i) for (size_t j = 0; j < 3; ++j) {
      double d = T[4 * i] * T[4 * j] + T[4 * i + 1] * T[4 * j + 1] + T[4 * i + 2] * T[4 * j + 2];
      if (!(std::fabs(d - (i == j)) < 1e-12)) rigid = false;
    }
    switch (c.u(6)) {
      case 0: { // the profile
        ask(SHELL, o, "profile", {fig, red}, 0);
        CHECK(l.drawn.size() == 1 && l.drawn[0].args.size() >= 2, "enve_shell.profile draws nothing");
        std::vector<double> y = numbers(l.drawn[0].args[0]), r = numbers(l.drawn[0].args[1]);
        CHECK(y.size() == r.size() && y.size() > 10, "enve_shell.profile draws " << y.size() << " points");
        CHECK(std::fabs(y.front() + S.surfaceWidth()) <= tol && std::fabs(y.back() - S.surfaceWidth()) <= tol, "enve_shell.profile goes from " << y.front() << " to " << y.back());
        for (size_t i = 0; i < y.size(); ++i) equal({r[i]}, {S.surfaceRadius(y[i])}, "enve_shell.profile");
        return;
        break;
      }
      case 1: case 2: { // the surface
        bool grid = c.flag(1, 3);
        Value X, Y, Z;
        std::string me = grid ? "meshShell" : posed ? "plotShape" : "shellShape";
        if (grid) {
          Value v = ask(SHELL, o, me, {});
          CHECK(v.k == Value::STRUCT && v.fields.count("X") && v.fields.count("Y") && v.fields.count("Z"), "enve_shell.meshShell gives no grid");
          X = v.fields["X"]; Y = v.fields["Y"]; Z = v.fields["Z"];
        } else {
          ask(SHELL, o, me, {fig, red, one}, 0);
          for (auto const &d : l.drawn) if (d.what == "surf") { X = d.args[0]; Y = d.args[1]; Z = d.args[2]; }
          arrows("enve_shell." + me, M, 0);
        }
        CHECK(X.count() > 100 && X.r > 10 && X.c > 10 && X.count() == Y.count() && X.count() == Z.count(), "enve_shell." << me << " draws " << X.count() << " points");
        if (posed && !grid && !rigid) break;
        double lo = 1e300, hi = -1e300;
        for (size_t i = 0; i < X.count(); ++i) {
          V q = grid ? V(X.x[i], Y.x[i], Z.x[i]) : local(X.x[i], Y.x[i], Z.x[i]);
          double y = std::max(-S.surfaceWidth(), std::min(S.surfaceWidth(), double(q.y)));
          L slope = std::fabs(S.surfaceDerivative(y)) + std::fabs(S.surfaceDerivative(double(y * (1 - 1e-9L))));
          L R = std::sqrt(q.x * q.x + q.z * q.z);
          CHECK(std::fabs(q.y - y) <= 20 * tol && std::fabs(R - S.surfaceRadius(y)) <= 50 * tol * (1 + slope), "enve_shell." << me << " draws a point " << double(R) << " off the axle at " << double(q.y) << ", the tyre has " << S.surfaceRadius(y));
          lo = std::min(lo, double(q.y));
          hi = std::max(hi, double(q.y));
        }
        CHECK(std::fabs(lo + S.surfaceWidth()) <= 20 * tol && std::fabs(hi - S.surfaceWidth()) <= 20 * tol, "enve_shell." << me << " draws the tyre from " << lo << " to " << hi);
        break;
      }
      case 3: { // the ribs as disks
        std::string me = posed ? "plotRibs" : "shellRibs";
        ask(SHELL, o, me, {fig, red, one}, 0);
        arrows("enve_shell." + me, M, 0);
        size_t i = 0;
        for (auto const &d : l.drawn) if (d.what == "disk") {
          CHECK(i < S.size(), "enve_shell." << me << " draws too many ribs");
          acme::point p = S.ribCenter(i);
          std::vector<double> at(3);
          for (size_t k = 0; k < 3; ++k) at[k] = M[12 + k] + M[k] * p.x() + M[4 + k] * p.y() + M[8 + k] * p.z();
          equal(numbers(d.args[0]), {S.ribRadius(i)}, "enve_shell." + me);
          equal(numbers(d.args[1]), at, "enve_shell." + me, double(tol));
          equal(numbers(d.args[2]), {M[4], M[5], M[6]}, "enve_shell." + me, double(tol));
          ++i;
        }
        CHECK(i == S.size(), "enve_shell." << me << " draws " << i << " ribs of " << S.size());
        break;
      }
      case 4: { // the ribs as slices of the tyre
        std::string me = posed ? "plotEnve" : "shellEnve";
        ask(SHELL, o, me, {fig, red, one}, 0);
        arrows("enve_shell." + me, M, 0);
        std::vector<int> seen(S.size(), 0);
        size_t n = 0;
        double wd = S.ribWidth(0);
        for (auto const &d : l.drawn) if (d.what == "surf") {
          ++n;
          Value const &X = d.args[0], &Y = d.args[1], &Z = d.args[2];
          CHECK(X.r == 2 && X.c > 10 && Y.count() == X.count() && Z.count() == X.count(), "enve_shell." << me << " draws a slice of " << X.r << " rows");
          if (posed && !rigid) continue;
          V a = local(X.x[0], Y.x[0], Z.x[0]), b = local(X.x[1], Y.x[1], Z.x[1]);
          double mid = double(a.y + b.y) / 2;
          size_t i = size_t(std::max(0.0, std::min(double(S.size()) - 1, std::floor((mid + S.surfaceWidth()) / wd))));
          ++seen[i];
          CHECK(std::fabs(mid - S.ribCenter(i).y()) <= 20 * tol && std::fabs(std::fabs(a.y - b.y) - wd) <= 40 * tol, "enve_shell." << me << " draws a slice from " << double(a.y) << " to " << double(b.y) << ", rib " << i + 1 << " is at " << S.ribCenter(i).y() << " and " << wd << " wide");
          double slope = S.surfaceDerivative(S.ribCenter(i).y());
          if (!std::isfinite(slope)) continue;
          for (size_t k = 0; k < X.count(); ++k) {
            V q = local(X.x[k], Y.x[k], Z.x[k]);
            L R = std::sqrt(q.x * q.x + q.z * q.z), want = std::fabs(S.ribRadius(i) + slope * (q.y - S.ribCenter(i).y()));
            CHECK(std::fabs(R - want) <= 100 * tol * (1 + std::fabs(slope)) + 1e-9 * std::fabs(slope) * wd, "enve_shell." << me << " draws a point " << double(R) << " off the axle at " << double(q.y) << ", rib " << i + 1 << " has " << double(want));
          }
        }
        CHECK(n == S.size(), "enve_shell." << me << " draws " << n << " slices of " << S.size());
        if (!(posed && !rigid)) for (int k : seen) CHECK(k == 1, "enve_shell." << me << " draws one slice " << k << " times");
        break;
      }
      default: { // the contact
        acme::affine k;
        size_t how = c.u(3);
        if (how == 0) {
          { Quiet z; S.contactPointAffine(k); }
          ask(SHELL, o, "plotSetupAvg", {fig, one}, 0);
          arrows("enve_shell.plotSetupAvg", cols(k), 0);
        } else if (how == 1) {
          size_t i = c.u(S.size());
          { Quiet z; S.contactPointAffine(i, k); }
          ask(SHELL, o, "plotSetupRib", {Value::num(double(i + 1)), fig, one}, 0);
          arrows("enve_shell.plotSetupRib", cols(k), 0);
        } else {
          ask(SHELL, o, "plotSetupVec", {fig, one}, 0);
          std::vector<Drawn> all;
          for (auto const &d : l.drawn) if (d.what == "quiver3") all.push_back(d);
          CHECK(all.size() == 3 * S.size(), "enve_shell.plotSetupVec draws " << all.size() << " arrows for " << S.size() << " ribs");
          for (size_t i = 0; i < S.size(); ++i) {
            { Quiet z; S.contactPointAffine(i, k); }
            l.drawn.assign(all.begin() + long(3 * i), all.begin() + long(3 * i + 3));
            arrows("enve_shell.plotSetupVec", cols(k), 0);
          }
        }
        acme::mat4 f = k.matrix();
        shown("the picture of the contact", f(0, 3), f(1, 3), f(2, 3), S.surfaceMaxRadius());
        return;
      }
    }
    shown("the picture of the shell", M[12], M[13], M[14], S.surfaceMaxRadius());
  }
};
} // namespace

PBT(M02, classes, 16000, 700000, "a shell touched a ground, and its vectors, pictures or other objects were asked for") {
  int steps = int(c.range(2, 24));
  bool more = false, touched = false;
  try {
    Classes s(c);
    gen::note(c, s.shape, 0, s.p);
    s.make(SHELL);
    s.make(c.flag() ? MESH : FLAT);
    for (int k = 0; k < steps; ++k) {
      switch (c.u(10)) {
        case 0: { Obj g = Obj(c.u(NOBJ)); if (s.w.count(g) < 4) s.make(g); break; }
        case 1: { Obj g = Obj(c.u(NOBJ)); if (s.w.count(g) > (g == SHELL ? 1 : 0) && c.flag(1, 2)) s.drop(g, c.u(s.w.count(g))); break; }
        case 2: s.vectors(c.u(s.w.s.size())); more = true; break;
        case 3: s.kinds(); break;
        case 4: s.triangles(); break;
        case 5: if (c.flag(1, 4)) s.files(); else { s.draw(); more = true; } break;
        case 6: {
          Cmd const &q = c.pick(queries());
          if (!s.w.count(q.g)) break;
          size_t o = c.u(s.w.count(q.g));
          std::vector<Arg> a;
          if (s.choose(q, o, a)) s.run(q, o, a);
          break;
        }
        default: {
          Cmd const &q = c.flag(1, 2) ? changes()[c.u(2)] : c.pick(changes());
          if (!s.w.count(q.g)) break;
          size_t o = c.u(s.w.count(q.g));
          std::vector<Arg> a;
          if (s.choose(q, o, a)) s.run(q, o, a);
        }
      }
    }
    s.sweep();
    for (int g = 0; g < NOBJ; ++g) while (s.w.count(Obj(g))) s.drop(Obj(g), c.u(s.w.count(Obj(g))));
    touched = s.touched;
  } catch (ml::Unsupported const &u) { c.label("not interpreted: " + u.what); return; }
  c.label("touched", touched);
  if (touched && more) c.hit();
}
