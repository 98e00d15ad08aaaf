// M01: the MATLAB gateways against the library called directly (mock/mex.h stands for MATLAB)
#include "gen.hh"
#include "mex_utils.hh"
#include <cstdlib>
#include <fstream>
#include <unistd.h>
using namespace mdl;
using pbt::Case;

extern "C" {
void gate_mex_shell(int, mxArray *[], int, mxArray const *[]);
void gate_mex_flat(int, mxArray *[], int, mxArray const *[]);
void gate_mex_mesh(int, mxArray *[], int, mxArray const *[]);
void gate_mex_triangleground(int, mxArray *[], int, mxArray const *[]);
}
namespace {
enum Obj { SHELL, FLAT, MESH, TRIA, NOBJ };
char const *oname[] = {"mex_shell", "mex_flat", "mex_mesh", "mex_triangleground"};
typedef void (*Gate)(int, mxArray *[], int, mxArray const *[]);
Gate gates[] = {gate_mex_shell, gate_mex_flat, gate_mex_mesh, gate_mex_triangleground};

struct Quiet {
  std::ostringstream s;
  std::streambuf *b;
  Quiet() : b(std::cout.rdbuf(s.rdbuf())) {}
  ~Quiet() { std::cout.rdbuf(b); }
};

struct Result { bool err; std::string msg; mxArray *out; };
Result call(Obj g, int nlhs, std::vector<mxArray *> const &args) {
  Quiet q;
  // exactly as many places as announced, so that a memory checker sees what is read beyond
  std::unique_ptr<mxArray const *[]> in(new mxArray const *[args.size()]);
  for (size_t i = 0; i < args.size(); ++i) in[i] = args[i];
  std::unique_ptr<mxArray *[]> out(new mxArray *[std::max(nlhs, 1)]());
  try { gates[g](nlhs, out.get(), int(args.size()), in.get()); }
  catch (mock::Error const &e) { return {true, e.msg, nullptr}; }
  return {false, "", out[0]};
}

enum Kind { INT, NUM, VEC, MAT, OFLAT, OMESH, OSAME, OPLANE, OPOINT, TEXT };
struct Arg {
  Kind k;
  int64_t i = 0;   // INT
  double  d = 0;   // NUM
  acme::vec3 v;    // VEC
  acme::affine a;  // MAT
  size_t o = 0;    // an object
  std::string t;   // TEXT
};
// what a command answers
struct Val {
  enum { NONE, NUMBERS, POINT, PLANE, NEWTRIA } k = NONE;
  size_t r = 0, c = 0;
  std::vector<double> x; // column by column
  static Val num(double d) { Val v; v.k = NUMBERS; v.r = v.c = 1; v.x = {d}; return v; }
  static Val vec(acme::vec3 const &u) { Val v; v.k = NUMBERS; v.r = 3; v.c = 1; v.x = {u.x(), u.y(), u.z()}; return v; }
  template <class M> static Val mat(M const &m, int n) { Val v; v.k = NUMBERS; v.r = v.c = size_t(n); for (int j = 0; j < n; ++j) for (int i = 0; i < n; ++i) v.x.push_back(m(i, j)); return v; }
  static Val point(acme::point const &p) { Val v = vec(p); v.k = POINT; return v; }
};
struct Shl { uint64_t h; std::unique_ptr<enve::shell> m; };
struct Flt { uint64_t h; std::unique_ptr<enve::ground::flat> m; };
struct Msh { uint64_t h; std::unique_ptr<enve::ground::mesh> m; };
struct Trg { uint64_t h; std::unique_ptr<enve::triangleground> m; };
struct World {
  std::vector<Shl> s;
  std::vector<Flt> f;
  std::vector<Msh> g;
  std::vector<Trg> t;
  size_t count(Obj o) const { return o == SHELL ? s.size() : o == FLAT ? f.size() : o == MESH ? g.size() : t.size(); }
  uint64_t handle(Obj o, size_t i) const { return o == SHELL ? s[i].h : o == FLAT ? f[i].h : o == MESH ? g[i].h : t[i].h; }
};
mxArray *handle(uint64_t h) { mxArray *a = mock::make(mxUINT64_CLASS, {1, 1}); std::memcpy(a->data, &h, 8); return a; }
mxArray *number(double d) { return mxCreateDoubleScalar(d); }
mxArray *matrix(size_t r, size_t c, std::vector<double> const &x) {
  mxArray *a = mock::make(mxDOUBLE_CLASS, {r, c});
  for (size_t i = 0; i < r * c; ++i) reinterpret_cast<double *>(a->data)[i] = i < x.size() ? x[i] : 0;
  return a;
}
template <class T> mxArray *whole(mxClassID k, int64_t v) { mxArray *a = mock::make(k, {1, 1}); *reinterpret_cast<T *>(a->data) = T(v); return a; }
mxArray *integer(Case &c, int64_t v) {
  switch (c.u(10)) {
    case 1: return whole<int32_t>(mxINT32_CLASS, v);
    case 2: return whole<int64_t>(mxINT64_CLASS, v);
    case 3: if (v >= -128 && v < 128) return whole<int8_t>(mxINT8_CLASS, v); break;
    case 4: if (v >= 0 && v < 256) return whole<uint8_t>(mxUINT8_CLASS, v); break;
    case 5: if (v >= -32768 && v < 32768) return whole<int16_t>(mxINT16_CLASS, v); break;
    case 6: if (v >= 0 && v < 65536) return whole<uint16_t>(mxUINT16_CLASS, v); break;
    case 7: if (v >= 0) return whole<uint32_t>(mxUINT32_CLASS, v); break;
    case 8: if (v >= 0) return whole<uint64_t>(mxUINT64_CLASS, v); break;
    case 9: if (v >= -1000000 && v < 1000000) return whole<float>(mxSINGLE_CLASS, v); break;
    default: break;
  }
  return number(double(v));
}
std::vector<double> cols(acme::affine const &a) { return Val::mat(a.matrix(), 4).x; }

struct Cmd {
  Obj g;
  char const *name;
  std::vector<Kind> args;
  bool out;
  std::function<Val(World &, size_t, std::vector<Arg> const &)> fn;
};
template <class T> T const &cst(T const &t) { return t; }
void vertex(enve::triangleground &t, int i, acme::vec3 const &p) {
  acme::point v[3];
  for (int k = 0; k < 3; ++k) v[k] = k == i ? acme::point(p) : acme::point(cst(t).vertex(k));
  t.copy(enve::triangleground(t.id(), t.friction(), v[0], v[1], v[2]));
}
typedef World &W;
typedef std::vector<Arg> const &A;
#define SH (*w.s[o].m)
#define FL (*w.f[o].m)
#define ME (*w.g[o].m)
#define TR (*w.t[o].m)
std::vector<Cmd> const &queries() { // commands that change nothing
  static std::vector<Cmd> const q = {
    {SHELL, "size", {}, true, [](W w, size_t o, A) { return Val::num(double(SH.size())); }},
    {SHELL, "surfaceMaxRadius", {}, true, [](W w, size_t o, A) { return Val::num(SH.surfaceMaxRadius()); }},
    {SHELL, "surfaceMaxWidth", {}, true, [](W w, size_t o, A) { return Val::num(SH.surfaceMaxWidth()); }},
    {SHELL, "surfaceWidth", {}, true, [](W w, size_t o, A) { return Val::num(SH.surfaceWidth()); }},
    {SHELL, "checkWidthBound", {NUM}, true, [](W w, size_t o, A a) { return Val::num(SH.checkWidthBound(a[0].d)); }},
    {SHELL, "surfaceRadius", {NUM}, true, [](W w, size_t o, A a) { return Val::num(SH.surfaceRadius(a[0].d)); }},
    {SHELL, "surfaceDerivative", {NUM}, true, [](W w, size_t o, A a) { return Val::num(SH.surfaceDerivative(a[0].d)); }},
    {SHELL, "surfaceAngle", {NUM}, true, [](W w, size_t o, A a) { return Val::num(SH.surfaceAngle(a[0].d)); }},
    {SHELL, "ribRadius", {INT}, true, [](W w, size_t o, A a) { return Val::num(SH.ribRadius(size_t(a[0].i - 1))); }},
    {SHELL, "ribCenter", {INT}, true, [](W w, size_t o, A a) { return Val::point(SH.ribCenter(size_t(a[0].i - 1))); }},
    {SHELL, "ribWidth", {INT}, true, [](W w, size_t o, A a) { return Val::num(SH.ribWidth(size_t(a[0].i - 1))); }},
    {SHELL, "ribAngle", {INT}, true, [](W w, size_t o, A a) { return Val::num(SH.ribAngle(size_t(a[0].i - 1))); }},
    {SHELL, "translation", {}, true, [](W w, size_t o, A) { return Val::vec(SH.translation()); }},
    {SHELL, "rotation", {}, true, [](W w, size_t o, A) { acme::mat3 m(SH.rotation()); return Val::mat(m, 3); }},
    {SHELL, "transformation", {}, true, [](W w, size_t o, A) { return Val::mat(SH.transformation().matrix(), 4); }},
    {SHELL, "checkTransformation", {MAT}, true, [](W w, size_t o, A a) { return Val::num(SH.checkTransformation(a[0].a)); }},
    {SHELL, "x", {}, true, [](W w, size_t o, A) { return Val::vec(SH.x()); }},
    {SHELL, "y", {}, true, [](W w, size_t o, A) { return Val::vec(SH.y()); }},
    {SHELL, "z", {}, true, [](W w, size_t o, A) { return Val::vec(SH.z()); }},
    {SHELL, "eulerAngles", {}, true, [](W w, size_t o, A) { acme::vec3 v; SH.eulerAngles(v); return Val::vec(v); }},
    {SHELL, "contactPointAvg", {}, true, [](W w, size_t o, A) { acme::point v; SH.contactPoint(v); return Val::point(v); }},
    {SHELL, "contactPointRib", {INT}, true, [](W w, size_t o, A a) { acme::point v; SH.contactPoint(size_t(a[0].i - 1), v); return Val::point(v); }},
    {SHELL, "contactNormalAvg", {}, true, [](W w, size_t o, A) { acme::vec3 v; SH.contactNormal(v); return Val::vec(v); }},
    {SHELL, "contactNormalRib", {INT}, true, [](W w, size_t o, A a) { acme::vec3 v; SH.contactNormal(size_t(a[0].i - 1), v); return Val::vec(v); }},
#define SCALAR(NAME)                                                                                                                   \
    {SHELL, "contact" #NAME "Avg", {}, true, [](W w, size_t o, A) { double v = 0; SH.contact##NAME(v); return Val::num(v); }},          \
    {SHELL, "contact" #NAME "Rib", {INT}, true, [](W w, size_t o, A a) { double v = 0; SH.contact##NAME(size_t(a[0].i - 1), v); return Val::num(v); }},
    SCALAR(Depth) SCALAR(Friction) SCALAR(Area) SCALAR(Volume)
    {SHELL, "relativeAnglesAvg", {}, true, [](W w, size_t o, A) { acme::vec3 v; SH.relativeAngles(v); return Val::vec(v); }},
    {SHELL, "relativeAnglesRib", {INT}, true, [](W w, size_t o, A a) { acme::vec3 v; SH.relativeAngles(size_t(a[0].i - 1), v); return Val::vec(v); }},
    {SHELL, "contactPointAffineAvg", {}, true, [](W w, size_t o, A) { acme::affine v; SH.contactPointAffine(v); return Val::mat(v.matrix(), 4); }},
    {SHELL, "contactPointAffineRib", {INT}, true, [](W w, size_t o, A a) { acme::affine v; SH.contactPointAffine(size_t(a[0].i - 1), v); return Val::mat(v.matrix(), 4); }},
    {FLAT, "getOrigin", {}, true, [](W w, size_t o, A) { return Val::point(FL.origin()); }},
    {FLAT, "getNormal", {}, true, [](W w, size_t o, A) { return Val::vec(FL.acme::plane::normal()); }},
    {FLAT, "getPlane", {}, true, [](W w, size_t o, A) { Val v = Val::vec(FL.layingPlane().origin()); acme::vec3 n(FL.layingPlane().normal()); v.x.insert(v.x.end(), {n.x(), n.y(), n.z()}); v.k = Val::PLANE; return v; }},
    {FLAT, "getFriction", {}, true, [](W w, size_t o, A) { return Val::num(FL.friction()); }},
    {FLAT, "isDegenerated", {}, true, [](W w, size_t o, A) { return Val::num(FL.isDegenerated()); }},
    {FLAT, "isApprox", {OSAME}, true, [](W w, size_t o, A a) { return Val::num(FL.isApprox(*w.f[a[0].o].m)); }},
    {MESH, "size", {}, true, [](W w, size_t o, A) { return Val::num(double(ME.size())); }},
    {MESH, "getTrianglegroundVertices", {INT}, true, [](W w, size_t o, A a) {
       Val v; v.k = Val::NUMBERS; v.r = v.c = 3;
       std::shared_ptr<enve::triangleground const> t = ME.ptrTriangleground(size_t(a[0].i - 1));
       for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) v.x.push_back(t->vertex(i)(j));
       return v; }},
    {TRIA, "getID", {}, true, [](W w, size_t o, A) { return Val::num(double(TR.id())); }},
    {TRIA, "getFriction", {}, true, [](W w, size_t o, A) { return Val::num(TR.friction()); }},
    {TRIA, "getVertex1", {}, true, [](W w, size_t o, A) { return Val::point(cst(TR).vertex(0)); }},
    {TRIA, "getVertex2", {}, true, [](W w, size_t o, A) { return Val::point(cst(TR).vertex(1)); }},
    {TRIA, "getVertex3", {}, true, [](W w, size_t o, A) { return Val::point(cst(TR).vertex(2)); }},
    {TRIA, "normal", {}, true, [](W w, size_t o, A) { return Val::vec(TR.normal()); }},
  };
  return q;
}
std::vector<Cmd> const &changes() {
  static std::vector<Cmd> const q = {
    {SHELL, "setupFlat", {OFLAT, MAT, TEXT}, true, [](W w, size_t o, A a) { return Val::num(SH.setup(*w.f[a[0].o].m, a[1].a, a[2].t)); }},
    {SHELL, "setupMesh", {OMESH, MAT, TEXT}, true, [](W w, size_t o, A a) { return Val::num(SH.setup(*w.g[a[0].o].m, a[1].a, a[2].t)); }},
    {SHELL, "resize", {INT}, false, [](W w, size_t o, A a) { SH.resize(size_t(a[0].i)); return Val(); }},
    {SHELL, "translate", {VEC}, false, [](W w, size_t o, A a) { SH.translate(a[0].v); return Val(); }},
    {SHELL, "rotate", {NUM, VEC}, false, [](W w, size_t o, A a) { SH.rotate(a[0].d, a[1].v); return Val(); }},
    {SHELL, "transform", {MAT}, false, [](W w, size_t o, A a) { SH.transform(a[0].a); return Val(); }},
    {FLAT, "setOrigin", {VEC}, false, [](W w, size_t o, A a) { FL.origin() = acme::point(a[0].v); return Val(); }},
    {FLAT, "setNormal", {VEC}, false, [](W w, size_t o, A a) { FL.normal() = a[0].v; return Val(); }},
    {FLAT, "setPlane", {OPLANE}, false, [](W w, size_t o, A a) { acme::plane p(w.f[a[0].o].m->layingPlane()); FL.layingPlane() = p; return Val(); }},
    {FLAT, "setFriction", {NUM}, false, [](W w, size_t o, A a) { FL.friction() = a[0].d; return Val(); }},
    {FLAT, "copy", {OSAME}, false, [](W w, size_t o, A a) { FL.copy(*w.f[a[0].o].m); return Val(); }},
    {MESH, "copy", {OSAME}, false, [](W w, size_t o, A a) { ME.copy(*w.g[a[0].o].m); return Val(); }},
    {MESH, "getTriangleground", {INT}, true, [](W, size_t, A) { Val v; v.k = Val::NEWTRIA; return v; }},
    {TRIA, "setVertex1", {OPOINT}, false, [](W w, size_t o, A a) { vertex(TR, 0, a[0].v); return Val(); }},
    {TRIA, "setVertex2", {OPOINT}, false, [](W w, size_t o, A a) { vertex(TR, 1, a[0].v); return Val(); }},
    {TRIA, "setVertex3", {OPOINT}, false, [](W w, size_t o, A a) { vertex(TR, 2, a[0].v); return Val(); }},
    {TRIA, "copy", {OSAME}, false, [](W w, size_t o, A a) { TR.copy(*w.t[a[0].o].m); return Val(); }},
  };
  return q;
}
bool same(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }
std::string show(std::vector<double> const &x) { std::ostringstream o; o.precision(17); o << "["; for (double d : x) o << " " << d; o << " ]"; return o.str(); }

struct Session {
  Case &c;
  World w;
  std::string dir;
  int live = 0;
  Shape shape;
  Pose p;
  bool touched = false, meshed = false;
  bool empty_meshes = true;                                                     // a mesh may be made without a file
  std::function<Result(Obj, int, std::vector<mxArray *> const &)> go = call;     // how a command is given
  explicit Session(Case &cc) : c(cc) {
    mock::arena().clear();
    mock::locks() = 0;
    dir = std::string(getenv("PBT_WORK") ? getenv("PBT_WORK") : "/tmp") + "/m" + std::to_string(getpid());
    shape = gen::shape(c);
    p = gen::pose(c, true);
  }
  std::string text(Cmd const &q, size_t o, std::vector<Arg> const &a) {
    std::ostringstream s;
    s << oname[q.g] << "('" << q.name << "', " << o;
    for (auto const &x : a) switch (x.k) {
      case INT: s << ", " << x.i; break;
      case NUM: s << ", " << x.d; break;
      case VEC: s << ", (" << x.v.transpose() << ")"; break;
      case MAT: s << ", M" << show(cols(x.a)); break;
      case TEXT: s << ", '" << x.t << "'"; break;
      default: s << ", object " << x.o; break;
    }
    return s.str() + ")";
  }
  // a value for every argument; false when there is nothing to choose from
  bool choose(Cmd const &q, size_t o, std::vector<Arg> &a) {
    for (Kind k : q.args) {
      Arg x;
      x.k = k;
      switch (k) {
        case INT:
          if (q.g == SHELL && std::string(q.name) == "resize") x.i = c.size(1, 12);
          else if (q.g == SHELL) x.i = c.range(1, int64_t(w.s[o].m->size()));
          else { if (w.g[o].m->size() == 0) return false; x.i = c.range(1, int64_t(w.g[o].m->size())); }
          break;
        case NUM: x.d = c.sreal(c.flag(1, 4) ? 3 : shape.Ly); break;
        case VEC: x.v = acme::vec3(c.sreal(3), c.sreal(3), c.sreal(3)); if (q.g == SHELL && std::string(q.name) == "rotate") x.v = x.v.norm() > 1e-3 ? acme::vec3(x.v.normalized()) : acme::vec3(0, 0, 1); break;
        case MAT: {
          Pose r = p;
          if (c.flag()) r.t = p.t + L(shape.Rx) * V(c.sreal(0.5), c.sreal(0.5), c.sreal(0.5));
          if (c.flag(1, 3)) r.R = gen::pose(c, true).R;
          x.a = aff(r);
          if (c.flag(1, 10)) x.a.matrix()(int(c.u(4)), int(c.u(4))) += c.sreal(2); // not a pose
          break;
        }
        case OFLAT: if (w.f.empty()) return false; x.o = c.u(w.f.size()); break;
        case OPLANE: if (w.f.empty()) return false; x.o = c.u(w.f.size()); break;
        case OPOINT: x.v = acme::vec3(c.sreal(5), c.sreal(5), c.sreal(1)); break;
        case OMESH: if (w.g.empty()) return false; x.o = c.u(w.g.size()); break;
        case OSAME: x.o = c.u(w.count(q.g)); break;
        case TEXT: { static std::vector<std::string> const t{"geometric", "sampling", "other", ""}; x.t = c.flag(1, 8) ? c.pick(t) : t[c.u(2)]; break; }
      }
      a.push_back(x);
    }
    return true;
  }
  mxArray *pack(Cmd const &q, Arg const &x) {
    switch (x.k) {
      case INT: return integer(c, x.i);
      case NUM: return number(x.d);
      case VEC: return matrix(3, 1, {x.v.x(), x.v.y(), x.v.z()});
      case MAT: return matrix(4, 4, cols(x.a));
      case OFLAT: return handle(w.f[x.o].h);
      case OMESH: return handle(w.g[x.o].h);
      case OSAME: return handle(w.handle(q.g, x.o));
      case OPOINT: ++live; return utils::mex_convert_ptr_to_mx<acme::point>(new acme::point(x.v));
      case OPLANE: {
        Result r = go(FLAT, 1, {mock::text("getPlane"), handle(w.f[x.o].h)});
        CHECK(!r.err && r.out, "getPlane fails: " << r.msg);
        ++live;
        return r.out;
      }
      default: return mock::text(x.t);
    }
  }
  std::vector<mxArray *> arguments(Cmd const &q, size_t o, std::vector<Arg> const &a) {
    std::vector<mxArray *> v{mock::text(q.name), handle(w.handle(q.g, o))};
    for (auto const &x : a) v.push_back(pack(q, x));
    return v;
  }
  void compare(Val const &want, mxArray *got, std::string const &what) {
    CHECK(got, what << " gives no output");
    if (want.k == Val::NUMBERS) {
      CHECK(got->dims == (std::vector<mwSize>{want.r, want.c}), what << " gives an array of another size");
      std::vector<double> x;
      if (got->cls == mxDOUBLE_CLASS) x.assign(mxGetPr(got), mxGetPr(got) + got->count());
      else { CHECK(got->count() == 1, what << " gives a " << mxGetClassName(got) << " array"); x = {mxGetScalar(got)}; }
      for (size_t i = 0; i < x.size(); ++i) CHECK(same(x[i], want.x[i]), what << " gives " << show(x) << ", the library " << show(want.x));
    } else if (want.k == Val::POINT) {
      ++live;
      acme::point q = *utils::mex_convert_mx_to_ptr<acme::point>(got);
      CHECK(same(q.x(), want.x[0]) && same(q.y(), want.x[1]) && same(q.z(), want.x[2]), what << " gives the point " << q.transpose() << ", the library " << show(want.x));
      mxArray const *k = got;
      utils::mex_destroy_object<acme::point>(k);
      --live;
    } else if (want.k == Val::PLANE) {
      ++live;
      acme::plane q = *utils::mex_convert_mx_to_ptr<acme::plane>(got);
      std::vector<double> x{q.origin().x(), q.origin().y(), q.origin().z(), q.normal().x(), q.normal().y(), q.normal().z()};
      for (size_t i = 0; i < 6; ++i) CHECK(same(x[i], want.x[i]), what << " gives the plane " << show(x) << ", the library " << show(want.x));
      mxArray const *k = got;
      utils::mex_destroy_object<acme::plane>(k);
      --live;
    }
  }
  void run(Cmd const &q, size_t o, std::vector<Arg> const &a) {
    std::string what = text(q, o, a);
    if (c.verbose) c.log << what << "\n";
    std::vector<mxArray *> v = arguments(q, o, a);
    Result r = go(q.g, q.out ? 1 : 0, v);
    for (size_t i = 0; i < a.size(); ++i) if (a[i].k == OPLANE || a[i].k == OPOINT) {
      mxArray const *k = v[2 + i];
      if (a[i].k == OPLANE) utils::mex_destroy_object<acme::plane>(k); else utils::mex_destroy_object<acme::point>(k);
      --live;
    }
    bool threw = false;
    Val want;
    { Quiet z; try { want = q.fn(w, o, a); } catch (std::exception const &) { threw = true; } }
    CHECK(r.err == threw, what << (threw ? " is accepted, the library refuses it" : " fails, the library accepts it: ") << r.msg);
    if (threw) { c.label("refused by the library"); return; }
    if (want.k == Val::NEWTRIA) {
      CHECK(r.out && r.out->cls == mxUINT64_CLASS && r.out->count() == 1, what << " gives no handle");
      uint64_t h;
      std::memcpy(&h, r.out->data, 8);
      auto src = w.g[o].m->ptrTriangleground(size_t(a[0].i - 1));
      std::unique_ptr<enve::triangleground> m(new enve::triangleground());
      m->copy(*src);
      w.t.push_back(Trg{h, std::move(m)});
      ++live;
    } else if (q.out) compare(want, r.out, what);
    if (q.g == SHELL && q.out && want.k == Val::NUMBERS && want.x[0] == 1 && std::string(q.name).find("setup") == 0) { touched = true; if (q.args[0] == OMESH) meshed = true; }
  }
  uint64_t created(Result const &r, std::string const &what) {
    CHECK(!r.err, what << " fails: " << r.msg);
    CHECK(r.out && r.out->cls == mxUINT64_CLASS && r.out->count() == 1, what << " gives no handle");
    ++live;
    uint64_t h;
    std::memcpy(&h, r.out->data, 8);
    return h;
  }
  std::string file(std::vector<Tri> const &ts, bool rdf, double mu) {
    std::string path = dir + (rdf ? ".rdf" : ".obj");
    std::ofstream o(path);
    o.precision(17);
    if (rdf) o << "[NODES]\n";
    for (size_t i = 0; i < ts.size(); ++i)
      for (int j = 0; j < 3; ++j) { if (rdf) o << 3 * i + j; else o << "v"; o << " " << double(ts[i].v[j].x) << " " << double(ts[i].v[j].y) << " " << double(ts[i].v[j].z) << "\n"; }
    if (rdf) o << "[ELEMENTS]\n";
    for (size_t i = 0; i < ts.size(); ++i) { if (rdf) o << 3 * i << " " << 3 * i + 1 << " " << 3 * i + 2 << " " << double(ts[i].mu) << "\n"; else o << "f " << 3 * i + 1 << " " << 3 * i + 2 << " " << 3 * i + 3 << "\n"; }
    return path;
  }
  void make(Obj g) {
    std::vector<mxArray *> v{mock::text("new")};
    std::string what = std::string(oname[g]) + "('new')";
    if (c.verbose) c.log << what << " #" << w.count(g) << "\n";
    if (g == SHELL) {
      size_t n = size_t(c.size(1, 10));
      v.push_back(integer(c, int64_t(n)));
      for (double d : {shape.Rx, shape.Mx, shape.Ry, shape.My, shape.Ly}) v.push_back(number(d));
      w.s.push_back(Shl{created(go(g, 1, v), what), gen::lib(shape, n)});
    } else if (g == FLAT) {
      if (c.flag(1, 5)) { w.f.push_back(Flt{created(go(g, 1, v), what), std::unique_ptr<enve::ground::flat>(new enve::ground::flat())}); return; }
      Flat k = gen::flat(c, shape, p, 1.0);
      double up = c.flag(1, 6) ? -1 : c.flag(1, 3) ? 3 : 1;
      acme::point o(ev(k.o));
      acme::vec3 n(up * ev(k.n));
      double mu = c.flag(1, 10) ? -0.5 : k.mu;
      v.push_back(number(mu));
      v.push_back(matrix(3, 1, {o.x(), o.y(), o.z()}));
      v.push_back(matrix(3, 1, {n.x(), n.y(), n.z()}));
      std::unique_ptr<enve::ground::flat> m;
      { Quiet z; try { m.reset(new enve::ground::flat(mu, o, n)); } catch (std::exception const &) {} }
      Result r = go(g, 1, v);
      if (!m) { CHECK(r.err, what << " with friction " << mu << " and normal " << n.transpose() << " is accepted"); return; }
      w.f.push_back(Flt{created(r, what), std::move(m)});
    } else if (g == TRIA) {
      int64_t id = c.sreal(1) < 0 ? -c.range(0, 300) : c.range(0, 300);
      double mu = gen::friction(c);
      acme::point q[3];
      for (auto &x : q) x = acme::point(c.sreal(5), c.sreal(5), c.sreal(1));
      if (c.flag(1, 5)) { // no arguments: a triangle of unknown vertices
        acme::point u(acme::QUIET_NAN, acme::QUIET_NAN, acme::QUIET_NAN);
        w.t.push_back(Trg{created(go(g, 1, v), what), std::unique_ptr<enve::triangleground>(new enve::triangleground(0, 0.0, u, u, u))});
        return;
      }
      v.push_back(integer(c, id));
      v.push_back(number(mu));
      for (auto &x : q) v.push_back(matrix(3, 1, {x.x(), x.y(), x.z()}));
      w.t.push_back(Trg{created(go(g, 1, v), what), std::unique_ptr<enve::triangleground>(new enve::triangleground(acme::integer(id), mu, q[0], q[1], q[2]))});
    } else {
      std::unique_ptr<enve::ground::mesh> m(new enve::ground::mesh());
      load(v, *m, true);
      w.g.push_back(Msh{created(go(g, 1, v), what), std::move(m)});
      std::remove((dir + ".rdf").c_str());
      std::remove((dir + ".obj").c_str());
    }
  }
  // the arguments of 'new' and 'load' that read a file, and the same done directly
  void load(std::vector<mxArray *> &v, enve::ground::mesh &m, bool fresh) {
    int how = int(c.u(fresh ? 5 : 2)) + (fresh ? 0 : 1);
    if (how == 0 && !empty_meshes) how = 1;
    if (how == 0) return;
    std::vector<Tri> ts = gen::mesh(c, shape, p, 15);
    double mu = gen::friction(c);
    acme::affine a = aff(p);
    a.translation() *= 0.01;
    if (how == 3 || how == 4) { Pose r; r.R = rotZXY(c.sreal(3), 0, 0); r.t = V(c.sreal(1), c.sreal(1), 0); a = aff(r); }
    bool rdf = how == 1 || how == 3;
    std::string path = file(ts, rdf, mu);
    if (c.verbose) c.log << "  " << (rdf ? "rdf" : "obj") << " of " << ts.size() << " triangles" << (how > 2 ? " moved" : "") << "\n";
    v.push_back(mock::text(path));
    if (!rdf) v.push_back(number(mu));
    if (how > 2) v.push_back(matrix(4, 4, cols(a)));
    Quiet z;
    if (how == 1) m.load(path);
    else if (how == 2) m.load(path, mu);
    else if (how == 3) m.load(path, a);
    else m.load(path, mu, a);
  }
  void reload(size_t o) {
    if (c.verbose) c.log << "mex_mesh('load', " << o << ")\n";
    std::vector<mxArray *> v{mock::text("load"), handle(w.g[o].h)};
    load(v, *w.g[o].m, false);
    Result r = go(MESH, 0, v);
    std::remove((dir + ".rdf").c_str());
    std::remove((dir + ".obj").c_str());
    CHECK(!r.err, "mex_mesh('load') fails: " << r.msg);
  }
  void drop(Obj g, size_t o) {
    if (c.verbose) c.log << oname[g] << "('delete', " << o << ")\n";
    Result r = go(g, 0, {mock::text("delete"), handle(w.handle(g, o))});
    CHECK(!r.err, oname[g] << "('delete') fails: " << r.msg);
    --live;
    if (g == SHELL) w.s.erase(w.s.begin() + long(o));
    else if (g == FLAT) w.f.erase(w.f.begin() + long(o));
    else if (g == MESH) w.g.erase(w.g.begin() + long(o));
    else w.t.erase(w.t.begin() + long(o));
  }
  // a call that must be refused
  void malformed(Cmd const &q, size_t o, std::vector<Arg> const &a) {
    for (auto const &x : a) if (x.k == OPLANE || x.k == OPOINT) return;
    std::vector<mxArray *> v = arguments(q, o, a);
    int nlhs = q.out ? 1 : 0;
    std::string why;
    Obj g = q.g;
    switch (c.u(9)) {
      case 0: v.pop_back(); why = "an argument too few"; break;
      case 1: v.push_back(number(1)); why = "an argument too many"; break;
      case 2: nlhs = q.out ? int(c.u(2)) * 2 : int(c.range(1, 2)); why = "another number of outputs"; break;
      case 3: { // the handle of another kind of object
        std::vector<Obj> k;
        for (int i = 0; i < NOBJ; ++i) if (i != g && w.count(Obj(i))) k.push_back(Obj(i));
        if (k.empty()) return;
        Obj e = c.pick(k);
        v[1] = handle(w.handle(e, c.u(w.count(e))));
        why = "the handle of another kind";
        break;
      }
      case 4: { // not a handle
        uint64_t h = w.handle(g, o);
        switch (c.u(4)) {
          case 0: v[1] = number(double(h)); break;
          case 1: v[1] = mock::make(mxUINT64_CLASS, {1, 2}); std::memcpy(v[1]->data, &h, 8); break;
          case 2: v[1]->complex = true; break;
          default: v[1] = mock::make(mxINT64_CLASS, {1, 1}); std::memcpy(v[1]->data, &h, 8);
        }
        why = "no handle";
        break;
      }
      case 5: { static std::vector<std::string> const t{"", "NEW", "size ", "contact", "get", "delete1", "surfaceradius"}; v[0] = mock::text(c.pick(t)); why = "an unknown command"; break; }
      case 6: v[0] = number(1); why = "no command"; break;
      default: { // wrong sizes
        std::vector<size_t> at;
        for (size_t i = 0; i < a.size(); ++i) if (a[i].k == VEC || a[i].k == MAT || a[i].k == NUM || a[i].k == INT) at.push_back(i);
        if (at.empty()) return;
        size_t i = c.pick(at);
        size_t r, k;
        for (int n = 0;; ++n) {
          r = size_t(c.range(0, 5)); k = size_t(c.range(0, 5));
          if (n > 20) { r = 2; k = 2; }
          size_t R = a[i].k == VEC ? 3 : a[i].k == MAT ? 4 : 1, K = a[i].k == MAT ? 4 : 1;
          if (r != R || k != K) break;
        }
        v[2 + i] = matrix(r, k, {0.5, 1, 0.25, 0.75, 1, 2, 3, 4, 5});
        why = "an array of " + std::to_string(r) + " x " + std::to_string(k);
      }
    }
    if (c.verbose) c.log << text(q, o, a) << " with " << why << "\n";
    Result r = go(g, nlhs, v);
    CHECK(r.err, text(q, o, a) << " with " << why << " is accepted");
    c.label("malformed call");
  }
  // a constructor or a file name that must be refused; no object comes into being
  void malformed_new(Obj g) {
    std::vector<mxArray *> v{mock::text("new")};
    int nlhs = 1;
    std::string why;
    size_t n = 0;
    if (g == SHELL) { v.push_back(integer(c, int64_t(c.size(1, 10)))); for (double d : {shape.Rx, shape.Mx, shape.Ry, shape.My, shape.Ly}) v.push_back(number(d)); }
    else if (g == FLAT) { v.push_back(number(gen::friction(c))); v.push_back(matrix(3, 1, {1, 2, 3})); v.push_back(matrix(3, 1, {0, 0, 1})); }
    else if (g == TRIA) { v.push_back(integer(c, 1)); v.push_back(number(gen::friction(c))); for (int k = 0; k < 3; ++k) v.push_back(matrix(3, 1, {double(k), double(k * k), 1})); }
    if (g != MESH) {
      switch (c.u(4)) {
        case 0: n = size_t(c.range(g == SHELL ? 0 : 1, int64_t(v.size()) - 2)); v.resize(1 + n); why = "arguments missing"; break;
        case 1: v.push_back(number(1)); why = "an argument too many"; break;
        case 2: nlhs = int(c.u(2)) * 2; why = "another number of outputs"; break;
        default: {
          size_t i = 1 + c.u(v.size() - 1);
          bool one = v[i]->count() == 1;
          if (one) v[i] = c.flag() ? matrix(2, 2, {1, 1, 1, 1}) : matrix(0, 0, {});
          else { static mwSize const sz[][2] = {{1, 3}, {2, 1}, {4, 1}, {3, 3}, {0, 0}, {1, 1}}; auto q = sz[c.u(6)]; v[i] = matrix(q[0], q[1], std::vector<double>(q[0] * q[1], 0.5)); }
          why = "argument " + std::to_string(i) + " of another size";
        }
      }
    } else {
      std::vector<Tri> ts = gen::mesh(c, shape, p, 3);
      bool rdf = c.flag();
      std::string path = file(ts, rdf, 1);
      mxArray *f = mock::text(path), *mu = number(1), *pose = matrix(4, 4, cols(aff(p)));
      auto wrong = [&] { static mwSize const sz[][2] = {{3, 3}, {1, 1}, {4, 3}, {3, 4}, {0, 0}, {16, 1}, {1, 4}}; auto q = sz[c.u(7)]; return matrix(q[0], q[1], std::vector<double>(q[0] * q[1], 0.5)); };
      switch (c.u(7)) {
        case 0: v = rdf ? std::vector<mxArray *>{v[0], f, wrong()} : std::vector<mxArray *>{v[0], f, mu, wrong()}; why = "a pose of another size"; break;
        case 1: if (rdf) v.insert(v.end(), {f, mu, pose}); else v.insert(v.end(), {f}); why = rdf ? "a friction for a file that has its own" : "no friction"; break;
        case 2: v.insert(v.end(), {f, mu, pose, number(1)}); why = "an argument too many"; break;
        case 3: if (rdf) v.insert(v.end(), {mock::text(dir + ".missing.rdf")}); else v.insert(v.end(), {mock::text(dir + ".missing.obj"), mu}); why = "a file that is not there"; break;
        case 4: v.insert(v.end(), {mock::text(dir + ".txt")}); if (c.flag()) v.push_back(mu); why = "a file of another kind"; break;
        case 5: v = rdf ? std::vector<mxArray *>{v[0], f} : std::vector<mxArray *>{v[0], f, mu}; nlhs = int(c.u(2)) * 2; why = "another number of outputs"; break;
        default: v = rdf ? std::vector<mxArray *>{v[0], number(1)} : std::vector<mxArray *>{v[0], f, matrix(2, 2, {1, 1, 1, 1})}; why = rdf ? "a number for a file" : "a matrix for the friction"; break;
      }
    }
    if (c.verbose) c.log << oname[g] << "('new') with " << why << "\n";
    Result r;
    { Quiet z; r = go(g, nlhs, v); }
    std::remove((dir + ".rdf").c_str());
    std::remove((dir + ".obj").c_str());
    CHECK(r.err, oname[g] << "('new') with " << why << " is accepted");
    c.label("malformed constructor");
  }
  // a file that must be refused; the mesh stays as it was
  void malformed_load(size_t o) {
    std::vector<Tri> ts = gen::mesh(c, shape, p, 3);
    bool rdf = c.flag();
    std::string path = file(ts, rdf, 1), why;
    std::vector<mxArray *> v{mock::text("load"), handle(w.g[o].h)};
    int nlhs = 0;
    switch (c.u(5)) {
      case 0: v.push_back(mock::text(path)); if (rdf) v.push_back(number(1)); why = rdf ? "a friction for a file that has its own" : "no friction"; break;
      case 1: v.push_back(mock::text(dir + ".missing" + (rdf ? ".rdf" : ".obj"))); if (!rdf) v.push_back(number(1)); why = "a file that is not there"; break;
      case 2: v.push_back(mock::text(dir + ".txt")); if (c.flag()) v.push_back(number(1)); why = "a file of another kind"; break;
      case 3: if (c.flag()) v.insert(v.end(), {mock::text(path), number(1), number(1)}); why = "another number of arguments"; break;
      default: v.push_back(mock::text(path)); if (!rdf) v.push_back(number(1)); nlhs = 1; why = "an output"; break;
    }
    if (c.verbose) c.log << "mex_mesh('load', " << o << ") with " << why << "\n";
    Result r;
    { Quiet z; r = go(MESH, nlhs, v); }
    std::remove((dir + ".rdf").c_str());
    std::remove((dir + ".obj").c_str());
    CHECK(r.err, "mex_mesh('load') with " << why << " is accepted");
    c.label("malformed load");
  }
  // every object answers every query as its twin
  void sweep() {
    for (auto const &q : queries())
      for (size_t o = 0; o < w.count(q.g); ++o) {
        std::vector<Arg> a;
        if (choose(q, o, a)) run(q, o, a);
      }
  }
};
} // namespace

PBT(M01, sessions, 16000, 700000, "a shell touched a ground and an object was deleted while others of its kind or other grounds lived") {
  Session s(c);
  gen::note(c, s.shape, 0, s.p);
  int steps = int(c.range(2, 24));
  bool dropped = false, two = false;
  s.make(SHELL);
  s.make(c.flag() ? MESH : FLAT);
  for (int k = 0; k < steps; ++k) {
    switch (c.u(8)) {
      case 0: { Obj g = Obj(c.u(NOBJ)); if (s.w.count(g) < 4) s.make(g); break; }
      case 1: {
        Obj g = Obj(c.u(NOBJ));
        if (s.w.count(g) > (g == SHELL ? 1 : 0) && c.flag(1, 2)) { s.drop(g, c.u(s.w.count(g))); dropped = true; }
        else if (!s.w.g.empty()) s.reload(c.u(s.w.g.size()));
        break;
      }
      case 2: {
        if (c.flag(1, 4)) {
          Obj g = Obj(c.u(NOBJ));
          if (g == MESH && !s.w.g.empty() && c.flag()) s.malformed_load(c.u(s.w.g.size())); else s.malformed_new(g);
          break;
        }
        auto const &set = c.flag() ? queries() : changes();
        Cmd const &q = c.pick(set);
        if (!s.w.count(q.g)) break;
        size_t o = c.u(s.w.count(q.g));
        std::vector<Arg> a;
        if (s.choose(q, o, a)) s.malformed(q, o, a);
        break;
      }
      case 3: {
        Cmd const &q = c.pick(queries());
        if (!s.w.count(q.g)) break;
        size_t o = c.u(s.w.count(q.g));
        std::vector<Arg> a;
        if (s.choose(q, o, a)) s.run(q, o, a);
        break;
      }
      default: {
        Cmd const &q = c.flag(1, 2) ? changes()[c.u(2)] : c.pick(changes());
        if (!s.w.count(q.g)) break;
        size_t o = c.u(s.w.count(q.g));
        std::vector<Arg> a;
        if (s.choose(q, o, a)) s.run(q, o, a);
      }
    }
    two |= (s.w.s.size() > 1) || s.w.f.size() + s.w.g.size() > 1;
    CHECK(mock::locks() == s.live, s.live << " objects live, the module is locked " << mock::locks() << " times");
  }
  s.sweep();
  for (int g = 0; g < NOBJ; ++g) while (s.w.count(Obj(g))) s.drop(Obj(g), c.u(s.w.count(Obj(g))));
  CHECK(mock::locks() == 0, "all objects are deleted, the module is locked " << mock::locks() << " times");
  Result r = call(SHELL, int(c.u(2)), {});
  CHECK(r.err, "a call without arguments is accepted");
  c.label("touched", s.touched);
  c.label("touched a mesh", s.meshed);
  c.label("deleted in between", dropped);
  if (s.touched && dropped && two) c.hit();
}
