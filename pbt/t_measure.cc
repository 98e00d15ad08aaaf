// K04 K05: relations between entities, measures and rigid motions
#include "kgen.hh"
#include <variant>
using namespace mdl;
using namespace kg;
using pbt::Case;

// ---------------------------------------------------------------------------
// K04. Kinds in the order of the typed queries' arguments.
enum { VEC, LINE, RAY, PLANE, SEG, TRI, DISK };
static char const *kn[] = {"vector", "line", "ray", "plane", "segment", "triangle", "disk"};
typedef std::variant<acme::vec3, acme::line, acme::ray, acme::plane, acme::segment, acme::triangle, acme::disk> Any;
struct Thing {
  int  kind;
  Any  v;
  V    o, u; // a point of it and its unit direction or normal, from the rounded numbers
  bool flat() const { return kind == PLANE || kind == TRI || kind == DISK; }
};
static std::ostream &operator<<(std::ostream &os, Thing const &t) { return os << kn[t.kind] << " at " << t.o << (t.flat() ? " normal " : " along ") << t.u; }
// an object of the given kind whose axis is f.z, placed at f.o
static Thing thing(Case &c, int kind, Frame const &f, double s) {
  Thing t;
  t.kind = kind;
  V n = rnd(L(factor(c)) * f.z);
  t.o = rnd(f.o);
  t.u = unit(n);
  switch (kind) {
    case VEC: t.v = ev(n); t.o = V(); break;
    case LINE: t.v = acme::line(pt(t.o), ev(n)); break;
    case RAY: t.v = acme::ray(pt(t.o), ev(n)); break;
    case PLANE: t.v = acme::plane(pt(t.o), ev(n)); break;
    case SEG: {
      L len = s * L(c.real(0.2, 3)), a = len * L(c.real(-1, 0));
      V p = rnd(f.o + a * f.z), q = rnd(f.o + (a + len) * f.z);
      if (c.flag()) std::swap(p, q);
      t.v = acme::segment(pt(p), pt(q));
      t.o = p; t.u = unit(q - p);
      break;
    }
    case TRI: { Tri3 T = tri(c, f, s); t.v = lib(T); t.o = T.v[0]; t.u = normal(T); break; }
    default: t.v = acme::disk(s * c.real(0.1, 2), pt(t.o), ev(n)); break;
  }
  return t;
}
template <class A, class B, class = void> struct copl : std::false_type {};
template <class A, class B> struct copl<A, B, std::void_t<decltype(acme::IsCoplanar(std::declval<A const &>(), std::declval<B const &>()))>> : std::true_type {};
template <class A, class B, class = void> struct coll : std::false_type {};
template <class A, class B> struct coll<A, B, std::void_t<decltype(acme::IsCollinear(std::declval<A const &>(), std::declval<B const &>()))>> : std::true_type {};
template <class A, class B, class = void> struct para : std::false_type {};
template <class A, class B> struct para<A, B, std::void_t<decltype(acme::IsParallel(std::declval<A const &>(), std::declval<B const &>()))>> : std::true_type {};
// -1: no such query for this pair in this order
static int q_parallel(Any const &a, Any const &b) { return std::visit([](auto const &x, auto const &y) -> int { if constexpr (para<std::decay_t<decltype(x)>, std::decay_t<decltype(y)>>::value) return acme::IsParallel(x, y); else return -1; }, a, b); }
static int q_orthogonal(Any const &a, Any const &b) { return std::visit([](auto const &x, auto const &y) -> int { if constexpr (para<std::decay_t<decltype(x)>, std::decay_t<decltype(y)>>::value) return acme::IsOrthogonal(x, y); else return -1; }, a, b); }
static int q_collinear(Any const &a, Any const &b) { return std::visit([](auto const &x, auto const &y) -> int { if constexpr (coll<std::decay_t<decltype(x)>, std::decay_t<decltype(y)>>::value) return acme::IsCollinear(x, y); else return -1; }, a, b); }
static int q_coplanar(Any const &a, Any const &b) { return std::visit([](auto const &x, auto const &y) -> int { if constexpr (copl<std::decay_t<decltype(x)>, std::decay_t<decltype(y)>>::value) return acme::IsCoplanar(x, y); else return -1; }, a, b); }

PBT(K04, relations, 4000000, 200000000, "a relation of the pair holds, or is missed clearly in angle or position") {
  Frame f = frame(c), g;
  double s = size(c), s2 = c.flag() ? s : size(c);
  int ka = int(c.u(7)), kb = int(c.u(7));
  if (ka > kb) std::swap(ka, kb);
  // the angle between the axes
  int how = int(c.u(3));
  L t = how == 0 ? 0 : how == 1 ? 1.5707963267948966192L : L(c.real(0.01, 1.56));
  bool close = how == 2 && c.flag(1, 3); // just off parallel or off the right angle, still far above the tolerance
  if (close) { t = std::pow(10.0L, -L(c.real(2, 4.7))); if (c.flag()) t = 1.5707963267948966192L - t; }
  if (c.flag()) t = 3.14159265358979323846L - t;
  V z = std::cos(t) * f.z + std::sin(t) * f.x;
  g.z = z; g.x = std::cos(t) * f.x - std::sin(t) * f.z; g.y = f.y;
  // the position: on the carrier of the first, or off it
  int where = int(c.u(3));
  L along = s * L(c.sreal(5)), d = where == 0 ? 0 : s * L(c.real(0.01, 3)), ang = where == 1 ? 0 : L(c.sreal(3.14159265));
  bool flatA = ka == PLANE || ka == TRI || ka == DISK;
  if (flatA) g.o = f.at(along, s * L(c.sreal(5)), where == 0 ? 0 : d * (c.flag() ? 1 : -1));
  else g.o = f.at(d * std::cos(ang), d * std::sin(ang), along);
  Thing a = thing(c, ka, f, s), b = thing(c, kb, g, s2);
  if (c.verbose) c.log << a << "\n" << b << "\n";
  std::string nm = std::string(kn[ka]) + "-" + kn[kb];
  c.label(nm);
  L sn = norm(cross(a.u, b.u)), cs = std::fabs(dot(a.u, b.u));
  int par = sn < 1e-11L ? 1 : sn > 5e-6L ? 0 : -1, ort = cs < 1e-11L ? 1 : cs > 5e-6L ? 0 : -1;
  if (par < 0 || ort < 0) return;
  bool same = a.flat() == b.flat();
  bool wantP = same ? par : ort, wantO = same ? ort : par;
  auto both = [&](char const *what, int (*q)(Any const &, Any const &), int want) {
    int r = q(a.v, b.v);
    if (r < 0) return;
    CHECK(r == want, "the " << kn[ka] << " and the " << kn[kb] << (want ? " are " : " are not ") << what << ", answered " << r << " (sine " << sn << ", cosine " << cs << ")");
    if (ka == kb) CHECK(q(b.v, a.v) == r, what << ": the answer depends on the order of the arguments");
    c.label(std::string(what) + (want ? " yes" : " no"));
    c.hit();
  };
  CHECK(q_parallel(a.v, b.v) >= 0 && q_orthogonal(a.v, b.v) >= 0, "the pair has no parallel or orthogonal query");
  both("parallel", q_parallel, wantP);
  both("orthogonal", q_orthogonal, wantO);
  if (ka == VEC) return;
  V w = b.o - a.o;
  L cd = coord({a.o, b.o}), on = 1e-10L * cd, off = 2e-3L * s; // clearly on, clearly off
  if (!a.flat() && !b.flat()) {
    L dist = norm(cross(w, a.u));
    if (!par || dist < on || dist > off) both("collinear", q_collinear, par && dist < on);
    if (par) both("coplanar", q_coplanar, 1);
    else {
      L gap = std::fabs(dot(w, cross(a.u, b.u))) / sn;
      if (gap < on || (gap * sn > 1e-6L && gap > off * 0.1L)) both("coplanar", q_coplanar, gap < on);
    }
  } else {
    V n = a.flat() ? a.u : b.u;
    L h = std::fabs(dot(w, n));
    if (!wantP) both("coplanar", q_coplanar, 0);
    else if (h < on || h > off) both("coplanar", q_coplanar, h < on);
  }
}
PBT(K04, vectors, 1000000, 60000000, "the angle between the vectors is exact or clear") {
  Frame f = frame(c);
  int how = int(c.u(3));
  L t = how == 0 ? 0 : how == 1 ? 1.5707963267948966192L : L(c.real(0.01, 1.56));
  if (c.flag()) t = 3.14159265358979323846L - t;
  V a = rnd(L(factor(c)) * f.z), b = rnd(L(factor(c)) * (std::cos(t) * f.z + std::sin(t) * f.x));
  L sn = norm(cross(unit(a), unit(b))), cs = dot(unit(a), unit(b));
  L want = std::atan2(sn, cs);
  double got = acme::Angle(ev(a), ev(b)), back = acme::Angle(ev(b), ev(a));
  if (c.verbose) c.log << a << " " << b << "\n";
  L tol = 1e-12L + (sn < 1e-3L ? 1e-6L : 1e-12L);
  CHECK(std::fabs(got - want) <= tol && std::fabs(back - want) <= tol, "the angle between " << a << " and " << b << " is " << want << ", reported " << got << " and " << back);
  c.label(how == 0 ? "parallel" : how == 1 ? "orthogonal" : "oblique");
  c.hit();
}

// ---------------------------------------------------------------------------
// K05
static double const PI_ = 3.14159265358979323846;
#define NEAR(GOT, WANT, TOL, WHAT) CHECK(std::fabs(L(GOT) - L(WANT)) <= L(TOL), WHAT << " is " << double(GOT) << ", expected " << double(WANT))
#define NEARV(GOT, WANT, TOL, WHAT) CHECK(near(V::of(GOT), WANT, TOL), WHAT << " is " << V::of(GOT) << ", expected " << V(WANT))

struct Body { // an entity with the numbers it was built from
  int kind = 0; // line ray plane segment triangle disk ball
  V o, n;       // origin, direction or normal
  V v[3];
  double r = 1;
};
static char const *sn_[] = {"line", "ray", "plane", "segment", "triangle", "disk", "ball"};
static Body body(Case &c, Frame const &f, double s) {
  Body g;
  g.kind = int(c.u(7));
  g.o = rnd(f.o);
  g.n = rnd(L(factor(c)) * f.z);
  g.r = s * c.real(0.1, 2);
  if (g.kind == 3) { g.v[0] = g.o; g.v[1] = rnd(f.o + s * L(c.real(0.2, 3)) * f.z); }
  if (g.kind == 4) { Tri3 T = tri(c, f, s); for (int i = 0; i < 3; ++i) g.v[i] = T.v[i]; }
  return g;
}
static std::ostream &operator<<(std::ostream &os, Body const &g) {
  os << sn_[g.kind];
  if (g.kind == 3) return os << " " << g.v[0] << " - " << g.v[1];
  if (g.kind == 4) return os << " " << g.v[0] << g.v[1] << g.v[2];
  return os << " " << g.o << " axis " << g.n << " radius " << g.r;
}
// everything that can be observed of the entity
struct Lib {
  acme::line l; acme::ray r; acme::plane p; acme::segment s; acme::triangle t; acme::disk d; acme::ball b;
  acme::entity *e = nullptr;
  Lib(Lib const &) = delete;
  Lib(Body const &g, int form) {
    V o = g.o, n = g.n;
    auto D = [](L x) { return double(x); };
    switch (g.kind) {
      case 0: l = form ? acme::line(pt(o), ev(n)) : acme::line(D(o.x), D(o.y), D(o.z), D(n.x), D(n.y), D(n.z)); e = &l; break;
      case 1: r = form ? acme::ray(pt(o), ev(n)) : acme::ray(D(o.x), D(o.y), D(o.z), D(n.x), D(n.y), D(n.z)); e = &r; break;
      case 2: p = form ? acme::plane(pt(o), ev(n)) : acme::plane(D(o.x), D(o.y), D(o.z), D(n.x), D(n.y), D(n.z)); e = &p; break;
      case 3: {
        acme::point q[2] = {pt(g.v[0]), pt(g.v[1])};
        s = form == 0 ? acme::segment(D(g.v[0].x), D(g.v[0].y), D(g.v[0].z), D(g.v[1].x), D(g.v[1].y), D(g.v[1].z)) : form == 1 ? acme::segment(q[0], q[1]) : acme::segment(q);
        e = &s;
        break;
      }
      case 4: {
        acme::point q[3] = {pt(g.v[0]), pt(g.v[1]), pt(g.v[2])};
        t = form == 0 ? acme::triangle(D(g.v[0].x), D(g.v[0].y), D(g.v[0].z), D(g.v[1].x), D(g.v[1].y), D(g.v[1].z), D(g.v[2].x), D(g.v[2].y), D(g.v[2].z)) : form == 1 ? acme::triangle(q[0], q[1], q[2]) : acme::triangle(q);
        e = &t;
        break;
      }
      case 5: d = form == 0 ? acme::disk(g.r, D(o.x), D(o.y), D(o.z), D(n.x), D(n.y), D(n.z)) : form == 1 ? acme::disk(g.r, pt(o), ev(n)) : acme::disk(g.r, acme::plane(pt(o), ev(n))); e = &d; break;
      default: b = form ? acme::ball(g.r, pt(o)) : acme::ball(g.r, D(o.x), D(o.y), D(o.z)); e = &b; break;
    }
  }
};
// compares every measure of the entity with the shape's numbers
static void compare(Lib const &e, Body const &g, L tol, L s, char const *when) {
  V u = unit(g.n);
  L ln = norm(g.n);
  auto T = [&](char const *w) { return std::string("the ") + sn_[g.kind] + "'s " + w + when; };
  L rt = tol / s; // relative
  switch (g.kind) {
    case 0:
      NEARV(e.l.origin(), g.o, tol, T("origin")); NEARV(e.l.direction(), g.n, rt * ln, T("direction")); NEARV(e.l.toVector(), g.n, rt * ln, T("vector")); NEARV(e.l.toUnitVector(), u, rt, T("unit vector"));
      CHECK(!e.l.isDegenerated(), "degenerated"); break;
    case 1:
      NEARV(e.r.origin(), g.o, tol, T("origin")); NEARV(e.r.direction(), g.n, rt * ln, T("direction")); NEARV(e.r.toVector(), g.n, rt * ln, T("vector")); NEARV(e.r.toUnitVector(), u, rt, T("unit vector"));
      CHECK(!e.r.isDegenerated(), "degenerated"); break;
    case 2:
      NEARV(e.p.origin(), g.o, tol, T("origin")); NEARV(e.p.normal(), g.n, rt * ln, T("normal")); NEARV(e.p.unitNormal(), u, rt, T("unit normal"));
      NEAR(e.p.d(), -dot(g.o, g.n), tol * ln * 10 + rt * ln * maxabs(g.o), T("d coefficient"));
      CHECK(!e.p.isDegenerated(), "degenerated"); break;
    case 3: {
      V w = g.v[1] - g.v[0];
      for (int i = 0; i < 2; ++i) { NEARV(e.s.vertex(i), g.v[i], tol, T("vertex")); NEARV(e.s[i], g.v[i], tol, T("vertex")); }
      NEARV(e.s.centroid(), L(0.5) * (g.v[0] + g.v[1]), tol, T("centroid"));
      NEAR(e.s.length(), norm(w), tol, T("length")); NEARV(e.s.toVector(), w, tol * 2, T("vector")); NEARV(e.s.toUnitVector(), unit(w), 10 * tol / norm(w), T("unit vector"));
      CHECK(!e.s.isDegenerated(), "degenerated"); break;
    }
    case 4: {
      V a = g.v[1] - g.v[0], b = g.v[2] - g.v[0], c = g.v[2] - g.v[1];
      for (int i = 0; i < 3; ++i) {
        NEARV(e.t.vertex(i), g.v[i], tol, T("vertex")); NEARV(e.t[i], g.v[i], tol, T("vertex"));
        NEARV(e.t.edge(i).vertex(0), g.v[i], tol, T("edge")); NEARV(e.t.edge(i).vertex(1), g.v[(i + 1) % 3], tol, T("edge"));
      }
      V n = cross(a, b), ctr = (L(1) / 3) * (g.v[0] + g.v[1] + g.v[2]);
      NEARV(e.t.centroid(), ctr, tol, T("centroid")); NEARV(e.t.normal(), unit(n), 30 * rt, T("normal"));
      NEAR(e.t.perimeter(), norm(a) + norm(b) + norm(c), 6 * tol, T("perimeter")); NEAR(e.t.area(), norm(n) / 2, 10 * tol * s, T("area"));
      acme::plane p = e.t.layingPlane();
      CHECK(std::fabs(dot(V::of(p.origin()) - ctr, unit(n))) < 30 * tol, T("plane") << " passes off the triangle");
      NEARV(p.unitNormal(), unit(n), 30 * rt, T("plane's normal"));
      CHECK(!e.t.isDegenerated(), "degenerated"); break;
    }
    case 5:
      NEAR(e.d.radius(), g.r, tol, T("radius")); NEARV(e.d.center(), g.o, tol, T("centre")); NEARV(e.d.normal(), g.n, rt * ln, T("normal"));
      NEARV(e.d.layingPlane().origin(), g.o, tol, T("plane")); NEARV(e.d.layingPlane().normal(), g.n, rt * ln, T("plane's normal"));
      NEAR(e.d.area(), PI_ * L(g.r) * g.r, 10 * tol * s, T("area")); NEAR(e.d.perimeter(), 2 * PI_ * L(g.r), 10 * tol, T("perimeter"));
      CHECK(!e.d.isDegenerated(), "degenerated"); break;
    default:
      NEAR(e.b.radius(), g.r, tol, T("radius")); NEARV(e.b.center(), g.o, tol, T("centre"));
      NEAR(e.b.area(), 4 * PI_ * L(g.r) * g.r, 30 * tol * s, T("area")); NEAR(e.b.volume(), L(4) / 3 * PI_ * L(g.r) * g.r * g.r, 60 * tol * s * s, T("volume"));
      CHECK(!e.b.isDegenerated(), "degenerated"); break;
  }
  // bounding values
  acme::vec3 lo(7, 7, 7), hi(7, 7, 7);
  double x[6] = {7, 7, 7, 7, 7, 7};
  bool k = e.e->clamp(lo, hi), k2 = e.e->clamp(x[0], x[1], x[2], x[3], x[4], x[5]);
  CHECK(k == (g.kind >= 3) && k2 == k && e.e->isClampable() == k && e.e->isNonClampable() == !k, "a " << sn_[g.kind] << " is boundable: " << k << ", " << k2);
  if (!k) return;
  for (int i = 0; i < 3; ++i) {
    auto at = [&](V v) { return i == 0 ? v.x : i == 1 ? v.y : v.z; };
    L a, b;
    bool exact = true;
    if (g.kind == 3) { a = std::min(at(g.v[0]), at(g.v[1])); b = std::max(at(g.v[0]), at(g.v[1])); }
    else if (g.kind == 4) { a = std::min(at(g.v[0]), std::min(at(g.v[1]), at(g.v[2]))); b = std::max(at(g.v[0]), std::max(at(g.v[1]), at(g.v[2]))); }
    else if (g.kind == 6) { a = at(g.o) - g.r; b = at(g.o) + g.r; }
    else { // a disk: no smaller than its extent, no larger than the ball about it
      L q = g.r * std::sqrt(std::max<L>(0, 1 - at(u) * at(u)));
      exact = false;
      CHECK(lo[i] <= at(g.o) - q + tol && lo[i] >= at(g.o) - g.r - tol && hi[i] >= at(g.o) + q - tol && hi[i] <= at(g.o) + g.r + tol, "the disk's bounds [" << lo[i] << ", " << hi[i] << "] along axis " << i << when);
      a = b = 0;
    }
    if (exact) CHECK(std::fabs(lo[i] - a) <= tol && std::fabs(hi[i] - b) <= tol, T("bounds") << " along axis " << i << " are [" << lo[i] << ", " << hi[i] << "], expected [" << a << ", " << b << "]");
    CHECK(x[i] == lo[i] && x[3 + i] == hi[i], "the two forms of the bounds differ");
  }
}
static bool contains(Lib const &e, int kind, V p) {
  acme::point q = pt(p);
  switch (kind) {
    case 0: return e.l.isInside(q);
    case 1: return e.r.isInside(q);
    case 2: return e.p.isInside(q);
    case 3: return e.s.isInside(q);
    case 4: return e.t.isInside(q);
    case 5: return e.d.isInside(q);
    default: return e.b.isInside(q);
  }
}
// a point of known standing: 1 clearly on or in the shape, 0 clearly off
static int probe(Case &c, Body const &g, Frame const &f, double s, V &p) {
  bool off = c.flag();
  L d = off ? s * L(c.real(0.05, 2)) : 0;
  if (g.kind <= 1 || g.kind == 3) {
    L len = g.kind == 3 ? norm(g.v[1] - g.v[0]) : s;
    V u = g.kind == 3 ? unit(g.v[1] - g.v[0]) : unit(g.n), x = across(u), y = cross(u, x), o = g.kind == 3 ? g.v[0] : g.o;
    L t = len * L(c.real(-1.5, 2.5)), a = c.sreal(3.14159265);
    p = rnd(o + t * u + d * (std::cos(a) * x + std::sin(a) * y));
    if (g.kind >= 1 && std::fabs(t) < 1e-3L * s) return -1;
    if (g.kind == 3 && std::fabs(t - len) < 1e-3L * s) return -1;
    bool in = !off && (g.kind == 0 || t > 0) && (g.kind != 3 || t < len);
    return in;
  }
  if (g.kind == 6) {
    V e = dir(c);
    L r = L(g.r) * L(c.real(0, 2));
    p = rnd(g.o + r * e);
    return std::fabs(r - g.r) < 1e-6L * s ? -1 : r < g.r;
  }
  V n = g.kind == 4 ? unit(cross(g.v[1] - g.v[0], g.v[2] - g.v[0])) : unit(g.n);
  V x = across(n), y = cross(n, x), o = g.kind == 4 ? g.v[0] : g.o;
  L a = c.sreal(3.14159265), r = (g.kind == 5 ? L(g.r) : L(s)) * L(c.real(0, 2));
  V q = o + r * (std::cos(a) * x + std::sin(a) * y);
  p = rnd(q + d * (c.flag() ? n : -n));
  L m = 1;
  if (g.kind == 4) { Tri3 T; for (int i = 0; i < 3; ++i) T.v[i] = g.v[i]; m = inside(T, q); }
  if (g.kind == 5) m = L(g.r) - r;
  if (std::fabs(m) < 1e-5L * s) return -1;
  return !off && m > 0;
}
static void barycentric(Lib const &e, Body const &g, V p, V q, L tol, char const *when) {
  double a, b, w;
  e.t.barycentric(pt(p), a, b, w);
  V r = L(a) * g.v[0] + L(b) * g.v[1] + L(w) * g.v[2];
  CHECK(std::fabs(a + b + w - 1) < 1e-9, "barycentric coordinates sum to " << a + b + w << when);
  CHECK(near(r, q, tol), "barycentric coordinates " << a << ", " << b << ", " << w << " of " << p << " give " << r << ", expected " << q << when);
}
PBT(K05, measures, 3000000, 150000000, "an entity was measured and a point clearly in or off it was tested") {
  Frame f = frame(c);
  double s = size(c);
  Body g = body(c, f, s);
  Lib e(g, int(c.u(3)));
  if (c.verbose) c.log << g << "\n";
  L cd = coord({g.o}) + s, tol = 1e-12L * cd;
  compare(e, g, tol, std::min<L>(s, 1), "");
  c.label(sn_[g.kind]);
  V p;
  int in = probe(c, g, f, s, p);
  if (in >= 0) {
    if (c.verbose) c.log << "point " << p << "\n";
    CHECK(contains(e, g.kind, p) == (in == 1), "the point " << p << (in ? " lies in the " : " lies off the ") << sn_[g.kind] << ", isInside answers " << !in);
    c.label(in ? "inside" : "outside");
    c.hit();
  }
  if (g.kind == 2) {
    L h = dot(p - g.o, unit(g.n));
    NEAR(e.p.signedDistance(pt(p)), h, tol, "the signed distance"); NEAR(e.p.distance(pt(p)), std::fabs(h), tol, "the distance"); NEAR(e.p.squaredDistance(pt(p)), h * h, tol * (1 + 2 * std::fabs(h)), "the squared distance");
  }
  if (g.kind == 4) {
    V n = unit(cross(g.v[1] - g.v[0], g.v[2] - g.v[0])), q = p - dot(p - g.v[0], n) * n;
    barycentric(e, g, p, q, 1e-10L * cd * (1 + norm(p - g.v[0]) / s), "");
  }
}
PBT(K05, motions, 3000000, 150000000, "the entity was moved and measured again") {
  Frame f = frame(c, 20);
  double s = size(c);
  Body g = body(c, f, s);
  Lib e(g, int(c.u(3)));
  V p, p0;
  int in = probe(c, g, f, s, p);
  if (c.verbose) c.log << g << "\npoint " << p << "\n";
  acme::point q = pt(p);
  Body h = g;
  int steps = int(c.range(1, 3));
  L cd = coord({g.o, p}) + s;
  for (int k = 0; k < steps; ++k) {
    int how = int(c.u(4));
    V tr(c.sreal(20), c.sreal(20), c.sreal(20)), ax = dir(c);
    double an = c.sreal(3.1415);
    V px = unit(rnd(ax)), py = across(px), pz = cross(px, py);
    auto rot = [&](V v) { L a = dot(v, px), b = dot(v, py), d = dot(v, pz), cs = std::cos(L(an)), si = std::sin(L(an)); return a * px + (cs * b - si * d) * py + (si * b + cs * d) * pz; };
    auto move = [&](bool turn, bool shift) {
      auto P = [&](V v) { if (turn) v = rot(v); if (shift) v = v + tr; return v; };
      h.o = P(h.o); p = P(p);
      for (auto &v : h.v) v = P(v);
      if (turn) h.n = rot(h.n);
    };
    static char const *hn[] = {"translated", "rotated", "transformed", "turned over"};
    c.label(hn[how]);
    if (c.verbose) c.log << hn[how] << " axis " << ax << " angle " << an << " by " << tr << "\n";
    if (how == 0) { e.e->translate(ev(tr)); q.translate(ev(tr)); move(false, true); }
    else if (how == 1) { e.e->rotate(an, ev(px)); q.rotate(an, ev(px)); move(true, false); }
    else if (how == 2) {
      acme::affine M;
      M = Eigen::Translation<double, 3>(ev(tr)) * Eigen::AngleAxis<double>(an, ev(px));
      e.e->transform(M); q.transform(M);
      move(true, true);
    } else { // reversing, swapping, normalising keep the points
      switch (h.kind) {
        case 0: if (c.flag()) { e.l.reverse(); h.n = -h.n; } else { e.l.normalize(); h.n = unit(h.n); } break;
        case 1: if (c.flag()) { e.r.reverse(); h.n = -h.n; in = -1; } else { e.r.normalize(); h.n = unit(h.n); } break;
        case 2: if (c.flag()) { e.p.reverse(); h.n = -h.n; } else { e.p.normalize(); h.n = unit(h.n); } break;
        case 3: e.s.swap(); std::swap(h.v[0], h.v[1]); break;
        case 4: { int i = int(c.u(3)), j = int(c.u(3)); e.t.swap(i, j); std::swap(h.v[i], h.v[j]); break; }
        case 5: if (c.flag()) { e.d.reverse(); h.n = -h.n; } else { e.d.normalize(); h.n = unit(h.n); } break;
        default: break;
      }
    }
    cd = std::max(cd, coord({h.o, p}) + s);
  }
  L tol = 1e-11L * cd;
  compare(e, h, tol, std::min<L>(s, 1), " after the motion");
  NEARV(q, p, tol, "the moved point");
  if (in >= 0) CHECK(contains(e, g.kind, V::of(q)) == (in == 1), "after the motion the point " << p << (in ? " lies in the " : " lies off the ") << sn_[g.kind] << ", isInside answers " << !in);
  c.label(sn_[g.kind]);
  c.hit();
}
// copies, comparison, editing through references
PBT(K05, copies, 1500000, 60000000, "an entity was copied, compared and edited") {
  Frame f = frame(c);
  double s = size(c);
  Body g = body(c, f, s), h = g;
  Lib e(g, int(c.u(3)));
  V by = L(s) * dir(c);
  L fac = c.real(1.05, 3);
  int what = int(c.u(3));
  if (c.verbose) c.log << g << " edit " << what << " by " << by << "\n";
  bool dif = false;
  auto test = [&](auto &x, auto &&edit) {
    auto y = x; // copy
    CHECK(y.isApprox(x) && x.isApprox(x), "a copy of a " << sn_[g.kind] << " differs from it");
    edit(y);
    dif = !y.isApprox(x, 1e-9);
    CHECK(dif, "an edited " << sn_[g.kind] << " compares equal");
    CHECK(!x.isApprox(y, 1e-9), "comparison depends on the order");
    auto z = y;
    z = x; // assignment
    CHECK(z.isApprox(x), "an assigned " << sn_[g.kind] << " differs");
    x = y;
  };
  switch (g.kind) {
    case 0: test(e.l, [&](acme::line &x) { if (what) { x.origin() = pt(rnd(g.o + by)); h.o = rnd(g.o + by); } else { x.direction() = ev(rnd(fac * g.n)); h.n = rnd(fac * g.n); } }); break;
    case 1: test(e.r, [&](acme::ray &x) { if (what) { x.origin() = pt(rnd(g.o + by)); h.o = rnd(g.o + by); } else { x.direction() = ev(rnd(fac * g.n)); h.n = rnd(fac * g.n); } }); break;
    case 2: test(e.p, [&](acme::plane &x) { if (what) { x.origin() = pt(rnd(g.o + by)); h.o = rnd(g.o + by); } else { x.normal() = ev(rnd(fac * g.n)); h.n = rnd(fac * g.n); } }); break;
    case 3: test(e.s, [&](acme::segment &x) { int i = what % 2; h.v[i] = rnd(g.v[i] + by); if (what == 2) x[i] = pt(h.v[i]); else x.vertex(i) = pt(h.v[i]); }); break;
    case 4: test(e.t, [&](acme::triangle &x) { h.v[what] = rnd(g.v[what] + by); if (fac > 2) x[what] = pt(h.v[what]); else x.vertex(what) = pt(h.v[what]); }); break;
    case 5: test(e.d, [&](acme::disk &x) { if (what == 0) { x.radius() = double(fac * g.r); h.r = double(fac * g.r); } else if (what == 1) { x.center() = pt(rnd(g.o + by)); h.o = rnd(g.o + by); } else { x.normal() = ev(rnd(fac * g.n)); h.n = rnd(fac * g.n); } }); break;
    default: test(e.b, [&](acme::ball &x) { if (what == 0) { x.radius() = double(fac * g.r); h.r = double(fac * g.r); } else { x.center() = pt(rnd(g.o + by)); h.o = rnd(g.o + by); } }); break;
  }
  if (g.kind == 4 || g.kind == 3) { // an edit may flatten it: vertices only
    for (int i = 0; i < g.kind - 1; ++i) NEARV(g.kind == 3 ? e.s.vertex(i) : e.t.vertex(i), h.v[i], 1e-12L * coord({h.v[i]}), "an edited vertex");
  } else compare(e, h, 1e-11L * (coord({h.o}) + s), std::min<L>(s, 1), " after the edit");
  c.label(sn_[g.kind]);
  c.hit();
}
