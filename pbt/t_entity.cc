// K03: queries on two entities of unknown type, and on collections of them
#include "kgen.hh"
#include <variant>
using namespace mdl;
using namespace kg;
using pbt::Case;

enum { POINT, LINE, RAY, PLANE, SEG, TRI, DISK, BALL, NKIND };
static char const *kn[] = {"point", "line", "ray", "plane", "segment", "triangle", "disk", "ball"};
typedef std::variant<acme::point, acme::line, acme::ray, acme::plane, acme::segment, acme::triangle, acme::disk, acme::ball> Any;
struct Thing {
  int  kind;
  Any  v;
  V    o, u;
  bool flat() const { return kind == PLANE || kind == TRI || kind == DISK; }
  bool thin() const { return kind == LINE || kind == RAY || kind == SEG; }
  acme::entity const *e() const { return std::visit([](auto const &x) -> acme::entity const * { return &x; }, v); }
  acme::entity::ptr share() const { return std::visit([](auto const &x) -> acme::entity::ptr { return std::make_shared<std::decay_t<decltype(x)>>(x); }, v); }
};
static std::ostream &operator<<(std::ostream &os, Thing const &t) {
  os << kn[t.kind] << " at " << t.o;
  if (t.kind != POINT && t.kind != BALL) os << (t.flat() ? " normal " : " along ") << t.u;
  return os;
}
static Thing thing(Case &c, int kind, Frame const &f, double s) {
  Thing t;
  t.kind = kind;
  V n = rnd(L(factor(c)) * f.z);
  t.o = rnd(f.o);
  t.u = unit(n);
  switch (kind) {
    case POINT: t.v = pt(t.o); break;
    case LINE: t.v = acme::line(pt(t.o), ev(n)); break;
    case RAY: t.v = acme::ray(pt(t.o), ev(n)); break;
    case PLANE: t.v = acme::plane(pt(t.o), ev(n)); break;
    case SEG: {
      L len = s * L(c.real(0.2, 3)), a = len * L(c.real(-1, 0));
      V p = rnd(f.o + a * f.z), q = rnd(f.o + (a + len) * f.z);
      if (c.flag()) std::swap(p, q);
      t.v = acme::segment(pt(p), pt(q));
      t.o = p; t.u = unit(q - p);
      break;
    }
    case TRI: { Tri3 T = tri(c, f, s); t.v = lib(T); t.o = T.v[0]; t.u = normal(T); break; }
    case DISK: t.v = acme::disk(s * c.real(0.1, 2), pt(t.o), ev(n)); break;
    default: t.v = acme::ball(s * c.real(0.1, 2), pt(t.o)); break;
  }
  return t;
}
template <class A, class B, class = void> struct has_copl : std::false_type {};
template <class A, class B> struct has_copl<A, B, std::void_t<decltype(acme::IsCoplanar(std::declval<A const &>(), std::declval<B const &>()))>> : std::true_type {};
template <class A, class B, class = void> struct has_coll : std::false_type {};
template <class A, class B> struct has_coll<A, B, std::void_t<decltype(acme::IsCollinear(std::declval<A const &>(), std::declval<B const &>()))>> : std::true_type {};
template <class A, class B, class = void> struct has_para : std::false_type {};
template <class A, class B> struct has_para<A, B, std::void_t<decltype(acme::IsParallel(std::declval<A const &>(), std::declval<B const &>()))>> : std::true_type {};
template <class A, class B, class R, class = void> struct has_inter : std::false_type {};
template <class A, class B, class R> struct has_inter<A, B, R, std::void_t<decltype(acme::Intersection(std::declval<A const &>(), std::declval<B const &>(), std::declval<R &>(), 0.0))>> : std::true_type {};
template <class T> using D = std::decay_t<T>;
// answer of the query on the entities' own types; no such query: no
template <class F> static bool canon(Any const &a, Any const &b, F f) { return a.index() <= b.index() ? std::visit(f, a, b) : std::visit(f, b, a); }
#define TYPED(NAME, TRAIT) [](auto const &x, auto const &y) -> bool { if constexpr (TRAIT<D<decltype(x)>, D<decltype(y)>>::value) return acme::NAME(x, y); else return false; }
static bool t_parallel(Any const &a, Any const &b) { return canon(a, b, TYPED(IsParallel, has_para)); }
static bool t_orthogonal(Any const &a, Any const &b) { return canon(a, b, TYPED(IsOrthogonal, has_para)); }
static bool t_collinear(Any const &a, Any const &b) { return canon(a, b, TYPED(IsCollinear, has_coll)); }
static bool t_coplanar(Any const &a, Any const &b) { return canon(a, b, TYPED(IsCoplanar, has_copl)); }

// what a query must come to
struct Sect {
  enum { HIT, NONE, REFUSED } state = NONE;
  Any v;
};
template <class R> static bool typed(Any const &a, Any const &b, double tol, Sect &o) {
  bool have = false;
  canon(a, b, [&](auto const &x, auto const &y) -> bool {
    if constexpr (has_inter<D<decltype(x)>, D<decltype(y)>, R>::value) {
      have = true;
      R r;
      if (acme::Intersection(x, y, r, tol)) { o.state = Sect::HIT; o.v = r; }
      else o.state = Sect::NONE;
    }
    return true;
  });
  return have;
}
// the section of the pair by the query on the pair's own types
static Sect reference(Thing const &a, Thing const &b, double tol, std::string &how) {
  Sect o;
  o.state = Sect::REFUSED;
  int lo = std::min(a.kind, b.kind), hi = std::max(a.kind, b.kind);
  Any const &x = a.v, &y = b.v;
  bool thin = a.thin() && b.thin();
  if (lo == POINT) { how = "point"; typed<acme::point>(x, y, tol, o); return o; }
  if (thin && t_collinear(x, y)) {
    how = "collinear";
    if (lo == LINE && hi == LINE) typed<acme::line>(x, y, tol, o);
    else if (lo == LINE && hi == RAY) typed<acme::ray>(x, y, tol, o);
    else if (lo == RAY && hi == RAY) { if (dot(a.u, b.u) > 0) typed<acme::ray>(x, y, tol, o); else typed<acme::segment>(x, y, tol, o); }
    else typed<acme::segment>(x, y, tol, o);
    return o;
  }
  bool cop = t_coplanar(x, y);
  how = cop ? "coplanar" : thin ? "skew" : "section";
  if (thin) { if (cop) typed<acme::point>(x, y, tol, o); else o.state = Sect::NONE; return o; }
  if (hi == BALL) {
    if (lo == PLANE) typed<acme::disk>(x, y, tol, o);
    else if (lo < BALL && (lo == LINE || lo == RAY || lo == SEG)) typed<acme::segment>(x, y, tol, o);
    return o; // others: no section is defined
  }
  if (!(a.flat() && b.flat())) {
    int t = a.thin() ? a.kind : b.kind, p = a.thin() ? b.kind : a.kind;
    if (!cop) typed<acme::point>(x, y, tol, o);
    else if (p != PLANE || t == SEG) typed<acme::segment>(x, y, tol, o);
    else if (t == LINE) typed<acme::line>(x, y, tol, o);
    else typed<acme::ray>(x, y, tol, o);
    return o;
  }
  if (cop) {
    if (lo == PLANE && hi == PLANE) typed<acme::plane>(x, y, tol, o);
    else if (lo == PLANE && hi == TRI) typed<acme::triangle>(x, y, tol, o);
    else if (lo == PLANE) typed<acme::disk>(x, y, tol, o);
    else if (lo == TRI && hi == TRI) o.state = Sect::NONE; // an overlap has no entity
    return o;
  }
  if (lo == PLANE && hi == PLANE) typed<acme::line>(x, y, tol, o);
  else typed<acme::segment>(x, y, tol, o);
  return o;
}
static std::string describe(acme::entity const *e) { return e->type(); }
// the entity the generic query returned against the reference
static void match(acme::entity const *e, Sect const &o, L tol, std::string const &what) {
  if (o.state == Sect::NONE) { CHECK(e->isNone(), what << ": no common entity is expected, a " << describe(e) << " is returned"); return; }
  CHECK(!e->isNone(), what << ": a " << kn[o.v.index()] << " is expected, nothing is returned");
  std::string bad;
  std::visit([&](auto const &w) {
    typedef D<decltype(w)> T;
    T const *g = dynamic_cast<T const *>(e);
    if (!g) { bad = std::string("a ") + kn[o.v.index()] + " is expected, a " + describe(e) + " is returned"; return; }
    bool ok = true;
    if constexpr (std::is_same_v<T, acme::point>) ok = near(V::of(*g), V::of(w), tol);
    else if constexpr (std::is_same_v<T, acme::line>) ok = norm(cross(unit(V::of(g->direction())), unit(V::of(w.direction())))) < 1e-9L && norm(cross(V::of(g->origin()) - V::of(w.origin()), unit(V::of(w.direction())))) < tol;
    else if constexpr (std::is_same_v<T, acme::ray>) ok = near(unit(V::of(g->direction())), unit(V::of(w.direction())), 1e-9L) && near(V::of(g->origin()), V::of(w.origin()), tol);
    else if constexpr (std::is_same_v<T, acme::plane>) ok = norm(cross(unit(V::of(g->normal())), unit(V::of(w.normal())))) < 1e-9L && std::fabs(dot(V::of(g->origin()) - V::of(w.origin()), unit(V::of(w.normal())))) < tol;
    else if constexpr (std::is_same_v<T, acme::segment>) ok = ends(*g, V::of(w.vertex(0)), V::of(w.vertex(1)), tol);
    else if constexpr (std::is_same_v<T, acme::triangle>) {
      for (int i = 0; i < 3; ++i) { bool one = false; for (int j = 0; j < 3; ++j) one = one || near(V::of(g->vertex(i)), V::of(w.vertex(j)), tol); ok = ok && one; }
    } else if constexpr (std::is_same_v<T, acme::disk>) ok = near(V::of(g->center()), V::of(w.center()), tol) && std::fabs(g->radius() - w.radius()) < tol && norm(cross(unit(V::of(g->normal())), unit(V::of(w.normal())))) < 1e-9L;
    if (!ok) bad = std::string("the returned ") + kn[o.v.index()] + " differs from the one of the typed query";
  }, o.v);
  CHECK(bad.empty(), what << ": " << bad);
}
static std::unique_ptr<acme::entity> ask(Thing const &a, Thing const &b, double tol, bool &refused) {
  refused = false;
  try { return std::unique_ptr<acme::entity>(acme::Intersection(a.e(), b.e(), tol)); }
  catch (std::exception const &) { refused = true; return nullptr; }
}
static void pair_check(Case &c, Thing const &a, Thing const &b, double tol, L eps) {
  std::string nm = std::string(kn[a.kind]) + " and " + kn[b.kind], how;
  if (a.kind == b.kind && (t_coplanar(a.v, b.v) != t_coplanar(b.v, a.v) || t_collinear(a.v, b.v) != t_collinear(b.v, a.v))) return;
  struct Q { char const *what; bool (*t)(Any const &, Any const &); bool got; };
  Q qs[4] = {{"parallel", t_parallel, acme::IsParallel(a.e(), b.e())}, {"orthogonal", t_orthogonal, acme::IsOrthogonal(a.e(), b.e())},
             {"collinear", t_collinear, acme::IsCollinear(a.e(), b.e())}, {"coplanar", t_coplanar, acme::IsCoplanar(a.e(), b.e())}};
  if (a.kind != POINT && b.kind != POINT)
    for (auto const &q : qs) {
      bool want = q.t(a.v, b.v);
      CHECK(q.got == want, "the " << nm << ": " << q.what << " answers " << q.got << " on the entities, " << want << " on their types");
      if (want) c.label(q.what);
    }
  Sect o = reference(a, b, tol, how);
  bool ref;
  auto e = ask(a, b, tol, ref);
  if (o.state == Sect::REFUSED) {
    CHECK(ref || e->isNone(), "the " << nm << " (" << how << ") have no defined section, a " << describe(e.get()) << " is returned");
    c.label("no section defined");
    return;
  }
  CHECK(!ref, "the intersection of the " << nm << " (" << how << ") is refused");
  CHECK(e != nullptr, "the intersection of the " << nm << " (" << how << ") is null");
  match(e.get(), o, eps, "the " + nm + " (" + how + ")");
  c.label(how + (o.state == Sect::HIT ? std::string(" ") + kn[o.v.index()] : " none"));
  c.hit();
}
static Thing second(Case &c, int kind, Thing const &a, Frame const &f, double s, double s2) {
  int how = int(c.u(3));
  L t = how == 0 ? 0 : how == 1 ? 1.5707963267948966192L : L(c.real(0.05, 1.5));
  if (c.flag()) t = 3.14159265358979323846L - t;
  Frame g;
  g.z = std::cos(t) * f.z + std::sin(t) * f.x; g.x = std::cos(t) * f.x - std::sin(t) * f.z; g.y = f.y;
  int where = int(c.u(4));
  L reach = s * L(c.flag(3, 4) ? 0.6 : 3), along = reach * L(c.sreal(1)), d = where <= 1 ? 0 : s * L(c.real(0.01, 2)), ang = where == 2 ? 0 : L(c.sreal(3.14159265));
  if (a.flat()) g.o = f.at(along, reach * L(c.sreal(1)), where <= 1 ? 0 : d * (c.flag() ? 1 : -1));
  else g.o = f.at(d * std::cos(ang), d * std::sin(ang), along);
  // often let the second meet the first away from its own origin
  if (c.flag()) g.o = g.o + s2 * L(c.sreal(0.5)) * g.z;
  return thing(c, kind, g, s2);
}
PBT(K03, pairs, 5000000, 300000000, "the pair has a defined section, or clearly none") {
  Frame f = frame(c);
  double s = size(c), s2 = c.flag(3, 4) ? s : size(c);
  Thing a = thing(c, int(c.u(NKIND)), f, s), b = second(c, int(c.u(NKIND)), a, f, s, s2);
  double tol = c.flag(3, 4) ? acme::EPSILON_ACME : c.logreal(1e-9, 1e-4);
  if (c.flag()) std::swap(a, b);
  if (c.verbose) c.log << a << "\n" << b << "\ntolerance " << tol << "\n";
  L eps = 1e-9L * coord({a.o, b.o});
  pair_check(c, a, b, tol, eps);
}
PBT(K03, collections, 1000000, 60000000, "at least three entities of at least two kinds") {
  Frame f = frame(c);
  double s = size(c);
  int n = int(c.size(1, 8));
  std::vector<Thing> ts;
  acme::collection col, found;
  std::set<int> kinds;
  for (int i = 0; i < n; ++i) {
    int k = int(c.u(NKIND - 1));
    Thing t = i ? second(c, k, ts[0], f, s, s) : thing(c, k, f, s);
    ts.push_back(t);
    kinds.insert(k);
    col.push_back(t.share());
    if (c.verbose) c.log << t << "\n";
  }
  double tol = acme::EPSILON_ACME;
  std::vector<Sect> want;
  std::string how;
  for (int i = 0; i < n; ++i)
    for (int j = i; j < n; ++j) {
      if (i != j && ts[i].kind == ts[j].kind && (t_coplanar(ts[i].v, ts[j].v) != t_coplanar(ts[j].v, ts[i].v) || t_collinear(ts[i].v, ts[j].v) != t_collinear(ts[j].v, ts[i].v))) return;
      Sect o = reference(ts[i], ts[j], tol, how);
      if (o.state == Sect::REFUSED) { c.label("has a pair without section"); return; }
      want.push_back(o);
    }
  if (c.flag()) found.push_back(ts[0].share()); // earlier content is replaced
  col.intersection(found, tol);
  CHECK(found.size() == want.size(), n << " entities have " << want.size() << " pairs, " << found.size() << " results are returned");
  size_t k = 0;
  for (int i = 0; i < n; ++i)
    for (int j = i; j < n; ++j, ++k) {
      std::ostringstream w;
      w << "the " << kn[ts[i].kind] << " " << i << " and the " << kn[ts[j].kind] << " " << j;
      match(found[k].get(), want[k], 1e-9L * coord({ts[i].o, ts[j].o}), w.str());
    }
  CHECK(int(col.size()) == n, "the collection itself changed");
  c.label("pairs " + std::to_string(want.size() < 10 ? 1 : 10) + "+");
  if (n >= 3 && kinds.size() > 1) c.hit();
}
