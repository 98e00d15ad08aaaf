// K09: the tolerance argument of the kernel's queries, given and left out
#include "kgen.hh"
#include <variant>
using namespace mdl;
using namespace kg;
using pbt::Case;

static const double EPS0 = 1.4901161193847656e-08; // what an omitted tolerance stands for
// the tolerance of a case and how far the deviation lies from it
struct Tol {
  double T;
  bool   omitted;
  int    side; // 1: clearly within, 0: clearly beyond
  L      dev;
};
static Tol tolerance(Case &c, double margin) {
  Tol t;
  t.omitted = c.flag(1, 3);
  t.T = t.omitted ? EPS0 : c.logreal(1e-7, 1e-2);
  t.side = c.flag();
  t.dev = t.side ? (c.flag(1, 5) ? 0.0L : L(t.T) * L(c.logreal(1e-3, 1 / margin))) : std::min<L>(std::max<L>(0.2L, margin * L(t.T)), L(t.T) * L(c.logreal(margin, 1e3)));
  if (c.verbose) c.log << "tolerance " << t.T << (t.omitted ? " (left out)" : "") << " deviation " << t.dev << "\n";
  c.label(t.omitted ? "default tolerance" : "given tolerance");
  c.label(t.side ? "within" : "beyond");
  return t;
}
static char const *says(int want) { return want ? "within" : "beyond"; }

// ---------------------------------------------------------------------------
enum { VEC, LINE, RAY, PLANE, SEG, TRI, DISK, NREL };
static char const *kn[] = {"vector", "line", "ray", "plane", "segment", "triangle", "disk"};
typedef std::variant<acme::vec3, acme::line, acme::ray, acme::plane, acme::segment, acme::triangle, acme::disk> Any;
struct Thing {
  int kind;
  Any v;
  V   u;
  std::vector<V> p; // points whose position decides (thin: on the carrier; flat: in the plane)
  bool flat() const { return kind == PLANE || kind == TRI || kind == DISK; }
  acme::entity const *e() const {
    return std::visit([](auto const &x) -> acme::entity const * { if constexpr (std::is_same_v<std::decay_t<decltype(x)>, acme::vec3>) return nullptr; else return &x; }, v);
  }
};
static std::ostream &operator<<(std::ostream &os, Thing const &t) {
  os << kn[t.kind] << (t.flat() ? " normal " : " along ") << t.u;
  for (auto const &q : t.p) os << " " << q;
  return os;
}
// everything about one unit in size: directions, lengths and radii need no scaling
static Thing thing(Case &c, int kind, Frame const &f) {
  Thing t;
  t.kind = kind;
  V n = rnd(c.flag() ? -f.z : f.z), o = rnd(f.o);
  t.u = unit(n);
  t.p = {o};
  switch (kind) {
    case VEC: t.v = ev(n); t.p.clear(); break;
    case LINE: t.v = acme::line(pt(o), ev(n)); break;
    case RAY: t.v = acme::ray(pt(o), ev(n)); break;
    case PLANE: t.v = acme::plane(pt(o), ev(n)); break;
    case SEG: {
      V q = rnd(f.o + f.z);
      t.p = {o, q};
      if (c.flag()) std::swap(t.p[0], t.p[1]);
      t.v = acme::segment(pt(t.p[0]), pt(t.p[1]));
      t.u = unit(t.p[1] - t.p[0]);
      break;
    }
    case TRI: { Tri3 T = tri(c, f, 1); t.v = lib(T); t.p = {T.v[0], T.v[1], T.v[2]}; t.u = normal(T); break; }
    default: t.v = acme::disk(c.real(0.5, 1.5), pt(o), ev(n)); break;
  }
  return t;
}
template <class A, class B, class = void> struct copl : std::false_type {};
template <class A, class B> struct copl<A, B, std::void_t<decltype(acme::IsCoplanar(std::declval<A const &>(), std::declval<B const &>()))>> : std::true_type {};
template <class A, class B, class = void> struct coll : std::false_type {};
template <class A, class B> struct coll<A, B, std::void_t<decltype(acme::IsCollinear(std::declval<A const &>(), std::declval<B const &>()))>> : std::true_type {};
template <class A, class B, class = void> struct para : std::false_type {};
template <class A, class B> struct para<A, B, std::void_t<decltype(acme::IsParallel(std::declval<A const &>(), std::declval<B const &>()))>> : std::true_type {};
#define QUERY(NAME, TRAIT) [&](auto const &x, auto const &y) -> int { if constexpr (TRAIT<std::decay_t<decltype(x)>, std::decay_t<decltype(y)>>::value) return t.omitted ? acme::NAME(x, y) : acme::NAME(x, y, t.T); else return -1; }

PBT(K09, relations, 3000000, 150000000, "the pair misses a relation by a known angle or distance, clearly within or beyond the tolerance") {
  Frame f = frame(c, 1), g;
  int ka = int(c.u(NREL)), kb = int(c.u(NREL));
  if (ka > kb) std::swap(ka, kb);
  int rel = int(c.u(ka == VEC ? 2 : 4)); // parallel, orthogonal, coplanar, collinear
  Tol t = tolerance(c, 5);
  bool byangle = rel < 2 || c.flag();
  L a = byangle ? std::asin(t.dev) : 0, d = byangle ? 0 : t.dev;
  if (c.flag()) a = -a;
  if (c.flag()) d = -d;
  bool fa = ka == PLANE || ka == TRI || ka == DISK, fb = kb == PLANE || kb == TRI || kb == DISK, same = fa == fb;
  bool upright = rel < 2 ? (rel == 0) != same : !same; // the axes at a right angle
  bool crossing = rel == 2 && same && !fa;             // coplanar lines: crossing in the open
  if (rel == 3 && (fa || fb)) { rel = 2; crossing = false; }
  L ang = crossing ? L(c.real(0.6, 2.5)) : a + (upright ? 1.5707963267948966192L : 0);
  if (crossing) { byangle = false; d = t.dev; }
  V z = std::cos(ang) * f.z + std::sin(ang) * f.x;
  g.z = z; g.x = std::cos(ang) * f.x - std::sin(ang) * f.z; g.y = f.y;
  L p = L(c.sreal(0.5)), q = L(c.sreal(0.5));
  if (fa) g.o = f.at(p, q, d);
  else if (fb) g.o = f.at(0, 0, p) + d * g.z + q * cross(g.z, f.z);
  else g.o = f.at(0, d, p);
  Thing A = thing(c, ka, f), B = thing(c, kb, g);
  if (c.verbose) c.log << A << "\n" << B << "\n";
  L sn = norm(cross(A.u, B.u)), cs = std::fabs(dot(A.u, B.u)), m = sn;
  char const *what = rel == 0 ? "parallel" : rel == 1 ? "orthogonal" : rel == 2 ? "coplanar" : "collinear";
  // the deviation, from the rounded numbers: the largest and the smallest sensible measure of it
  L hi, lo;
  if (rel == 0) lo = hi = same ? sn : cs;
  else if (rel == 1) lo = hi = same ? cs : sn;
  else if (crossing) {
    m = std::fabs(dot(B.p[0] - A.p[0], unit(cross(A.u, B.u))));
    hi = m; lo = m * sn;
  } else {
    L e = same ? sn : cs; // the angle is off
    hi = e; lo = e;
    L far = 0, nearst = 1e30L;
    bool thin = !fa && !fb;
    auto dist = [&](V x, Thing const &T) { return thin ? norm(cross(x - T.p[0], T.u)) : std::fabs(dot(x - T.p[0], T.u)); };
    for (auto const &x : B.p) if (thin || fa) { L h = dist(x, A); far = std::max(far, h); nearst = std::min(nearst, h); }
    for (auto const &x : A.p) if (thin || fb) { L h = dist(x, B); far = std::max(far, h); nearst = std::min(nearst, h); }
    hi = std::max(hi, far); lo = std::max(lo, nearst);
    if (rel == 2 && thin) return; // parallel lines always share a plane
  }
  int want = hi < 0.6L * t.T ? 1 : lo > 1.7L * t.T ? 0 : -1;
  if (want < 0) { c.label("unsure"); return; }
  int r = -1, r2 = -1, re = -1, re2 = -1;
  auto ask = [&](auto query) { r = std::visit(query, A.v, B.v); if (ka == kb) r2 = std::visit(query, B.v, A.v); };
  acme::entity const *x = A.e(), *y = B.e();
  if (rel == 0) ask(QUERY(IsParallel, para));
  if (rel == 1) ask(QUERY(IsOrthogonal, para));
  if (rel == 2) ask(QUERY(IsCoplanar, copl));
  if (rel == 3) ask(QUERY(IsCollinear, coll));
  if (r < 0) return;
  if (x && y) {
    auto gen = [&](acme::entity const *u, acme::entity const *v) -> int {
      switch (rel) {
        case 0: return t.omitted ? acme::IsParallel(u, v) : acme::IsParallel(u, v, t.T);
        case 1: return t.omitted ? acme::IsOrthogonal(u, v) : acme::IsOrthogonal(u, v, t.T);
        case 2: return t.omitted ? acme::IsCoplanar(u, v) : acme::IsCoplanar(u, v, t.T);
        default: return t.omitted ? acme::IsCollinear(u, v) : acme::IsCollinear(u, v, t.T);
      }
    };
    re = gen(x, y); re2 = gen(y, x);
  }
  for (int k : {r, r2, re, re2})
    CHECK(k < 0 || k == want, "the " << kn[ka] << " and the " << kn[kb] << " are " << says(want) << " " << t.T << " of " << what << " (off by " << lo << " to " << hi << "), answered " << k);
  c.label(what);
  c.hit();
}

// ---------------------------------------------------------------------------
PBT(K09, inside, 2000000, 100000000, "the point is off the entity by a distance clearly within or beyond the tolerance") {
  Frame f = frame(c, 1);
  Tol t = tolerance(c, 5);
  int kind = int(c.range(1, 6));
  V o = rnd(f.o), n = rnd(f.z);
  V u = unit(n), x = across(u), y = cross(u, x);
  L d = t.dev, a = c.sreal(3.14159265), s = L(c.real(0.15, 0.85));
  V side = std::cos(a) * x + std::sin(a) * y, p;
  acme::line l; acme::ray r; acme::plane P; acme::segment S; acme::triangle T; acme::disk D;
  acme::entity const *e = nullptr;
  int how = 0;
  switch (kind) {
    case LINE: l = acme::line(pt(o), L(c.real(0.5, 2)) > 1 ? ev(n) : ev(-n)); e = &l; p = o + c.sreal(2) * u + d * side; break;
    case RAY: r = acme::ray(pt(o), ev(n)); e = &r; how = int(c.u(2)); p = how ? o - d * u : o + s * u + d * side; break;
    case PLANE: P = acme::plane(pt(o), ev(n)); e = &P; p = o + L(c.real(0, 2)) * side + (c.flag() ? d : -d) * u; break;
    case SEG: {
      V q = rnd(o + u);
      S = acme::segment(pt(o), pt(q)); e = &S; how = int(c.u(2)); p = how ? o - d * u : q + d * u;
      break;
    }
    case TRI: {
      Tri3 k = tri(c, f, 1);
      T = lib(k); e = &T; how = int(c.u(2));
      V N = normal(k);
      int i = int(c.u(3));
      V A = k.v[i], B = k.v[(i + 1) % 3], C = k.v[(i + 2) % 3], m = A + s * (B - A);
      if (how) { // over an edge, in units of the height over it
        L h = dot(unit(cross(N, B - A)), C - A);
        p = m - d * h * unit(cross(N, B - A));
      } else p = L(1) / 3 * (A + B + C) + (c.flag() ? d : -d) * N;
      break;
    }
    default: D = acme::disk(c.real(0.5, 1.5), pt(o), ev(n)); e = &D; p = o + L(0.8) * L(D.radius()) * s * side + (c.flag() ? d : -d) * u; break;
  }
  p = rnd(p);
  if (c.verbose) c.log << kn[kind] << " way " << how << " point " << p << "\n";
  acme::point q = pt(p);
  int want = t.side, in = -1, sec = -1, gen = -1;
  acme::point out;
  switch (kind) {
    case LINE: in = t.omitted ? l.isInside(q) : l.isInside(q, t.T); sec = t.omitted ? acme::Intersection(q, l, out) : acme::Intersection(q, l, out, t.T); break;
    case RAY: in = t.omitted ? r.isInside(q) : r.isInside(q, t.T); sec = t.omitted ? acme::Intersection(q, r, out) : acme::Intersection(q, r, out, t.T); break;
    case PLANE: in = t.omitted ? P.isInside(q) : P.isInside(q, t.T); sec = t.omitted ? acme::Intersection(q, P, out) : acme::Intersection(q, P, out, t.T); break;
    case SEG: in = t.omitted ? S.isInside(q) : S.isInside(q, t.T); sec = t.omitted ? acme::Intersection(q, S, out) : acme::Intersection(q, S, out, t.T); break;
    case TRI: in = t.omitted ? T.isInside(q) : T.isInside(q, t.T); sec = t.omitted ? acme::Intersection(q, T, out) : acme::Intersection(q, T, out, t.T); break;
    default: in = t.omitted ? D.isInside(q) : D.isInside(q, t.T); sec = t.omitted ? acme::Intersection(q, D, out) : acme::Intersection(q, D, out, t.T); break;
  }
  acme::entity *g = t.omitted ? acme::Intersection(&q, e) : acme::Intersection(&q, e, t.T);
  gen = !g->isNone();
  delete g;
  g = t.omitted ? acme::Intersection(e, &q) : acme::Intersection(e, &q, t.T);
  int gen2 = !g->isNone();
  delete g;
  for (int k : {in, sec, gen, gen2})
    CHECK(k == want, "a point off the " << kn[kind] << " by " << d << " lies " << says(want) << " the tolerance " << t.T << ", answered " << in << " by isInside, " << sec << " by the intersection, " << gen << ", " << gen2 << " by the generic one");
  if (want) CHECK(near(V::of(out), p, 0), "the common point is " << V::of(out) << ", not " << p);
  c.label(kn[kind]);
  c.hit();
}

// ---------------------------------------------------------------------------
PBT(K09, equality, 2000000, 100000000, "two entities differ in one vector or radius by a relative amount clearly within or beyond the tolerance") {
  Frame f = frame(c, 1);
  Tol t = tolerance(c, 10);
  int kind = int(c.u(9));
  static char const *nm[] = {"point", "line", "ray", "plane", "segment", "triangle", "disk", "ball", "box"};
  // three vectors between 1 and 2 long
  V w[3], b[3];
  for (int i = 0; i < 3; ++i) b[i] = w[i] = rnd(L(c.real(1, 2)) * dir(c));
  double r = c.real(1, 2), r2 = r;
  int n = kind == 0 ? 1 : kind < 5 || kind == 8 ? 2 : kind == 5 ? 3 : kind == 6 ? 3 : 2;
  int k = int(c.u(n));
  V to = dir(c);
  bool radius = (kind == 6 && k == 2) || (kind == 7 && k == 1);
  if (radius) r2 = r + (c.flag() ? double(t.dev) : -double(t.dev));
  else b[k] = rnd(b[k] + t.dev * to);
  if (c.verbose) c.log << nm[kind] << " " << w[0] << w[1] << w[2] << r << " / " << b[0] << b[1] << b[2] << r2 << "\n";
  auto eq = [&](auto const &x, auto const &y) {
    for (int i = 0; i < 2; ++i) {
      bool g = i ? (t.omitted && kind ? y.isApprox(x) : y.isApprox(x, t.T)) : (t.omitted && kind ? x.isApprox(y) : x.isApprox(y, t.T));
      CHECK(g == t.side, "two " << nm[kind] << "s that differ by " << t.dev << " in one of their numbers, " << says(t.side) << " the tolerance " << t.T << ", compare " << (g ? "equal" : "different"));
    }
  };
  auto box = [](V const *v) { V lo(std::min(v[0].x, v[1].x), std::min(v[0].y, v[1].y), std::min(v[0].z, v[1].z)), h(std::max(v[0].x, v[1].x), std::max(v[0].y, v[1].y), std::max(v[0].z, v[1].z)); return acme::aabb(pt(lo), pt(h)); };
  switch (kind) {
    case 0: eq(pt(w[0]), pt(b[0])); break;
    case 1: eq(acme::line(pt(w[0]), ev(w[1])), acme::line(pt(b[0]), ev(b[1]))); break;
    case 2: eq(acme::ray(pt(w[0]), ev(w[1])), acme::ray(pt(b[0]), ev(b[1]))); break;
    case 3: eq(acme::plane(pt(w[0]), ev(w[1])), acme::plane(pt(b[0]), ev(b[1]))); break;
    case 4: eq(acme::segment(pt(w[0]), pt(w[1])), acme::segment(pt(b[0]), pt(b[1]))); break;
    case 5: eq(acme::triangle(pt(w[0]), pt(w[1]), pt(w[2])), acme::triangle(pt(b[0]), pt(b[1]), pt(b[2]))); break;
    case 6: eq(acme::disk(r, pt(w[0]), ev(w[1])), acme::disk(r2, pt(b[0]), ev(b[1]))); break;
    case 7: eq(acme::ball(r, pt(w[0])), acme::ball(r2, pt(b[0]))); break;
    default: {
      // corners about one and two units from the origin
      V lo(0.5L, 0.5L, 0.5L), hi(1.2L, 1.2L, 1.2L), m(t.dev, 0, 0);
      V p[2] = {rnd(lo), rnd(hi)}, q[2] = {rnd(k ? lo : lo - m), rnd(k ? hi + m : hi)};
      eq(box(p), box(q));
    }
  }
  c.label(nm[kind]);
  c.hit();
}

// ---------------------------------------------------------------------------
// an entity whose size is d in the sense of its degeneration
static acme::entity::ptr small(Case &c, int kind, Frame const &f, L d) {
  V o = rnd(f.o), e = dir(c);
  switch (kind) {
    case 0: return std::make_shared<acme::line>(pt(o), ev(d * e));
    case 1: return std::make_shared<acme::ray>(pt(o), ev(d * e));
    case 2: return std::make_shared<acme::plane>(pt(o), ev(d * e));
    case 3: return std::make_shared<acme::segment>(pt(o), pt(o + d * e));
    case 4: {
      V p[3] = {o, o + e, o + d * e};
      int k = int(c.u(3));
      V q = across(e);
      p[0] = o; p[1] = o + d * e; p[2] = o + L(0.5) * e + q; // two corners d apart, the third a unit away
      return std::make_shared<acme::triangle>(pt(p[k]), pt(p[(k + 1) % 3]), pt(p[(k + 2) % 3]));
    }
    case 5: return c.flag() ? std::make_shared<acme::disk>(double(d), pt(o), ev(e)) : std::make_shared<acme::disk>(1.0, pt(o), ev(d * e));
    case 6: return std::make_shared<acme::ball>(double(d), pt(o));
    default: return std::make_shared<acme::point>(pt(o));
  }
}
PBT(K09, degenerated, 1000000, 50000000, "at least one entity is clearly smaller and one clearly larger than the tolerance") {
  static char const *nm[] = {"line", "ray", "plane", "segment", "triangle", "disk", "ball", "point"};
  bool omitted = c.flag(1, 3);
  double T = omitted ? EPS0 : c.logreal(1e-6, 1e-2);
  int n = int(c.range(1, 6));
  acme::collection C;
  std::vector<bool> deg;
  std::vector<acme::entity::ptr> es;
  int cnt = 0;
  for (int i = 0; i < n; ++i) {
    Frame f = frame(c, 1);
    int kind = int(c.u(8));
    bool s = c.flag();
    L d = s ? (c.flag(1, 6) ? 0.0L : L(T) * L(c.logreal(1e-2, 0.3))) : std::max(3 * L(T), std::min<L>(0.5L, L(T) * L(c.logreal(3, 1e3))));
    if (T < 1e-7 && s && d != 0) d = std::max<L>(d, 1e-10L);
    es.push_back(small(c, kind, f, d));
    bool is = s && kind < 7;
    if (c.verbose) c.log << nm[kind] << " of size " << d << " at " << f.o << (is ? " (degenerated)" : "") << "\n";
    bool g = omitted ? es.back()->isDegenerated() : es.back()->isDegenerated(T);
    CHECK(g == is, "a " << nm[kind] << " of size " << d << " is " << (is ? "" : "not ") << "degenerated for the tolerance " << T << ", answered " << g);
    deg.push_back(is);
    cnt += is;
    C.push_back(es.back());
  }
  for (int i = 0; i < n; ++i) {
    bool g = omitted ? C.isDegenerated(i) : C.isDegenerated(i, T);
    CHECK(g == deg[i], "entity " << i << " of the collection is " << (deg[i] ? "" : "not ") << "degenerated for the tolerance " << T);
  }
  int k = omitted ? C.countDegenerated() : C.countDegenerated(T);
  CHECK(k == cnt, "the collection counts " << k << " degenerated entities for the tolerance " << T << ", it holds " << cnt);
  auto m = omitted ? C.count() : C.count(T);
  CHECK(m["degenerated"] == cnt, "the collection's counts report " << m["degenerated"] << " degenerated entities for the tolerance " << T << ", it holds " << cnt);
  CHECK((omitted ? C.containDegenerated() : C.containDegenerated(T)) == (cnt > 0), "whether the collection of " << cnt << " degenerated entities contains one");
  CHECK((omitted ? C.areDegenerated() : C.areDegenerated(T)) == (cnt == n), "whether the collection of " << n << " entities, " << cnt << " degenerated, is degenerated");
  if (omitted) C.removeDegenerated(); else C.removeDegenerated(T);
  CHECK(int(C.size()) == n - cnt, "after removing the degenerated entities " << C.size() << " are left of " << n << ", expected " << n - cnt);
  for (int i = 0, j = 0; i < n; ++i) if (!deg[i]) { CHECK(C[j] == es[i], "removing degenerated entities changed or reordered the others"); ++j; }
  if (cnt && cnt < n) c.hit();
}

// ---------------------------------------------------------------------------
PBT(K09, crossings, 3000000, 150000000, "the crossing is missed, or the pair is parallel, by an amount clearly within or beyond the tolerance") {
  Frame f = frame(c, 1);
  Tol t = tolerance(c, 6);
  int ck = int(c.u(3)), sk = int(c.u(3)); // line, ray, segment against plane, triangle, disk
  static char const *cn[] = {"line", "ray", "segment"}, *sn[] = {"plane", "triangle", "disk"};
  int how = int(c.u(3)); // 0: the curve ends short, 1: the crossing is over the surface's border, 2: almost parallel
  if (how == 0 && ck == 0) how = 2;
  if (how == 1 && sk != 1) how = 2;
  L th = how == 2 ? std::asin(t.dev) : L(c.real(0.8, 1.57)), az = c.sreal(3.14159265);
  if (how == 2 && t.side && t.dev < 1e-3L * t.T) th = 0;
  V e = std::sin(th) * f.z + std::cos(th) * (std::cos(az) * f.x + std::sin(az) * f.y);
  Tri3 k = tri(c, f, 1);
  V X = f.o; // the crossing
  V h = L(1) / 3 * (k.v[0] + k.v[1] + k.v[2]);
  double R = c.real(0.7, 1.5);
  if (sk == 1) X = h;
  if (how == 1) {
    int i = int(c.u(3));
    V A = k.v[i], B = k.v[(i + 1) % 3], C = k.v[(i + 2) % 3], in = unit(cross(normal(k), B - A));
    X = A + L(c.real(0.2, 0.8)) * (B - A) - t.dev * dot(in, C - A) * in;
  }
  // the part of the curve before the crossing
  L back = how == 0 ? -t.dev : L(c.real(0.3, 0.7));
  if (how == 0 && c.flag() && ck == 2) back = 1 + t.dev; // the far end is short
  V O = rnd(X - back * e), Q = rnd(X + (1 - back) * e), E = ck == 2 ? Q - O : rnd(e);
  acme::line l(pt(O), ev(E)); acme::ray r(pt(O), ev(E)); acme::segment s(pt(O), pt(Q));
  V N = rnd(f.z);
  acme::plane P(pt(rnd(f.o)), ev(c.flag() ? N : -N)); acme::triangle T = lib(k); acme::disk D(R, pt(rnd(f.o)), ev(N));
  if (c.verbose) c.log << cn[ck] << " " << O << " along " << E << " and " << sn[sk] << " way " << how << (sk == 1 ? " " : "") << k.v[0] << k.v[1] << k.v[2] << " normal " << N << " radius " << R << "\n";
  int want = how == 2 ? !t.side : t.side;
  // a ray that starts beyond a plane or disk is held to the ray's strict start
  if (how == 0 && ck == 1 && sk != 1 && t.side) return;
  // almost parallel: the triangle's measure is scaled by its edges
  if (how == 2 && sk == 1) {
    L det = std::fabs(dot(E, cross(k.v[1] - k.v[0], k.v[2] - k.v[0])));
    if (det > 0.3L * t.T && det < 3 * t.T) return;
    want = det > t.T;
  }
  if (how == 2 && want && t.dev < 0.02L && sk == 2) { if (t.dev < 1e-6L) return; }
  if (how == 2 && want && t.T < 1e-6) { // the crossing itself is ill-conditioned when the angle is tiny
    L err = 1e-15L / t.dev;
    if (err > 0.02L) return;
  }
  acme::point out;
  auto run = [&](auto const &x, auto const &y) -> int { return t.omitted ? acme::Intersection(x, y, out) : acme::Intersection(x, y, out, t.T); };
  int g = -1;
  switch (ck * 3 + sk) {
    case 0: g = run(l, P); break;
    case 1: g = run(l, T); break;
    case 2: g = run(l, D); break;
    case 3: g = run(r, P); break;
    case 4: g = run(r, T); break;
    case 5: g = run(r, D); break;
    case 6: g = run(P, s); break;
    case 7: g = run(s, T); break;
    default: g = run(s, D); break;
  }
  static char const *hn[] = {"ends short of the crossing", "passes the border", "runs almost parallel"};
  CHECK(g == want, "the " << cn[ck] << " " << hn[how] << " of the " << sn[sk] << " by " << t.dev << ", " << says(t.side) << " the tolerance " << t.T << ": answered " << g);
  c.label(std::string(cn[ck]) + "-" + sn[sk]);
  c.label(hn[how]);
  c.hit();
}

// curves that almost meet in their plane, end to end
PBT(K09, meetings, 2000000, 100000000, "the crossing of two curves is missed by an amount clearly within or beyond the tolerance") {
  Frame f = frame(c, 1);
  Tol t = tolerance(c, 6);
  int ka = int(c.u(3)), kb = int(c.range(1, 2));
  static char const *cn[] = {"line", "ray", "segment"};
  if (ka > kb) std::swap(ka, kb);
  if (kb == 0) kb = 1;
  int how = int(c.u(2)); // 0: the second ends short, 1: almost parallel
  L th = how ? std::asin(t.dev) : L(c.real(0.6, 2.5));
  V ea = f.x, eb = std::cos(th) * f.x + std::sin(th) * f.y, X = f.o;
  L ba = L(c.real(0.3, 0.7)), bb = how ? L(c.real(0.3, 0.7)) : -t.dev;
  bool far = !how && kb == 2 && c.flag();
  if (far) bb = 1 + t.dev;
  V OA = rnd(X - ba * ea), QA = rnd(X + (1 - ba) * ea), OB = rnd(X - bb * eb), QB = rnd(X + (1 - bb) * eb);
  if (c.verbose) c.log << cn[ka] << " " << OA << " " << QA << " / " << cn[kb] << " " << OB << " " << QB << "\n";
  int want = how ? !t.side : t.side;
  if (how && want && 1e-15L / t.dev > 0.02L) return;
  acme::line la(pt(OA), ev(QA - OA)), lb(pt(OB), ev(QB - OB)); acme::ray ra(pt(OA), ev(QA - OA)), rb(pt(OB), ev(QB - OB)); acme::segment sa(pt(OA), pt(QA)), sb(pt(OB), pt(QB));
  acme::point out;
  auto run = [&](auto const &x, auto const &y) -> int { return t.omitted ? acme::Intersection(x, y, out) : acme::Intersection(x, y, out, t.T); };
  int g = -1;
  switch (ka * 3 + kb) {
    case 1: g = run(la, rb); break;
    case 2: g = run(la, sb); break;
    case 4: g = run(ra, rb); break;
    case 5: g = run(ra, sb); break;
    default: g = run(sa, sb); break;
  }
  CHECK(g == want, "the " << cn[kb] << (how ? " runs almost parallel to the " : " ends short of the ") << cn[ka] << " by " << t.dev << ", " << says(t.side) << " the tolerance " << t.T << ": answered " << g);
  c.label(std::string(cn[ka]) + "-" + cn[kb]);
  c.hit();
}

// what two almost coinciding carriers have in common
PBT(K09, coincidences, 2000000, 100000000, "two carriers coincide but for an angle or distance clearly within or beyond the tolerance") {
  Frame f = frame(c, 1), g = f;
  Tol t = tolerance(c, 6);
  int what = int(c.u(9));
  static char const *nm[] = {"line-line", "line-ray", "line-segment", "ray-segment", "plane-plane", "plane-line", "plane-ray", "plane-segment", "plane-triangle"};
  bool byangle = c.flag();
  L a = byangle ? std::asin(t.dev) : 0, d = byangle ? 0 : t.dev;
  g.z = std::cos(a) * f.z + std::sin(a) * f.x; g.x = std::cos(a) * f.x - std::sin(a) * f.z;
  bool got;
  bool thin = what < 4;
  if (thin) {
    V o = rnd(f.o), u = rnd(f.z), p = rnd(f.o + d * f.y), q = rnd(p + g.z);
    acme::line l(pt(o), ev(u)), m(pt(p), ev(g.z)), lo; acme::ray r(pt(rnd(p - L(0.5) * f.z)), ev(g.z)), ro; acme::segment s(pt(p), pt(q)), so;
    if (c.verbose) c.log << nm[what] << " " << o << u << " / " << p << q << "\n";
    if (what == 3) r = acme::ray(pt(rnd(o - L(0.3) * f.z)), ev(u));
    // by angle the two must still share the point the test starts from
    if (byangle && what == 1) r = acme::ray(pt(o), ev(g.z));
    switch (what) {
      case 0: got = t.omitted ? acme::Intersection(l, m, lo) : acme::Intersection(l, m, lo, t.T); break;
      case 1: got = t.omitted ? acme::Intersection(l, r, ro) : acme::Intersection(l, r, ro, t.T); break;
      case 2: got = t.omitted ? acme::Intersection(l, s, so) : acme::Intersection(l, s, so, t.T); break;
      default: got = t.omitted ? acme::Intersection(r, s, so) : acme::Intersection(r, s, so, t.T); break;
    }
  } else {
    V o = rnd(f.o), n = rnd(f.z), p = rnd(f.o + d * f.z), N = rnd(g.z), E = rnd(c.flag() ? g.x : -g.x);
    acme::plane P(pt(o), ev(n)), Q(pt(p), ev(N)), po; acme::line l(pt(p), ev(E)), lo; acme::ray r(pt(p), ev(E)), ro; acme::segment s(pt(p), pt(p + E)), so;
    Frame h = g; h.o = p;
    Tri3 k = tri(c, h, 1);
    acme::triangle T = lib(k), to;
    if (c.verbose) c.log << nm[what] << " " << o << n << " / " << p << N << E << k.v[0] << k.v[1] << k.v[2] << "\n";
    switch (what) {
      case 4: got = t.omitted ? acme::Intersection(P, Q, po) : acme::Intersection(P, Q, po, t.T); break;
      case 5: got = t.omitted ? acme::Intersection(l, P, lo) : acme::Intersection(l, P, lo, t.T); break;
      case 6: got = t.omitted ? acme::Intersection(r, P, ro) : acme::Intersection(r, P, ro, t.T); break;
      case 7: got = t.omitted ? acme::Intersection(P, s, so) : acme::Intersection(P, s, so, t.T); break;
      default: got = t.omitted ? acme::Intersection(P, T, to) : acme::Intersection(P, T, to, t.T); break;
    }
  }
  CHECK(got == t.side, nm[what] << ": the carriers differ by " << t.dev << (byangle ? " in angle, " : " in position, ") << says(t.side) << " the tolerance " << t.T << ": a common part is " << (got ? "" : "not ") << "found");
  c.label(nm[what]);
  c.hit();
}

// lines that pass a disk in its plane, and triangles a little above each other
PBT(K09, passings, 1000000, 50000000, "the entities miss each other by a distance clearly within or beyond the tolerance") {
  Frame f = frame(c, 1);
  Tol t = tolerance(c, 6);
  int what = int(c.u(4));
  static char const *nm[] = {"line and disk", "ray and disk", "segment and disk", "two triangles"};
  bool got;
  V N = rnd(f.z), o = rnd(f.o);
  if (what < 3) {
    double R = c.real(0.7, 1.5);
    acme::disk D(R, pt(o), ev(c.flag() ? N : -N));
    L a = L(c.real(0.3, 0.7));
    V p = rnd(f.at(-a, R + t.dev)), q = rnd(f.at(1 - a, R + t.dev));
    if (c.flag()) std::swap(p, q);
    if (c.verbose) c.log << nm[what] << " " << p << q << " radius " << R << " centre " << o << " normal " << N << "\n";
    acme::segment out;
    auto run = [&](auto const &x) { return t.omitted ? acme::Intersection(x, D, out) : acme::Intersection(x, D, out, t.T); };
    got = what == 0 ? run(acme::line(pt(p), ev(q - p))) : what == 1 ? run(acme::ray(pt(p), ev(q - p))) : run(acme::segment(pt(p), pt(q)));
    if (got && t.side && t.dev == 0) CHECK(near(V::of(out.vertex(0)), f.at(0, R), 1e-3L), "the touching point is " << V::of(out.vertex(0)) << ", expected " << f.at(0, R));
  } else {
    Frame g = f;
    g.o = f.o + (c.flag() ? t.dev : -t.dev) * f.z;
    Tri3 a = tri(c, f, 1), b = tri(c, g, 0.35);
    acme::triangle A = lib(a), B = lib(b);
    if (c.verbose) c.log << nm[what] << " " << a.v[0] << a.v[1] << a.v[2] << " / " << b.v[0] << b.v[1] << b.v[2] << "\n";
    acme::none no;
    bool in = false; // a corner of the small one is clearly over the large one
    for (auto const &v : b.v) in |= inside(a, v) > 0.05L;
    if (!in) return;
    got = c.flag() ? (t.omitted ? acme::Intersection(A, B, no) : acme::Intersection(A, B, no, t.T)) : (t.omitted ? acme::Intersection(B, A, no) : acme::Intersection(B, A, no, t.T));
  }
  CHECK(got == t.side, nm[what] << " miss each other by " << t.dev << ", " << says(t.side) << " the tolerance " << t.T << ": an intersection is " << (got ? "" : "not ") << "found");
  c.label(nm[what]);
  c.hit();
}
