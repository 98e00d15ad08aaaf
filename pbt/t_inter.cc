// K01 K02 K08: typed intersections of the geometry kernel
#include "kgen.hh"
using namespace mdl;
using namespace kg;
static L norm2(V v) { return dot(v, v); }
using pbt::Case;
static L const BAND = 1e-6L; // relative border band in which either answer is accepted

// ---------------------------------------------------------------------------
PBT(K01, crossing, 3000000, 150000000, "the crossing point lies clearly inside or clearly outside both objects") {
  Frame f = frame(c);
  double s = size(c);
  int surf = int(c.u(3)), curve = int(c.u(3));
  bool parallel = c.flag(1, 10);
  // the flat object
  V n, o;
  Tri3 T;
  double r = s * c.real(0.3, 1);
  double k = factor(c);
  o = rnd(f.o);
  n = rnd(L(k) * f.z);
  acme::plane P(pt(o), ev(n));
  acme::disk D(r, pt(o), ev(n));
  if (surf == 1) { T = tri(c, f, s); o = T.v[0]; n = normal(T); }
  V un = unit(n);
  // the curve: through a point at (u, v) of the plane
  L a = c.sreal(3.14159265), cosd = parallel ? 0 : L(c.real(0.1, 1)), sind = std::sqrt(1 - cosd * cosd);
  V d = sind * (std::cos(a) * f.x + std::sin(a) * f.y) + cosd * (c.flag() ? f.z : V(-f.z.x, -f.z.y, -f.z.z));
  L rad = s * L(c.flag(1, 4) ? c.real(0, 8) : c.real(0, 1.1)), ang = c.sreal(3.14159265);
  V X0 = f.at(rad * std::cos(ang), rad * std::sin(ang), parallel ? L(c.sreal(1)) * s : 0);
  double len = s * c.logreal(0.1, 10) * (curve == 2 ? 1 : 1);
  V A, B; // origin and direction (segment: direction is the whole vector)
  if (curve == 2) {
    L t = c.real(-0.6, 1.6);
    A = rnd(X0 - (t * len) * d);
    B = rnd(X0 + ((1 - t) * len) * d) - A;
  } else {
    double kd = std::fabs(factor(c));
    A = rnd(X0 - (L(c.sreal(3)) * len) * d);
    B = rnd(L(kd) * d);
  }
  V Bd = B;
  acme::line l(pt(A), ev(Bd));
  acme::ray  ry(pt(A), ev(Bd));
  acme::segment sg(pt(A), pt(A + B));
  char const *sn[3] = {"plane", "triangle", "disk"}, *cn[3] = {"line", "ray", "segment"};
  if (c.verbose) {
    c.log << cn[curve] << " " << A << " dir " << B << "\n" << sn[surf] << " origin " << o << " normal " << n;
    if (surf == 1) c.log << " vertices " << T.v[0] << T.v[1] << T.v[2];
    if (surf == 2) c.log << " radius " << r;
    c.log << "\n";
  }
  acme::point out(7, 7, 7);
  bool got = false;
  switch (curve * 3 + surf) {
    case 0: got = acme::Intersection(l, P, out); break;
    case 1: got = acme::Intersection(l, lib(T), out); break;
    case 2: got = acme::Intersection(l, D, out); break;
    case 3: got = acme::Intersection(ry, P, out); break;
    case 4: got = acme::Intersection(ry, lib(T), out); break;
    case 5: got = acme::Intersection(ry, D, out); break;
    case 6: got = acme::Intersection(P, sg, out); break;
    case 7: got = acme::Intersection(sg, lib(T), out); break;
    default: got = acme::Intersection(sg, D, out); break;
  }
  c.label(std::string(cn[curve]) + "-" + sn[surf]);
  if (parallel) {
    c.label("parallel");
    CHECK(!got, "a parallel " << cn[curve] << " meets the " << sn[surf] << " in " << V::of(out));
    c.hit();
    return;
  }
  L den = dot(B, un), t = dot(o - A, un) / den;
  V X = A + t * B;
  L m = 1e30L, nb = norm(B); // margins in units of length
  if (surf == 1) m = std::min(m, inside(T, X));
  if (surf == 2) m = std::min<L>(m, L(r) - norm(X - o));
  if (curve >= 1) m = std::min(m, t * nb);
  if (curve == 2) m = std::min(m, (1 - t) * nb);
  L tol = 1e-9L * coord({A, X, o, A + B}) + 1e-9L * s;
  if (got) CHECK(near(V::of(out), X, tol), "the " << cn[curve] << " meets the " << sn[surf] << " at " << X << ", reported at " << V::of(out));
  if (std::fabs(m) < BAND * std::max<L>(1, std::max<L>(s, nb)) * 2) return;
  CHECK(got == (m > 0), "the " << cn[curve] << (m > 0 ? " meets" : " does not meet") << " the " << sn[surf] << " (crossing " << X << ", margin " << m << "), answered " << got);
  c.label(m > 0 ? "meet" : "miss");
  c.hit();
}

// ---------------------------------------------------------------------------
// two flat objects whose planes meet at a clear angle
struct Flat2 { int kind; V o, n; double r; Tri3 T; acme::plane P; acme::disk D; };
static Flat2 flat(Case &c, Frame const &f, double s, int kind) {
  Flat2 g;
  g.kind = kind;
  g.r = s * c.real(0.3, 1);
  g.o = rnd(f.o);
  g.n = rnd(L(factor(c)) * f.z);
  g.P = acme::plane(pt(g.o), ev(g.n));
  g.D = acme::disk(g.r, pt(g.o), ev(g.n));
  if (kind == 1) { g.T = tri(c, f, s); g.o = g.T.v[0]; g.n = normal(g.T); }
  return g;
}
static std::ostream &operator<<(std::ostream &os, Flat2 const &g) {
  if (g.kind == 0) return os << "plane " << g.o << " normal " << g.n;
  if (g.kind == 1) return os << "triangle " << g.T.v[0] << g.T.v[1] << g.T.v[2];
  return os << "disk " << g.o << " normal " << g.n << " radius " << g.r;
}
// the interval of the line q + t*e (e unit) lying in the object; lo > hi when there is none.
// margin = how far (length) from appearing or vanishing
static void interval(Flat2 const &g, V q, V e, L &lo, L &hi, L &margin) {
  lo = -1e30L; hi = 1e30L; margin = 1e30L;
  if (g.kind == 2) {
    V w = g.o - q;
    L tc = dot(w, e), d2 = norm2(w - tc * e), h2 = L(g.r) * g.r - d2;
    margin = (L(g.r) - std::sqrt(d2));
    if (h2 < 0) { lo = 1; hi = -1; return; }
    lo = tc - std::sqrt(h2); hi = tc + std::sqrt(h2);
  } else if (g.kind == 1) {
    V n = normal(g.T), side = cross(n, e);
    L h[3], mx = -1e30L, mn = 1e30L;
    for (int i = 0; i < 3; ++i) { h[i] = dot(g.T.v[i] - q, side); mx = std::max(mx, h[i]); mn = std::min(mn, h[i]); }
    margin = std::min(mx, -mn); // > 0: crosses
    if (margin < 0) { lo = 1; hi = -1; return; }
    lo = 1e30L; hi = -1e30L;
    for (int i = 0; i < 3; ++i) {
      int j = (i + 1) % 3;
      if ((h[i] >= 0) == (h[j] >= 0)) continue;
      V x = g.T.v[i] + (h[i] / (h[i] - h[j])) * (g.T.v[j] - g.T.v[i]);
      L t = dot(x - q, e);
      lo = std::min(lo, t); hi = std::max(hi, t);
    }
    if (lo > hi) { lo = 1; hi = -1; margin = 0; }
  }
}
PBT(K02, traces, 2500000, 120000000, "the two objects share a segment of clear length, or clearly share nothing") {
  Frame f = frame(c), g;
  double s = size(c), s2 = s * c.logreal(0.2, 5);
  g = frame(c, 0);
  L ca = dot(f.z, g.z);
  if (std::fabs(ca) > 0.98L) { // turn the second one away
    L t = c.real(0.25, 2.8);
    V z = std::cos(t) * f.z + std::sin(t) * f.x;
    g.z = z; g.x = across(z); g.y = cross(z, g.x);
  }
  L reach = c.flag(1, 4) ? 2.5L : 0.8L;
  g.o = f.at(s * reach * L(c.sreal(1)), s * reach * L(c.sreal(1)), s2 * L(c.sreal(0.8)));
  static int const pairs[5][2] = {{0, 1}, {0, 2}, {1, 2}, {1, 1}, {2, 2}};
  auto const &pr = pairs[c.u(5)];
  Flat2 a = flat(c, f, s, pr[0]), b = flat(c, g, s2, pr[1]);
  if (pr[0] == 0 && pr[1] == 1 && c.flag(1, 4)) { // the plane passes exactly through a vertex of the triangle
    a.o = b.T.v[c.u(3)];
    a.P = acme::plane(pt(a.o), ev(a.n));
    c.label("through a vertex");
  }
  if (c.verbose) c.log << a << "\n" << b << "\n";
  acme::segment out(pt(V(7, 7, 7)), pt(V(7, 7, 7)));
  bool got;
  char const *nm;
  switch (pr[0] * 3 + pr[1]) {
    case 1: got = acme::Intersection(a.P, lib(b.T), out); nm = "plane-triangle"; break;
    case 2: got = acme::Intersection(a.P, b.D, out); nm = "plane-disk"; break;
    case 5: got = acme::Intersection(lib(a.T), b.D, out); nm = "triangle-disk"; break;
    case 4: got = acme::Intersection(lib(a.T), lib(b.T), out); nm = "triangle-triangle"; break;
    default: got = acme::Intersection(a.D, b.D, out); nm = "disk-disk"; break;
  }
  c.label(nm);
  V na = unit(a.n), nb = unit(b.n), e = cross(na, nb);
  L se = norm(e);
  if (se < 0.15L) return;
  e = (1 / se) * e;
  // the point of the common line nearest to b's origin
  V w = cross(nb, e); // in b's plane, across the line
  V q = b.o + (dot(a.o - b.o, na) / dot(w, na)) * w;
  L lo1, hi1, m1, lo2, hi2, m2;
  interval(a, q, e, lo1, hi1, m1);
  interval(b, q, e, lo2, hi2, m2);
  L lo = std::max(lo1, lo2), hi = std::min(hi1, hi2), len = hi - lo;
  L band = 1e-5L * std::max<L>(1, std::max(s, s2));
  L tol = (1e-8L * coord({a.o, b.o, q}) + 1e-8L * (s + s2)) / se;
  bool some = m1 > band && m2 > band && len > band, none = m1 < -band || m2 < -band || (m1 > band && m2 > band && len < -band);
  if (pr[0] == 0 && pr[1] == 1 && !some && !none) { // a vertex in the plane: the section is still whole when the others lie on both sides
    L h[3]; int on = -1, cnt = 0;
    for (int i = 0; i < 3; ++i) { h[i] = dot(b.T.v[i] - a.o, na); if (std::fabs(h[i]) < 1e-12L * coord({a.o})) { on = i; ++cnt; } }
    if (cnt == 1) {
      L h1 = h[(on + 1) % 3], h2 = h[(on + 2) % 3];
      if (std::min(std::fabs(h1), std::fabs(h2)) > band * 10 && h1 * h2 < 0) some = true;
    }
  }
  if (!some && !none) return;
  CHECK(got == some, nm << (some ? " share " : " share nothing ") << (some ? "a segment of length " : "") << (some ? len : 0) << ", answered " << got);
  if (pr[0] == 1 && pr[1] == 1) { // the question without an output
    acme::none nothing;
    bool ask = acme::Intersection(lib(a.T), lib(b.T), nothing);
    CHECK(ask == some, "two triangles " << (some ? "share a segment" : "share nothing") << ", the question whether they meet answered " << ask);
  }
  if (some) {
    V A = q + lo * e, B = q + hi * e;
    // grazing chords are known less precisely
    L slack = pr[1] == 2 ? tol * (1 + 20 * (s + s2) / std::max<L>(1e-3L, len)) : tol;
    // so are ends next to a triangle's corner
    for (Flat2 const *t : {&a, &b}) if (t->kind == 1) for (V const &v : t->T.v) if (std::fabs(dot(v - q, cross(normal(t->T), e))) < 1e-6L * (s + s2)) slack = std::max(slack, 1e-5L * (s + s2));
    CHECK(ends(out, A, B, slack), nm << " share " << A << " - " << B << ", reported " << str(out));
    c.label("meet");
  } else c.label("miss");
  c.hit();
}
// the same pair, one object moved within its own plane off the common line: the earlier answer must not linger
PBT(K02, sequence, 1500000, 80000000, "a meeting pair was followed by a pair that clearly shares nothing") {
  Frame f = frame(c), g = f;
  double s = size(c);
  L t = c.real(0.3, 2.8);
  g.z = std::cos(t) * f.z + std::sin(t) * f.y; // the planes meet along x
  g.x = f.x;
  g.y = cross(g.z, g.x);
  int kind = c.flag() ? 1 : 2;
  Flat2 a = flat(c, f, s, kind), b = flat(c, g, s, kind);
  V shift = (c.flag() ? L(1) : L(-1)) * s * L(c.real(2.2, 6)) * f.y;
  Flat2 far = a;
  far.o = rnd(a.o + shift);
  for (auto &v : far.T.v) v = rnd(v + shift);
  far.D = acme::disk(a.r, pt(far.o), ev(a.n));
  if (c.verbose) c.log << a << "\n" << b << "\nmoved " << far << "\n";
  auto query = [&](Flat2 const &p, Flat2 const &q, acme::segment &o) { return kind == 1 ? acme::Intersection(lib(p.T), lib(q.T), o) : acme::Intersection(p.D, q.D, o); };
  acme::segment o1(pt(V(7, 7, 7)), pt(V(7, 7, 7))), o2 = o1;
  bool first = query(a, b, o1), sw = c.flag();
  bool second = sw ? query(b, far, o2) : query(far, b, o2);
  CHECK(first, "two " << (kind == 1 ? "triangles" : "disks") << " whose centres coincide share no segment");
  CHECK(!second, "two " << (kind == 1 ? "triangles" : "disks") << " apart share " << str(o2));
  c.label(kind == 1 ? "triangles" : "disks");
  c.hit();
}
PBT(K02, planes, 1000000, 50000000, "the planes are clearly independent, or clearly parallel") {
  Frame f = frame(c), g = frame(c), h = frame(c);
  bool par = c.flag(1, 8);
  if (par) { g.z = f.z; }
  V n[3] = {rnd(L(factor(c)) * f.z), rnd(L(factor(c)) * g.z), rnd(L(factor(c)) * h.z)};
  V o[3] = {rnd(f.o), rnd(g.o), rnd(h.o)};
  acme::plane P[3];
  for (int i = 0; i < 3; ++i) P[i] = acme::plane(pt(o[i]), ev(n[i]));
  if (c.verbose) for (int i = 0; i < 3; ++i) c.log << "plane " << o[i] << " normal " << n[i] << "\n";
  L cs = coord({o[0], o[1], o[2]});
  if (c.flag()) {
    acme::line l(pt(V(7, 7, 7)), ev(V(7, 7, 7)));
    bool got = acme::Intersection(P[0], P[1], l);
    L sn = norm(cross(unit(n[0]), unit(n[1])));
    if (par) { CHECK(!got, "parallel planes meet in a line"); c.label("parallel"); c.hit(); return; }
    if (sn < 0.02L) return;
    CHECK(got, "planes at an angle of " << std::asin(std::min<L>(1, sn)) << " do not meet");
    V a = V::of(l.origin()), d = V::of(l.direction());
    CHECK(norm(d) > 1e-6L, "the common line has no direction");
    d = unit(d);
    for (int i = 0; i < 2; ++i) {
      L off = dot(a - o[i], unit(n[i])), tilt = dot(d, unit(n[i]));
      CHECK(std::fabs(off) < 1e-11L * cs / (sn * sn) + 1e-10L, "the common line's origin lies " << off << " off plane " << i);
      CHECK(std::fabs(tilt) < 1e-12L / sn, "the common line leaves plane " << i << " at a slope of " << tilt);
    }
    c.label("two");
    c.hit();
  } else {
    V u[3] = {unit(n[0]), unit(n[1]), unit(n[2])};
    L det = dot(u[0], cross(u[1], u[2]));
    acme::point out(7, 7, 7);
    bool got = acme::Intersection(P[0], P[1], P[2], out);
    if (par) { CHECK(!got, "two parallel planes and a third share the point " << V::of(out)); c.label("parallel"); c.hit(); return; }
    if (std::fabs(det) < 0.05L) return;
    V X = (1 / det) * (dot(u[0], o[0]) * cross(u[1], u[2]) + dot(u[1], o[1]) * cross(u[2], u[0]) + dot(u[2], o[2]) * cross(u[0], u[1]));
    CHECK(got, "three independent planes share no point");
    CHECK(near(V::of(out), X, 1e-11L * cs / std::fabs(det) / std::fabs(det) + 1e-10L), "the common point is " << X << ", reported " << V::of(out));
    c.label("three");
    c.hit();
  }
}
PBT(K02, balls, 2500000, 120000000, "the object cuts or misses the ball clearly") {
  Frame f = frame(c);
  double s = size(c), r = s * c.real(0.2, 1);
  V ctr = rnd(f.o);
  acme::ball Bl(r, pt(ctr));
  int kind = int(c.u(4));
  L cs = coord({ctr}) + s;
  if (kind == 3) {
    L h = r * L(c.sreal(1.4));
    V n = rnd(L(factor(c)) * f.z), o = rnd(f.at(L(c.sreal(3)) * s, L(c.sreal(3)) * s, h));
    acme::plane P(pt(o), ev(n));
    if (c.verbose) c.log << "ball " << ctr << " radius " << r << ", plane " << o << " normal " << n << "\n";
    acme::disk out(7, pt(V(7, 7, 7)), ev(V(7, 7, 7)));
    bool got = acme::Intersection(P, Bl, out);
    V un = unit(n);
    L d = dot(ctr - o, un), h2 = L(r) * r - d * d;
    c.label("plane");
    if (std::fabs(L(r) - std::fabs(d)) < 1e-9L * cs) return;
    CHECK(got == (h2 > 0), "the plane is " << std::fabs(d) << " from the centre of a ball of radius " << r << ", answered " << got);
    if (got) {
      CHECK(std::fabs(out.radius() - std::sqrt(h2)) < 1e-9L * cs * (1 + s / std::sqrt(h2)), "section radius " << out.radius() << ", expected " << std::sqrt(h2));
      CHECK(near(V::of(out.center()), ctr - d * un, 1e-9L * cs), "section centre " << V::of(out.center()) << ", expected " << ctr - d * un);
      CHECK(norm(cross(unit(V::of(out.normal())), un)) < 1e-9L && norm(V::of(out.normal())) > 1e-9L, "section normal " << V::of(out.normal()) << ", the plane's is " << un);
      c.label("meet");
    }
    c.hit();
    return;
  }
  L h = r * L(c.real(0, 1.4)), len = s * L(c.logreal(0.05, 10));
  L a = kind == 2 ? L(c.sreal(2)) * s : L(c.sreal(3)) * s;
  V A = rnd(f.at(h, 0, a)), B;
  if (kind == 2) B = rnd(f.at(h, 0, a + len)) - A;
  else B = rnd(L(factor(c)) * f.z);
  char const *nm[3] = {"line", "ray", "segment"};
  if (c.verbose) c.log << "ball " << ctr << " radius " << r << ", " << nm[kind] << " " << A << " dir " << B << "\n";
  acme::segment out(pt(V(7, 7, 7)), pt(V(7, 7, 7)));
  bool got = kind == 0   ? acme::Intersection(acme::line(pt(A), ev(B)), Bl, out)
             : kind == 1 ? acme::Intersection(acme::ray(pt(A), ev(B)), Bl, out)
                         : acme::Intersection(acme::segment(pt(A), pt(A + B)), Bl, out);
  c.label(nm[kind]);
  V e = unit(B), w = ctr - A;
  L tc = dot(w, e), d2 = norm2(w - tc * e), h2 = L(r) * r - d2;
  if (std::fabs(h2) < 1e-6L * std::max<L>(1, s * s)) return;
  L lo = 1, hi = -1;
  if (h2 > 0) {
    lo = tc - std::sqrt(h2); hi = tc + std::sqrt(h2);
    if (kind >= 1) lo = std::max<L>(lo, 0);
    if (kind == 2) hi = std::min(hi, norm(B));
    if (std::fabs(hi - lo) < 1e-6L * cs) return; // touches at one end
  }
  bool want = hi > lo;
  CHECK(got == want, "the " << nm[kind] << (want ? " cuts" : " does not cut") << " the ball (part of length " << hi - lo << "), answered " << got);
  if (want) { CHECK(ends(out, A + lo * e, A + hi * e, 1e-8L * cs * (1 + s / std::sqrt(h2))), "the part of the " << nm[kind] << " in the ball is " << A + lo * e << " - " << A + hi * e << ", reported " << str(out)); c.label("meet"); }
  c.hit();
}
// a curve that just touches a ball or a disk of its own plane: either answer is right, but only for what is there
PBT(K02, grazing, 1500000, 80000000, "the point of contact lies clearly on the curve, or clearly off it") {
  Frame f = frame(c);
  if (c.flag()) { f.o = V(double(c.range(-4, 4)), double(c.range(-4, 4)), double(c.range(-4, 4))); f.x = V(0, 1, 0); f.y = V(0, 0, 1); f.z = V(1, 0, 0); } // exact
  double s = c.flag() ? 1.0 : size(c), r = s * (c.flag() ? 1.0 : c.real(0.2, 1));
  bool disk = c.flag();
  int kind = int(c.u(3));
  L off = c.flag() ? 0 : L(c.sreal(1)) * 1e-9L * r;
  V ctr = rnd(f.o), T = f.at(r + off, 0, 0);
  Curve k;
  k.kind = kind;
  L a = s * L(c.flag() ? double(c.range(-3, 3)) : c.real(-3, 3)), len = s * L(c.real(0.2, 4));
  k.A = rnd(T + a * f.z);
  L dirn = c.flag() ? 1 : -1;
  if (kind == 2) k.B = rnd(T + (a + dirn * len) * f.z) - k.A; else k.B = rnd(L(factor(c)) * f.z);
  acme::disk D(r, pt(ctr), ev(rnd(L(factor(c)) * f.y)));
  acme::ball B(r, pt(ctr));
  if (c.verbose) c.log << (disk ? "disk " : "ball ") << ctr << " radius " << r << ", " << k << "\n";
  acme::segment o(pt(V(7, 7, 7)), pt(V(7, 7, 7)));
  bool got = false;
  switch (kind * 2 + disk) {
    case 0: got = acme::Intersection(k.l(), B, o); break;
    case 1: got = acme::Intersection(k.l(), D, o); break;
    case 2: got = acme::Intersection(k.r(), B, o); break;
    case 3: got = acme::Intersection(k.r(), D, o); break;
    case 4: got = acme::Intersection(k.s(), B, o); break;
    default: got = acme::Intersection(k.s(), D, o); break;
  }
  V e = unit(k.B);
  L t = dot(T - k.A, e), m = kind == 0 ? L(1e30) : kind == 1 ? t : std::min(t, norm(k.B) - t), band = 1e-3L * (1 + s);
  c.label(std::string(curve_name(kind)) + (disk ? "-disk" : "-ball"));
  if (std::fabs(m) < band) return;
  if (m < 0) CHECK(!got, "the " << curve_name(kind) << " ends " << -m << " before touching the " << (disk ? "disk" : "ball") << ", shared segment reported " << str(o));
  if (got) CHECK(ends(o, T, T, band), "the " << curve_name(kind) << " touches the " << (disk ? "disk" : "ball") << " at " << T << ", reported " << str(o));
  c.label(got ? "touch reported" : m < 0 ? "ends before" : "touch not reported");
  c.hit();
}

// ---------------------------------------------------------------------------
PBT(K08, collinear, 2000000, 100000000, "the objects overlap clearly, lie clearly apart on the line, or lie on lines clearly apart") {
  Frame f = frame(c);
  double s = size(c);
  static int const pairs[6][2] = {{0, 0}, {0, 1}, {0, 2}, {1, 1}, {1, 2}, {2, 2}};
  auto const &pr = pairs[c.u(6)];
  bool aside = c.flag(1, 6);
  V q2 = f.o;
  if (aside) { q2 = f.at(s * L(c.real(0.05, 2)), 0); c.label("aside"); }
  Curve a = curve(c, pr[0], f.o, f.z, s), b = curve(c, pr[1], q2, f.z, s);
  if (!aside && pr[1] == 2 && pr[0] >= 1 && c.flag(1, 4)) { // the two share an end exactly
    V p = pr[0] == 2 && c.flag() ? rnd(a.A + a.B) : a.A;
    V o = rnd(p + (s * L(c.real(0.05, 2)) * (c.flag() ? 1 : -1)) * f.z);
    if (c.flag()) std::swap(p, o);
    b.A = p; b.B = o - p;
    L u = dot(p - f.o, f.z), w = dot(o - f.o, f.z);
    b.lo = std::min(u, w); b.hi = std::max(u, w);
    c.label("shared end");
  }
  if (c.verbose) c.log << a << "\n" << b << "\n";
  c.label(std::string(curve_name(pr[0])) + "-" + curve_name(pr[1]));
  L lo = std::max(a.lo, b.lo), hi = std::min(a.hi, b.hi);
  L tol = 1e-9L * coord({a.A, b.A}) + 1e-9L * s + 4e-8L;
  if (std::fabs(hi - lo) < 0.01L * s) return; // meets in little more than a point
  bool want = !aside && hi > lo, got = false;
  acme::segment so(pt(V(7, 7, 7)), pt(V(7, 7, 7)));
  acme::line    lo_(pt(V(7, 7, 7)), ev(V(7, 7, 7)));
  acme::ray     ro(pt(V(7, 7, 7)), ev(V(7, 7, 7)));
  int res = 0; // kind of the expected object
  if (lo > -1e29L && hi < 1e29L) res = 2; else if (lo > -1e29L || hi < 1e29L) res = 1;
  V D = unit(a.B);
  switch (pr[0] * 3 + pr[1]) {
    case 0: got = acme::Intersection(a.l(), b.l(), lo_); break;
    case 1: got = acme::Intersection(a.l(), b.r(), ro); break;
    case 2: got = acme::Intersection(a.l(), b.s(), so); break;
    case 4: {
      if (dot(a.B, b.B) > 0) { // same way: a ray; never a segment
        got = acme::Intersection(a.r(), b.r(), ro);
        res = 1;
        CHECK(!acme::Intersection(a.r(), b.r(), so), "two rays pointing the same way share a segment " << str(so));
        c.label("rays same way");
      } else {
        got = acme::Intersection(a.r(), b.r(), so);
        res = 2;
        CHECK(!acme::Intersection(a.r(), b.r(), ro), "two rays pointing opposite ways share a ray");
        c.label("rays opposite");
      }
      break;
    }
    case 5: got = acme::Intersection(a.r(), b.s(), so); break;
    default: got = acme::Intersection(a.s(), b.s(), so); break;
  }
  CHECK(got == want, "the " << curve_name(pr[0]) << " and the " << curve_name(pr[1]) << (want ? " overlap" : " do not overlap") << ", answered " << got);
  c.hit();
  if (!want) { c.label("apart"); return; }
  c.label("overlap");
  if (res == 0) {
    V p = V::of(lo_.origin()), d = V::of(lo_.direction());
    CHECK(norm(d) > 1e-9L && norm(cross(unit(d), f.z)) < 1e-10L, "the common line has direction " << d << ", not " << f.z);
    CHECK(norm(cross(p - f.o, f.z)) < tol, "the common line passes " << norm(cross(p - f.o, f.z)) << " off");
  } else if (res == 1) {
    V p = V::of(ro.origin()), d = V::of(ro.direction());
    V e = lo > -1e29L ? f.z : V(-f.z.x, -f.z.y, -f.z.z);
    V o = f.o + (lo > -1e29L ? lo : hi) * f.z;
    CHECK(norm(d) > 1e-9L && norm(unit(d) - e) < 1e-10L, "the common ray points to " << d << ", not to " << e);
    CHECK(near(p, o, tol), "the common ray starts at " << p << ", not at " << o);
  } else {
    CHECK(ends(so, f.o + lo * f.z, f.o + hi * f.z, tol), "the common segment is " << f.o + lo * f.z << " - " << f.o + hi * f.z << ", reported " << str(so));
  }
}
PBT(K08, crossing, 2500000, 120000000, "the crossing point lies clearly inside or clearly outside both objects, or they are parallel") {
  Frame f = frame(c);
  double s = size(c);
  bool par = c.flag(1, 10);
  L t = par ? 0 : L(c.real(0.1, 3.04));
  V d1 = f.x, d2 = std::cos(t) * f.x + std::sin(t) * f.y;
  V X = f.o, X2 = par ? f.at(0, s * L(c.real(0.05, 2))) : X;
  static int const pairs[6][2] = {{0, 0}, {0, 1}, {0, 2}, {1, 1}, {1, 2}, {2, 2}};
  auto const &pr = pairs[c.u(6)];
  Curve a = curve(c, pr[0], X, d1, s), b = curve(c, pr[1], X2, d2, s);
  if (c.verbose) c.log << a << "\n" << b << "\ncross at " << X << "\n";
  acme::point out(7, 7, 7);
  bool got = false;
  switch (pr[0] * 3 + pr[1]) {
    case 0: got = acme::Intersection(a.l(), b.l(), out); break;
    case 1: got = acme::Intersection(a.l(), b.r(), out); break;
    case 2: got = acme::Intersection(a.l(), b.s(), out); break;
    case 4: got = acme::Intersection(a.r(), b.r(), out); break;
    case 5: got = acme::Intersection(a.r(), b.s(), out); break;
    default: got = acme::Intersection(a.s(), b.s(), out); break;
  }
  c.label(std::string(curve_name(pr[0])) + "-" + curve_name(pr[1]));
  if (par) { CHECK(!got, "parallel objects meet in " << V::of(out)); c.label("parallel"); c.hit(); return; }
  L m = std::min(std::min(-a.lo, a.hi), std::min(-b.lo, b.hi)), band = 1e-5L * std::max<L>(1, s);
  if (std::fabs(m) < band) return;
  CHECK(got == (m > 0), "the lines cross at " << X << (m > 0 ? ", on both objects" : ", outside one of the objects") << ", answered " << got);
  if (got) {
    L tol = 1e-11L * coord({X, a.A, b.A, a.A + a.B, b.A + b.B}) / std::pow(std::sin(t), 2) * (1 + 10 * s / std::min<L>(norm(a.B), s)) * (1 + 10 * s / std::min<L>(norm(b.B), s));
    CHECK(near(V::of(out), X, tol + 1e-10L), "the lines cross at " << X << ", reported " << V::of(out));
  }
  c.label(m > 0 ? "meet" : "miss");
  c.hit();
}
PBT(K08, inplane, 2000000, 100000000, "the objects lie in one plane and share clearly a segment, or clearly nothing; or their planes are clearly apart") {
  Frame f = frame(c);
  double s = size(c);
  int kind = int(c.u(3)), ck = int(c.u(3));
  Flat2 g = flat(c, f, s, kind);
  V un = unit(g.n);
  if (c.flag(1, 3)) { // planes and what they contain
    int what = int(c.u(6)); // line ray segment plane triangle disk
    int how = int(c.u(3));  // 0 in the plane, 1 parallel off it, 2 tilted
    Frame h = f;
    L off = how == 1 ? s * L(c.real(0.01, 2)) * (c.flag() ? 1 : -1) : 0;
    h.o = f.at(s * L(c.sreal(3)), s * L(c.sreal(3)), off);
    L t = how == 2 ? L(c.real(0.02, 3.12)) : 0;
    h.z = std::cos(t) * f.z + std::sin(t) * f.x;
    h.x = std::cos(t) * f.x - std::sin(t) * f.z;
    acme::plane P(pt(rnd(f.o)), ev(rnd(L(factor(c)) * f.z)));
    L a = how == 2 ? L(0) : L(c.sreal(3.14159265));
    V e = std::cos(a) * h.x + std::sin(a) * h.y;
    bool want = how == 0;
    static char const *nm[6] = {"line", "ray", "segment", "plane", "triangle", "disk"};
    char const *hw[3] = {" in the plane", " parallel to the plane", " tilted"};
    bool got = false;
    bool same = false;
    L tol = 1e-9L * coord({h.o, f.o}) + 1e-9L * s;
    if (what < 3) {
      Curve k = curve(c, what, h.o, e, s);
      if (c.verbose) c.log << k << " plane " << f.o << " " << f.z << "\n";
      acme::line lo_(pt(V(7, 7, 7)), ev(V(7, 7, 7)));
      acme::ray ro(pt(V(7, 7, 7)), ev(V(7, 7, 7)));
      acme::segment so(pt(V(7, 7, 7)), pt(V(7, 7, 7)));
      if (what == 0) { got = acme::Intersection(k.l(), P, lo_); same = got && near(V::of(lo_.origin()), k.A, tol) && near(V::of(lo_.direction()), k.B, 1e-9L * maxabs(k.B)); }
      if (what == 1) { got = acme::Intersection(k.r(), P, ro); same = got && near(V::of(ro.origin()), k.A, tol) && near(V::of(ro.direction()), k.B, 1e-9L * maxabs(k.B)); }
      if (what == 2) { got = acme::Intersection(P, k.s(), so); same = got && ends(so, k.A, k.A + k.B, tol); }
    } else {
      Flat2 g2 = flat(c, h, s, what - 3);
      if (c.verbose) c.log << g2 << " plane " << f.o << " " << f.z << "\n";
      acme::plane po(pt(V(7, 7, 7)), ev(V(7, 7, 7)));
      acme::triangle to(pt(V(7, 7, 7)), pt(V(8, 7, 7)), pt(V(7, 8, 7)));
      acme::disk dd(7, pt(V(7, 7, 7)), ev(V(7, 7, 7)));
      if (what == 3) { got = acme::Intersection(P, g2.P, po); same = got && std::fabs(dot(V::of(po.origin()) - f.o, f.z)) < tol && norm(cross(unit(V::of(po.normal())), f.z)) < 1e-9L; }
      if (what == 4) { got = acme::Intersection(P, lib(g2.T), to); same = got; for (int i = 0; i < 3 && same; ++i) same = near(V::of(to.vertex(i)), g2.T.v[i], tol); }
      if (what == 5) { got = acme::Intersection(P, g2.D, dd); same = got && near(V::of(dd.center()), g2.o, tol) && std::fabs(dd.radius() - g2.r) < tol && norm(cross(unit(V::of(dd.normal())), f.z)) < 1e-9L; }
    }
    CHECK(got == want, "a " << nm[what] << hw[how] << " answered " << got);
    CHECK(!want || same, "a " << nm[what] << " in the plane is not what is reported");
    c.label(std::string("plane-") + nm[what]);
    c.label(hw[how]);
    c.hit();
    return;
  }
  if (kind == 0) return;
  L a = c.sreal(3.14159265), rad = s * L(c.flag(1, 4) ? c.real(0, 3) : c.real(0, 0.7)), b = c.sreal(3.14159265);
  V q = f.at(rad * std::cos(b), rad * std::sin(b)), e = std::cos(a) * f.x + std::sin(a) * f.y;
  Curve k = curve(c, ck, q, e, 1.5L * s);
  if (c.verbose) c.log << g << "\n" << k << "\n";
  acme::segment out(pt(V(7, 7, 7)), pt(V(7, 7, 7)));
  bool got = false;
  switch (ck * 2 + (kind - 1)) {
    case 0: got = acme::Intersection(k.l(), lib(g.T), out); break;
    case 1: got = acme::Intersection(k.l(), g.D, out); break;
    case 2: got = acme::Intersection(k.r(), lib(g.T), out); break;
    case 3: got = acme::Intersection(k.r(), g.D, out); break;
    case 4: got = acme::Intersection(k.s(), lib(g.T), out); break;
    default: got = acme::Intersection(k.s(), g.D, out); break;
  }
  c.label(std::string(curve_name(ck)) + (kind == 1 ? "-triangle" : "-disk"));
  L lo, hi, m;
  interval(g, q, e, lo, hi, m);
  L band = 1e-4L * s;
  if (std::fabs(m) < band) return;
  bool want = m > 0;
  if (want) {
    lo = std::max(lo, k.lo); hi = std::min(hi, k.hi);
    if (std::fabs(hi - lo) < band) return;
    want = hi > lo;
  }
  CHECK(got == want, "the " << curve_name(ck) << (want ? " shares a segment" : " shares nothing") << " with the " << (kind == 1 ? "triangle" : "disk") << ", answered " << got);
  if (want) {
    L tol = (1e-8L * coord({q, g.o}) + 1e-8L * s) * (1 + s / std::sqrt(m * s));
    // an end may move as far as a sideways shift within the library's tolerance moves it
    V side = cross(un, e);
    for (L sh : {-3e-8L, 3e-8L}) {
      L lo2, hi2, m2;
      interval(g, q + (sh * (1 + coord({q, g.o}))) * side, e, lo2, hi2, m2);
      lo2 = std::max(lo2, k.lo); hi2 = std::min(hi2, k.hi);
      tol += std::fabs(lo2 - lo) + std::fabs(hi2 - hi);
    }
    CHECK(ends(out, q + lo * e, q + hi * e, tol), "the common segment is " << q + lo * e << " - " << q + hi * e << ", reported " << str(out));
  }
  c.label(want ? "meet" : "miss");
  c.hit();
}
PBT(K08, points, 2000000, 100000000, "the point lies on the object well inside its borders, or clearly off it") {
  Frame f = frame(c);
  double s = size(c);
  int what = int(c.u(7)); // point line ray segment plane triangle disk
  static char const *nm[7] = {"point", "line", "ray", "segment", "plane", "triangle", "disk"};
  bool off = c.flag(); // displaced across
  L d = off ? s * L(c.real(0.05, 2)) : 0;
  V p;
  bool want = !off, got = false;
  acme::point out(7, 7, 7);
  c.label(nm[what]);
  if (what == 0) {
    V o = rnd(f.o);
    p = rnd(o + d * f.z);
    if (!off && norm(o) == 0) return; // comparison of the origin is relative
    got = acme::Intersection(pt(o), pt(p), out);
  } else if (what < 4) {
    Curve k = curve(c, what - 1, f.o, f.z, s);
    L t = s * L(c.real(-2, 2)), a = c.sreal(3.14159265);
    if (c.flag(1, 10)) t = std::max(std::min(dot(k.A - f.o, f.z), k.hi), k.lo); // at the origin itself
    else if (std::fabs(t - k.lo) < 0.01L * s || std::fabs(t - k.hi) < 0.01L * s) return;
    if (t < k.lo || t > k.hi) want = false;
    p = rnd(f.o + t * f.z + d * (std::cos(a) * f.x + std::sin(a) * f.y));
    if (c.verbose) c.log << k << "\n";
    got = what == 1 ? acme::Intersection(pt(p), k.l(), out) : what == 2 ? acme::Intersection(pt(p), k.r(), out) : acme::Intersection(pt(p), k.s(), out);
  } else {
    Flat2 g = flat(c, f, s, what - 4);
    L rad = s * L(c.real(0, 1.3)), b = c.sreal(3.14159265);
    p = f.at(rad * std::cos(b), rad * std::sin(b));
    L m = what == 4 ? L(1e9) : what == 5 ? inside(g.T, p) : L(g.r) - rad;
    if (std::fabs(m) < 1e-5L * s) return;
    if (m < 0) want = false;
    p = rnd(p + d * (c.flag() ? f.z : -f.z));
    if (c.verbose) c.log << g << "\n";
    got = what == 4 ? acme::Intersection(pt(p), g.P, out) : what == 5 ? acme::Intersection(pt(p), lib(g.T), out) : acme::Intersection(pt(p), g.D, out);
  }
  if (c.verbose) c.log << "point " << p << "\n";
  CHECK(got == want, "the point " << p << (want ? " lies on the " : " does not lie on the ") << nm[what] << ", answered " << got);
  if (got) CHECK(near(V::of(out), p, 1e-9L * coord({p})), "the point " << p << " on the " << nm[what] << " is reported as " << V::of(out));
  c.label(want ? "on" : "off");
  c.hit();
}

// recorded defect: the point query of two lines, rays or segments that pass each other
PBT_KNOWN(K08, skew_pairs_meet) {
  acme::point q;
  acme::line    l0(0, 0, 0, 1, 0, 0), l1(0, 0, 1, 0, 1, 0);
  acme::ray     r0(-1, 0, 0, 1, 0, 0), r1(0, -1, 1, 0, 1, 0);
  acme::segment s0(-1, 0, 0, 1, 0, 0), s1(0, -1, 1, 0, 1, 1);
  std::string e;
  if (acme::Intersection(l0, l1, q)) e += " line/line";
  if (acme::Intersection(l0, r1, q)) e += " line/ray";
  if (acme::Intersection(l0, s1, q)) e += " line/segment";
  if (acme::Intersection(r0, r1, q)) e += " ray/ray";
  if (acme::Intersection(r0, s1, q)) e += " ray/segment";
  if (acme::Intersection(s0, s1, q)) e += " segment/segment";
  return e.empty() ? "" : "objects passing each other at distance 1 are said to meet:" + e;
}
