// S01 S02 S03 S04: tyre profile, ribs, pose algebra and bounding box
#include "gen.hh"
#include <cstring>
using namespace mdl;
using pbt::Case;

template <class F> static bool throws(F f) {
  try { f(); } catch (std::exception const &) { return true; }
  return false;
}

PBT(S01, profile, 2500000, 100000000, "the coordinate lies strictly inside the tyre and off its middle, or outside the tyre") {
  Shape s = gen::shape(c);
  double Ly = s.Ly, y;
  switch (c.u(8)) {
    case 0: y = 0; break;
    case 1: y = c.flag() ? Ly : -Ly; break;
    case 2: y = std::nextafter(Ly, 1e9) * (c.flag() ? 1 : -1); break;
    case 3: y = Ly * (1 + c.logreal(1e-12, 10)) * (c.flag() ? 1 : -1); break;
    case 4: y = Ly * (1 - c.logreal(1e-12, 1)) * (c.flag() ? 1 : -1); break;
    case 5: y = c.logreal(1e-12, 1e-3) * Ly * (c.flag() ? 1 : -1); break;
    default: y = c.sreal(Ly);
  }
  enve::shape H(s.Rx, s.Mx, s.Ry, s.My, s.Ly);
  enve::shell S(1 + c.u(3), s.Rx, s.Mx, s.Ry, s.My, s.Ly);
  c.note("shape", s);
  if (c.verbose) { c.log.precision(17); c.log << "y = " << y << "\n"; }
  bool in = std::fabs(y) <= Ly;
  CHECK(H.checkWidthBound(y) == in && S.checkWidthBound(y) == in, "checkWidthBound(" << y << ") with Ly=" << Ly);
  CHECK(H.surfaceMaxRadius() == s.Rx && S.surfaceMaxRadius() == s.Rx, "surfaceMaxRadius");
  CHECK(H.surfaceWidth() == Ly && S.surfaceWidth() == Ly && H.surfaceMaxWidth() == Ly && S.surfaceMaxWidth() == Ly, "surfaceWidth");
  CHECK(H.Rx() == s.Rx && H.Mx() == s.Mx && H.Ry() == s.Ry && H.My() == s.My && H.Ly() == s.Ly, "shape parameters do not read back");
  if (!in) {
    c.label("outside");
    c.hit();
    CHECK(throws([&] { H.surfaceRadius(y); }) && throws([&] { S.surfaceRadius(y); }), "surfaceRadius accepts y=" << y << " beyond Ly=" << Ly);
    CHECK(throws([&] { H.surfaceDerivative(y); }) && throws([&] { S.surfaceDerivative(y); }), "surfaceDerivative accepts y=" << y << " beyond Ly=" << Ly);
    CHECK(throws([&] { H.surfaceAngle(y); }) && throws([&] { S.surfaceAngle(y); }), "surfaceAngle accepts y=" << y << " beyond Ly=" << Ly);
    return;
  }
  L g = 1 - std::pow(std::fabs(L(y)) / s.Ry, L(s.My));
  L R = s.radius(y), dR = s.deriv(y);
  double r = H.surfaceRadius(y), d = H.surfaceDerivative(y), a = H.surfaceAngle(y);
  CHECK(S.surfaceRadius(y) == r && S.surfaceDerivative(y) == d && S.surfaceAngle(y) == a, "shell and shape disagree on the profile at y=" << y);
  CHECK(H.surfaceRadius(-y) == r, "the radius is not even at y=" << y);
  CHECK(H.surfaceDerivative(-y) == -d && H.surfaceAngle(-y) == -a, "the derivative is not odd at y=" << y);
  if (g < 1e-6L) { c.label("at the profile's end"); CHECK(r >= 0 && r <= s.Rx * 0.05 + s.Rx * std::pow(2e-6, 1 / s.Mx), "radius " << r << " at the end of the profile"); return; }
  L tol = 1e-13L / g;
  CHECK(std::fabs(r - R) <= tol * s.Rx, "radius " << r << " at y=" << y << ", expected " << double(R));
  if (std::fabs(y) <= 1e-7) { c.label("middle"); CHECK(std::fabs(d - dR) <= std::fabs(dR) * 1e-9L || d == 0, "derivative " << d << " at y=" << y << ", expected " << double(dR)); }
  else CHECK(std::fabs(d - dR) <= std::fabs(dR) * (1e-11L + 10 * tol), "derivative " << d << " at y=" << y << ", expected " << double(dR));
  CHECK(std::fabs(a - std::atan(L(d))) <= 1e-15L, "angle " << a << " is not the arctangent of " << d);
  if (std::fabs(y) > 1e-7) { c.label("inside"); c.hit(); }
}

// ---------------------------------------------------------------------------
static std::vector<double> layout(enve::shell const &S) {
  std::vector<double> k{double(S.size())};
  for (size_t i = 0; i < S.size(); ++i) {
    acme::point P = S.ribCenter(i), q; acme::vec3 nn, e; acme::affine A;
    k.push_back(S.ribRadius(i)); k.push_back(P.x()); k.push_back(P.y()); k.push_back(P.z()); k.push_back(S.ribWidth(i)); k.push_back(S.ribAngle(i));
  }
  return k;
}
PBT(S02, layout, 200000, 8000000, "more than one rib, or a count rejected") {
  Shape s = gen::shape(c);
  c.note("shape", s);
  size_t n0 = size_t(c.size(1, 300)), n = n0;
  enve::shell S(n0, s.Rx, s.Mx, s.Ry, s.My, s.Ly);
  c.log << "shell with " << n << " ribs\n";
  int steps = int(c.size(0, 4));
  bool blank = true; // nothing evaluated since the last resizing
  for (int k = 0; k < steps; ++k) {
    size_t m = c.flag(1, 5) ? 0 : c.flag(1, 4) ? n : c.flag(1, 8) ? size_t(c.range(1, 600)) : size_t(c.size(1, 60));
    c.log << "resize " << m << "\n";
    bool t = throws([&] { S.resize(m); });
    CHECK(t == (m == 0), "resize(" << m << ") " << (t ? "throws" : "is accepted"));
    if (m) n = m, blank = true; else c.hit();
    if (blank) { // a shell just resized holds no contact, as one just built
      enve::shell F(n, s.Rx, s.Mx, s.Ry, s.My, s.Ly);
      for (size_t i = 0; i < n; i += 1 + n / 16) {
        Out p = read(S, i), q = read(F, i);
        double x[] = {double(p.a), double(p.v), double(p.d), double(p.f), double(p.P.x), double(p.P.y), double(p.P.z), double(p.N.x), double(p.N.y), double(p.N.z)};
        double y[] = {double(q.a), double(q.v), double(q.d), double(q.f), double(q.P.x), double(q.P.y), double(q.P.z), double(q.N.x), double(q.N.y), double(q.N.z)};
        for (int j = 0; j < 10; ++j) CHECK(x[j] == y[j] || (x[j] != x[j] && y[j] != y[j]), "rib " << i << " of a shell resized to " << n << " holds " << x[j] << ", one of a shell built with that count " << y[j]);
      }
    }
    if (c.flag(1, 3)) {
      blank = false; // a contact evaluation in between must not disturb the layout
      enve::ground::flat G(1.0, acme::point(0, 0, -0.9 * s.Rx), acme::vec3(0, 0, 1));
      acme::affine a; a.setIdentity();
      S.setup(G, a, c.flag() ? "sampling" : "geometric");
    }
  }
  CHECK(throws([&] { enve::shell Z(0, s.Rx, s.Mx, s.Ry, s.My, s.Ly); }), "a shell without ribs is accepted");
  CHECK(S.size() == n, "size is " << S.size() << " after asking for " << n);
  for (size_t i = 0; i < n; ++i) {
    auto r = s.rib(i, n);
    acme::point P = S.ribCenter(i);
    L tol = 1e-13L * n * s.Ly;
    CHECK(P.x() == 0 && P.z() == 0 && std::fabs(P.y() - r.y) <= tol, "rib " << i << " of " << n << " is centred at " << P.transpose() << ", expected y=" << double(r.y));
    CHECK(std::fabs(S.ribWidth(i) - r.w) <= 1e-14L * r.w * 4, "rib " << i << " of " << n << " is " << S.ribWidth(i) << " wide, expected " << double(r.w));
    L g = 1 - std::pow(std::fabs(r.y) / s.Ry, L(s.My));
    L gg = std::min(g, 1 - std::pow((std::fabs(r.y) + tol) / s.Ry, L(s.My)));
    if (gg < 1e-7L) continue;
    CHECK(std::fabs(S.ribRadius(i) - r.R) <= 1e-12L * n / gg * s.Rx, "rib " << i << " of " << n << " has radius " << S.ribRadius(i) << ", expected " << double(r.R));
    L ang = std::fabs(r.y) < 1e-7L ? S.ribAngle(i) == 0 ? 0 : r.ang : r.ang;
    CHECK(std::fabs(S.ribAngle(i) - ang) <= 1e-10L * n / (gg * gg) , "rib " << i << " of " << n << " is inclined by " << S.ribAngle(i) << ", expected " << double(ang));
  }
  // every index can be read
  enve::ground::flat G(1.0, acme::point(0, 0, -0.95 * s.Rx), acme::vec3(0, 0, 1));
  acme::affine a; a.setIdentity();
  S.setup(G, a, "geometric");
  auto o = read(S);
  CHECK(o.size() == n, "results for " << o.size() << " ribs");
  enve::shell F(n, s.Rx, s.Mx, s.Ry, s.My, s.Ly);
  auto x = layout(S), y = layout(F);
  CHECK(x.size() == y.size() && !std::memcmp(x.data(), y.data(), x.size() * sizeof(double)), "a resized shell differs from one built with " << n << " ribs");
  F.setup(G, a, "geometric");
  for (size_t i = 0; i < n; ++i) { Out p = o[i], q = read(F, i); CHECK(p.a == q.a && p.v == q.v && p.d == q.d && p.f == q.f && maxabs(p.P - q.P) == 0, "rib " << i << ": a resized shell answers differently"); }
  if (n > 1) c.hit();
  c.label(n > 200 ? "n>200" : n > 20 ? "n 21..200" : "n<=20");
}

// ---------------------------------------------------------------------------
static void pose_reads(enve::shell const &S, Pose const &p, bool exact, L tol) {
  Pose q = pose_of(S.transformation());
  L e = std::max(diff(q.R, p.R), maxabs(q.t - p.t) / (1 + maxabs(p.t)));
  CHECK(exact ? e == 0 : e <= tol, "the transformation is off by " << double(e));
  auto const &m = S.transformation().matrix();
  CHECK(m(3, 0) == 0 && m(3, 1) == 0 && m(3, 2) == 0 && m(3, 3) == 1, "last row of the transformation is not 0 0 0 1");
  CHECK(maxabs(V::of(S.x()) - q.R.c[0]) == 0 && maxabs(V::of(S.y()) - q.R.c[1]) == 0 && maxabs(V::of(S.z()) - q.R.c[2]) == 0, "x, y, z are not the columns of the transformation");
  CHECK(maxabs(V::of(S.translation()) - q.t) == 0, "translation() differs from the transformation");
  CHECK(diff(m3(S.linear()), q.R) == 0, "linear() differs from the transformation");
  CHECK(diff(m3(S.rotation()), q.R) < 1e-8L, "rotation() differs from the transformation");
  acme::vec3 a;
  S.eulerAngles(a);
  CHECK(diff(rotZXY(a.x(), a.y(), a.z()), q.R) < 1e-8L, "Euler angles " << a.transpose() << " do not rebuild the rotation, off by " << double(diff(rotZXY(a.x(), a.y(), a.z()), q.R)));
}
PBT(S03, algebra, 2000000, 80000000, "at least two translations or rotations composed") {
  Shape s = gen::shape(c);
  enve::shell S(1 + c.u(4), s.Rx, s.Mx, s.Ry, s.My, s.Ly);
  Pose p;
  pose_reads(S, p, true, 0);
  int steps = int(c.size(1, 16)), ops = 0;
  bool exact = true;
  L tol = 0;
  for (int k = 0; k < steps; ++k) {
    switch (c.u(4)) {
      case 0: { p = gen::pose(c, false); S.transform(aff(p)); exact = true; tol = 0; c.log << "transform\n"; break; }
      case 1: { V t(c.sreal(10), c.sreal(10), c.sreal(10)); t = gen::dbl(t); S.translate(ev(t)); p.t = p.t + p.R * t; exact = false; ++ops; c.log << "translate " << t << "\n"; break; }
      default: {
        V ax;
        switch (c.u(5)) { case 0: ax = V(0, 0, 1); break; case 1: ax = V(0, 1, 0); break; case 2: ax = V(1, 0, 0); break; default: ax = unit(V(c.sreal(1), c.sreal(1), c.sreal(1)) + V(0, 0, 1e-6L)); }
        acme::vec3 a = ev(ax);
        a.normalize();
        double th = c.flag(1, 4) ? double(c.range(-8, 8)) * M_PI / 4 : c.sreal(7);
        S.rotate(th, a);
        p.R = p.R * rot(V::of(a), th);
        exact = false;
        ++ops;
        c.log << "rotate " << th << " about " << ax << "\n";
      }
    }
    tol += 1e-13L;
    pose_reads(S, p, exact, tol * 10);
    if (c.flag(1, 6)) S.updateBBox();
  }
  if (ops >= 2) c.hit();
}
PBT(S03, validity, 3000000, 40000000, "the determinant is away from one or the matrix is a valid pose") {
  enve::shell S(1, 0.3, 2, 0.3, 2, 0.1);
  Pose p = gen::pose(c, false);
  acme::affine a = aff(p);
  double tol = c.flag(1, 3) ? c.logreal(1e-10, 0.5) : 1.4901161193847656e-08;
  L f = 1;
  switch (c.u(5)) {
    case 0: break;
    case 1: f = 1 + (c.flag() ? 1 : -1) * tol * c.real(0, 0.9); break;
    case 2: f = 1 + (c.flag() ? 1 : -1) * tol * c.real(1.1, 4); break;
    case 3: f = -1; break;
    default: f = c.sreal(3);
  }
  int col = int(c.u(4));
  for (int i = 0; i < 4; ++i) a.matrix()(i, col) *= double(f);
  // determinant in long double
  auto const &m = a.matrix();
  auto d3 = [&](int r0, int r1, int r2, int c0, int c1, int c2) { return L(m(r0, c0)) * (L(m(r1, c1)) * m(r2, c2) - L(m(r1, c2)) * m(r2, c1)) - L(m(r0, c1)) * (L(m(r1, c0)) * m(r2, c2) - L(m(r1, c2)) * m(r2, c0)) + L(m(r0, c2)) * (L(m(r1, c0)) * m(r2, c1) - L(m(r1, c1)) * m(r2, c0)); };
  L det = L(m(0, 0)) * d3(1, 2, 3, 1, 2, 3) - L(m(0, 1)) * d3(1, 2, 3, 0, 2, 3) + L(m(0, 2)) * d3(1, 2, 3, 0, 1, 3) - L(m(0, 3)) * d3(1, 2, 3, 0, 1, 2);
  L off = std::fabs(det - 1);
  c.note("off", double(off));
  if (std::fabs(off - tol) < 0.02L * tol + 1e-12L) { c.label("at the tolerance"); return; }
  bool want = off < tol;
  bool got = tol == 1.4901161193847656e-08 ? S.checkTransformation(a) : S.checkTransformation(a, tol);
  bool got4 = tol == 1.4901161193847656e-08 ? S.checkTransformation(acme::mat4(a.matrix())) : S.checkTransformation(acme::mat4(a.matrix()), tol);
  CHECK(got == want && got4 == want, "determinant off by " << double(off) << " with tolerance " << tol << " is " << (got ? "accepted" : "rejected") << "/" << (got4 ? "accepted" : "rejected"));
  c.label(want ? "valid" : "invalid");
  c.hit();
}

// ---------------------------------------------------------------------------
static void encloses(enve::shell const &S, Shape const &s, size_t n, Pose const &p, char const *when) {
  Box b = tyre_box(s, n, p);
  auto x = S.bbox();
  V lo = V::of(x->min()), hi = V::of(x->max());
  L t = 1e-11L * gen::coord(p);
  CHECK(lo.x <= b.lo.x + t && lo.y <= b.lo.y + t && lo.z <= b.lo.z + t && hi.x >= b.hi.x - t && hi.y >= b.hi.y - t && hi.z >= b.hi.z - t,
        "after " << when << " the box " << lo << hi << " does not enclose the tyre " << b.lo << b.hi);
}
PBT(S04, encloses, 800000, 30000000, "the wheel is cambered or yawed") {
  Shape s = gen::shape(c);
  size_t n = gen::ribs(c, 24);
  auto S = gen::lib(s, n);
  Pose p;
  gen::note(c, s, n, p);
  encloses(*S, s, n, p, "construction");
  int steps = int(c.range(1, 3));
  for (int k = 0; k < steps; ++k) {
    p = gen::pose(c, false);
    if (c.verbose) c.log << "pose t" << p.t << " x" << p.R.c[0] << " y" << p.R.c[1] << " z" << p.R.c[2] << "\n";
    switch (c.u(4)) {
      case 0: S->transform(aff(p)); S->updateBBox(); encloses(*S, s, n, p, "updateBBox()"); break;
      case 1: { Flat g = gen::flat(c, s, p, 1); auto G = gen::lib(g); S->setup(*G, aff(p), c.flag() ? "sampling" : "geometric"); encloses(*S, s, n, p, "setup() on flat ground"); break; }
      case 2: { auto ts = gen::mesh(c, s, p, 6); enve::ground::mesh G(gen::libtris(ts)); S->setup(G, aff(p), c.flag() ? "sampling" : "geometric"); encloses(*S, s, n, p, "setup() on a mesh"); break; }
      default: { n = gen::ribs(c, 24); S->resize(n); S->transform(aff(p)); S->updateBBox(); encloses(*S, s, n, p, "resize() and updateBBox()"); }
    }
  }
  if (std::fabs(p.R.c[1].y) < 0.999L) c.hit();
}
PBT(S04, nothing_missed, 500000, 20000000, "a small triangle crosses a rib disk") {
  Shape s = gen::shape(c);
  size_t n = gen::ribs(c, 12);
  Pose p = gen::pose(c, false);
  gen::note(c, s, n, p);
  // small pieces of ground anywhere on the ribs, preferably near the tyre's extremes
  std::vector<Tri> ts;
  int k = int(c.size(1, 12));
  for (int i = 0; i < k; ++i) {
    auto r = s.rib(c.flag() ? (c.flag() ? 0 : n - 1) : c.u(n), n);
    L th = c.sreal(3.1416);
    V best = p.R.c[0];
    if (c.flag()) { // the direction in which the disk reaches farthest along one world axis
      V e = c.u(3) == 0 ? V(1, 0, 0) : c.flag() ? V(0, 1, 0) : V(0, 0, 1);
      if (c.flag()) e = -e;
      V d = e - dot(e, p.R.c[1]) * p.R.c[1];
      if (norm(d) > 1e-3L) { best = unit(d); th *= 0.1L; }
    }
    V C = rib_center(r, p), q = C + (r.R * L(c.flag() ? c.real(0.95, 0.999) : c.real(0.2, 0.999))) * (std::cos(th) * best + std::sin(th) * cross(best, p.R.c[1]));
    L l = s.Rx * c.logreal(0.006, 0.3);
    V a(c.sreal(1), c.sreal(1), c.sreal(1)), b(c.sreal(1), c.sreal(1), c.sreal(1));
    gen::add(ts, q + l * a, q + l * b, q - l * (a + b), gen::friction(c));
    // almost in the rib plane the crossing is as uncertain as such small triangles are long
    if (!ts.empty() && norm(cross(ts.back().n(), p.R.c[1])) < 0.02L) ts.pop_back();
  }
  if (ts.empty()) c.discard("degenerate triangles");
  c.note("mesh", ts);
  enve::ground::mesh G(gen::libtris(ts));
  auto S = gen::lib(c, s, n);
  S->setup(G, aff(p), "geometric");
  for (size_t i = 0; i < n; ++i) {
    Out ref = mesh_geometric(s.rib(i, n), p, ts), got = read(*S, i);
    if (ref.unsure) continue;
    CHECK(got.touch == ref.touch && std::fabs(got.a - ref.a) <= 0.02L * ref.a + 1e-8L, "rib " << i << " of " << n << ": pieces of ground are missed\n  got      " << got << "\n  expected " << ref);
    if (ref.touch) c.hit();
  }
}
