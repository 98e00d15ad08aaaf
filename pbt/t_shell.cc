// C08 C09 C11: what the shell derives from its ribs, and what it remembers
#include "ground.hh"
#include <cstring>
using namespace mdl;
using pbt::Case;


// ---------------------------------------------------------------------------
template <class T> static std::vector<T> presized(Case &c, size_t n, T const &junk) {
  switch (c.u(4)) {
    case 0: return std::vector<T>();
    case 1: return std::vector<T>(n, junk);
    case 2: return std::vector<T>(n + 1 + c.u(4), junk);
    default: return std::vector<T>(c.u(n), junk);
  }
}
template <class A, class B> static bool bits(A const &a, B const &b, size_t n) { return std::memcmp(a.data(), b.data(), n * sizeof(double)) == 0; }

PBT(C08, aggregate, 1500000, 60000000, "some rib has contact volume") {
  Shape s = gen::shape(c);
  size_t n = gen::ribs(c, 20);
  Pose p = gen::pose(c, false);
  gen::note(c, s, n, p);
  Ground g = ground(c, s, p, 24);
  auto S = gen::lib(c, s, n);
  std::string m = method(c);
  c.note("method", m);
  g.setup(*S, aff(p), m);
  auto o = read(*S);
  L A = 0, W = 0, F = 0, D = 0, F0 = 0, dmax = 0;
  V P, N, P0, N0;
  for (auto const &r : o) {
    A += r.a; W += r.v; F += r.v * r.f; D += r.v * r.d; P = P + r.v * (r.P - p.t); N = N + r.v * r.N;
    F0 += r.f; P0 = P0 + (r.P - p.t); N0 = N0 + r.N;
    dmax = std::max(dmax, r.d);
  }
  double a, v, f, d;
  acme::point q;
  acme::vec3 nn;
  S->contactArea(a); S->contactVolume(v); S->contactFriction(f); S->contactDepth(d); S->contactPoint(q); S->contactNormal(nn);
  L sc = gen::coord(p);
  CHECK(std::fabs(a - A) <= 1e-12L * (A + 1e-6L), "shell area " << a << ", sum over ribs " << double(A));
  CHECK(std::fabs(v - W) <= 1e-12L * (W + 1e-9L), "shell volume " << v << ", sum over ribs " << double(W));
  bool some = W > 0, small = W < 2.5e-8L; // below the library's tolerance volumes may count as null
  auto want = [&](char const *what, V x, V weighted, V plain, L tol) {
    bool ok = (some && maxabs(x - weighted) <= tol) || ((!some || small) && maxabs(x - plain) <= tol);
    CHECK(ok, "shell " << what << " is " << x << ", volume weighted " << weighted << ", plain mean " << plain << ", volume " << double(W));
  };
  V zero;
  want("point", V::of(q) - p.t, some ? P / W : zero, P0 / L(n), 1e-12L * sc + 1e-10L);
  want("friction", V(f, 0, 0), V(some ? F / W : 0, 0, 0), V(F0 / n, 0, 0), 1e-10L);
  if (norm(N) > 1e-3L * W && norm(N0) > 1e-3L) want("normal", V::of(nn), unit(N), unit(N0), 1e-9L);
  if (!small) CHECK(std::fabs(d - D / W) <= 1e-10L, "shell depth is " << d << ", volume weighted mean " << double(D / W));
  else CHECK(d >= -1e-9L && d <= dmax + 1e-7L && (W != 0 || d == 0), "shell depth is " << d << ", ribs reach " << double(dmax));
  if (some) c.hit();
  c.label(!some ? "free" : small ? "tiny volume" : "touch");

  auto vp = presized<acme::point>(c, n, acme::point(7, 7, 7));
  auto vn = presized<acme::vec3>(c, n, acme::vec3(7, 7, 7));
  auto vf = presized<double>(c, n, 7.0), vd = presized<double>(c, n, 7.0), va = presized<double>(c, n, 7.0), vv = presized<double>(c, n, 7.0);
  S->contactPoint(vp); S->contactNormal(vn); S->contactFriction(vf); S->contactDepth(vd); S->contactArea(va); S->contactVolume(vv);
  acme::affine junk;
  junk.setIdentity();
  auto vA = presized<acme::affine>(c, n, junk);
  auto vr = presized<acme::vec3>(c, n, acme::vec3(7, 7, 7));
  S->contactPointAffine(vA);
  S->relativeAngles(vr);
  CHECK(vp.size() == n && vn.size() == n && vf.size() == n && vd.size() == n && va.size() == n && vv.size() == n && vA.size() == n && vr.size() == n,
        "a vector getter does not return one entry per rib: " << vp.size() << " " << vn.size() << " " << vf.size() << " " << vd.size() << " " << va.size() << " " << vv.size() << " " << vA.size() << " " << vr.size() << " for " << n);
  for (size_t i = 0; i < n; ++i) {
    acme::point P1; acme::vec3 N1, r1; double f1, d1, a1, v1; acme::affine A1;
    S->contactPoint(i, P1); S->contactNormal(i, N1); S->contactFriction(i, f1); S->contactDepth(i, d1); S->contactArea(i, a1); S->contactVolume(i, v1);
    S->contactPointAffine(i, A1); S->relativeAngles(i, r1);
    CHECK(bits(vp[i], P1, 3) && bits(vn[i], N1, 3) && vf[i] == f1 && vd[i] == d1 && va[i] == a1 && vv[i] == v1, "vector getters differ from the indexed ones at rib " << i);
    CHECK(bits(vA[i].matrix(), A1.matrix(), 16) && bits(vr[i], r1, 3), "vector frames or angles differ from the indexed ones at rib " << i);
  }
}

// ---------------------------------------------------------------------------
static void frame(Case &c, std::string const &who, acme::affine const &F, V P, V N, Pose const &p, acme::vec3 const &ang, L rib) {
  if (norm(cross(p.R.c[1], N)) < 1e-4L) { c.label("normal along the axle"); return; }
  M R;
  auto const &m = F.matrix();
  for (int j = 0; j < 3; ++j) R.c[j] = V(m(0, j), m(1, j), m(2, j));
  V o(m(0, 3), m(1, 3), m(2, 3));
  CHECK(m(3, 0) == 0 && m(3, 1) == 0 && m(3, 2) == 0 && m(3, 3) == 1, who << ": last row of the frame is not 0 0 0 1");
  CHECK(maxabs(o - P) == 0, who << ": frame origin " << o << " is not the contact point " << P);
  CHECK(maxabs(R.c[2] - N) < 1e-12L, who << ": frame z " << R.c[2] << " is not the contact normal " << N);
  M G = transpose(R) * R;
  CHECK(diff(G, eye()) < 1e-9L, who << ": frame is not orthonormal");
  CHECK(dot(cross(R.c[0], R.c[1]), R.c[2]) > 0, who << ": frame is left-handed");
  V x = unit(cross(p.R.c[1], N));
  CHECK(maxabs(R.c[0] - x) < 1e-9L, who << ": frame x " << R.c[0] << " is not axle x normal " << x);
  M rel = transpose(R) * p.R, got = rotZXY(L(ang.x()) + rib, ang.y(), ang.z());
  CHECK(diff(rel, got) < 1e-8L, who << ": relative angles " << ang.transpose() << " (rib inclination " << double(rib) << ") do not rebuild the attitude in the contact frame, off by " << double(diff(rel, got)));
}

PBT(C09, frames, 1500000, 60000000, "some rib touches") {
  Shape s = gen::shape(c);
  size_t n = gen::ribs(c, 20);
  Pose p = gen::pose(c, false);
  gen::note(c, s, n, p);
  Ground g = ground(c, s, p, 24);
  auto S = gen::lib(c, s, n);
  std::string m = method(c);
  c.note("method", m);
  bool ret = g.setup(*S, aff(p), m);
  if (c.flag(1, 4)) { // a later pose change moves the wheel, not the recorded contact
    Pose q = gen::pose(c, false);
    S->transform(aff(q));
    p = q;
    c.label("pose changed after evaluation");
  }
  for (size_t i = 0; i < n; ++i) {
    acme::affine F; acme::vec3 a; acme::point P; acme::vec3 N;
    S->contactPointAffine(i, F); S->relativeAngles(i, a); S->contactPoint(i, P); S->contactNormal(i, N);
    frame(c, "rib " + std::to_string(i), F, V::of(P), V::of(N), p, a, std::atan(s.deriv(s.rib(i, n).y)));
  }
  acme::affine F; acme::vec3 a; acme::point P; acme::vec3 N;
  S->contactPointAffine(F); S->relativeAngles(a); S->contactPoint(P); S->contactNormal(N);
  if (std::fabs(norm(V::of(N)) - 1) < 1e-9L) frame(c, "shell", F, V::of(P), V::of(N), p, a, 0);
  if (ret) c.hit();
}

// ---------------------------------------------------------------------------
// everything observable of a shell, as raw numbers
static std::vector<double> all(enve::shell const &S, bool contact = true) {
  std::vector<double> k;
  auto v3 = [&](acme::vec3 const &v) { for (int i = 0; i < 3; ++i) k.push_back(v(i)); };
  auto m4 = [&](acme::affine const &a) { for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) k.push_back(a.matrix()(i, j)); };
  k.push_back(double(S.size()));
  k.push_back(S.surfaceMaxRadius()); k.push_back(S.surfaceMaxWidth()); k.push_back(S.surfaceWidth());
  for (size_t i = 0; i < S.size(); ++i) { k.push_back(S.ribRadius(i)); v3(S.ribCenter(i)); k.push_back(S.ribWidth(i)); k.push_back(S.ribAngle(i)); }
  if (!contact) return k;
  m4(S.transformation()); v3(S.x()); v3(S.y()); v3(S.z());
  v3(S.bbox()->min()); v3(S.bbox()->max());
  acme::point P; acme::vec3 N, e; double f, d, a, v; acme::affine A;
  for (size_t i = 0; i < S.size(); ++i) {
    S.contactPoint(i, P); S.contactNormal(i, N); S.contactFriction(i, f); S.contactDepth(i, d); S.contactArea(i, a); S.contactVolume(i, v);
    S.contactPointAffine(i, A); S.relativeAngles(i, e);
    v3(P); v3(N); k.push_back(f); k.push_back(d); k.push_back(a); k.push_back(v); m4(A); v3(e);
  }
  S.contactPoint(P); S.contactNormal(N); S.contactFriction(f); S.contactDepth(d); S.contactArea(a); S.contactVolume(v);
  S.contactPointAffine(A); S.relativeAngles(e);
  v3(P); v3(N); k.push_back(f); k.push_back(d); k.push_back(a); k.push_back(v); m4(A); v3(e);
  S.eulerAngles(e); v3(e);
  return k;
}
static bool same(std::vector<double> const &a, std::vector<double> const &b) {
  return a.size() == b.size() && (a.empty() || std::memcmp(a.data(), b.data(), a.size() * sizeof(double)) == 0);
}
static std::vector<double> all(Ground const &g) {
  std::vector<double> k;
  auto v3 = [&](acme::vec3 const &v) { for (int i = 0; i < 3; ++i) k.push_back(v(i)); };
  if (g.flat) { v3(g.flat->origin()); v3(g.flat->normal()); k.push_back(g.flat->friction()); return k; }
  k.push_back(double(g.mesh->size()));
  for (size_t i = 0; i < g.mesh->size(); ++i) {
    auto t = g.mesh->ptrTriangleground(unsigned(i));
    for (int j = 0; j < 3; ++j) v3(t->vertex(j));
    v3(t->normal()); k.push_back(t->friction());
  }
  return k;
}

PBT(C11, history, 600000, 25000000, "the last evaluation touches and an earlier one differed in ground, pose, method or rib count") {
  Shape s = gen::shape(c), s2 = gen::shape(c);
  size_t n = gen::ribs(c, 10);
  Pose p0 = gen::pose(c, false);
  gen::note(c, s, n, p0);
  std::vector<Ground> gs;
  int ng = int(c.range(1, 3));
  for (int i = 0; i < ng; ++i) gs.push_back(ground(c, s, p0, 20));
  std::vector<Pose> seen{p0};
  auto fresh = [&]() { Pose p = gen::pose(c, false); if (c.flag(3, 4)) p.t = p0.t + s.Rx * V(c.sreal(0.3), c.sreal(0.3), c.sreal(0.2)); return pose_of(aff(p)); };
  auto near = [&]() { // poses come back, so that stale results of an equal pose would show
    if (c.flag(2, 5)) return c.pick(seen);
    seen.push_back(fresh());
    return seen.back();
  };
  auto S = gen::lib(s, n);
  auto other = gen::lib(s2, gen::ribs(c, 6));
  size_t gi = c.u(gs.size());
  gs[gi].setup(*other, aff(near()), method(c));
  auto other0 = all(*other);
  std::vector<std::vector<double>> g0;
  for (auto const &g : gs) g0.push_back(all(g));
  int steps = int(c.size(1, 14));
  bool earlier = false;
  for (int k = 0; k < steps; ++k) {
    switch (c.u(9)) {
      case 0: case 1: case 2: {
        auto const &g = gs[c.u(gs.size())];
        std::string m = method(c);
        g.setup(*S, aff(near()), m);
        earlier = true;
        c.log << (g.mesh ? "setup mesh " : "setup flat ") << m << "\n";
        break;
      }
      case 3: { // a rejected call, part of the way through
        try { gs[c.u(gs.size())].setup(*S, aff(near()), "none"); } catch (std::exception const &) {}
        c.log << "setup with an unknown method\n";
        break;
      }
      case 4: { n = gen::ribs(c, 10); S->resize(n); c.log << "resize " << n << "\n"; break; }
      case 5: S->translate(acme::vec3(c.sreal(3), c.sreal(3), c.sreal(1))); c.log << "translate\n"; break;
      case 6: S->rotate(c.sreal(3), acme::vec3(0, 0, 1)); c.log << "rotate\n"; break;
      case 7: { S->transform(aff(near())); if (c.flag()) S->updateBBox(); c.log << "transform\n"; break; }
      default: { std::ostringstream os; S->print(os); auto a = all(*S); auto b = all(*S); CHECK(same(a, b), "repeating the queries gives other values"); c.log << "queries\n"; }
    }
  }
  auto const &g = gs[c.u(gs.size())];
  Pose p = c.flag() ? p0 : near();
  std::string m = method(c);
  c.note("last method", m);
  auto F = gen::lib(s, n);
  bool r1 = g.setup(*S, aff(p), m), r2 = g.setup(*F, aff(p), m);
  CHECK(r1 == r2, "setup() returns " << r1 << " after the history and " << r2 << " on a fresh shell");
  auto a = all(*S), b = all(*F);
  CHECK(same(a, b), "results after the history differ from those of a fresh shell");
  bool r3 = g.setup(*S, aff(p), m);
  CHECK(r3 == r1 && same(all(*S), a), "repeating the evaluation gives other results");
  CHECK(same(all(*other), other0), "evaluations changed another shell");
  for (size_t i = 0; i < gs.size(); ++i) CHECK(same(all(gs[i]), g0[i]), "evaluations changed ground " << i);
  if (r1 && earlier) c.hit();
  c.label(r1 ? "touch" : "free");
}
