// I01: the Simulink interface against the library evaluated directly
#include "gen.hh"
#include "enve_sfun_interface.h"
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <unistd.h>
using namespace mdl;
using pbt::Case;

extern "C" { extern void *MeshPtr, *FlatPtr, *ShellPtr; }
struct Quiet {
  std::ostringstream s;
  std::streambuf *b;
  Quiet() : b(std::cout.rdbuf(s.rdbuf())) {}
  ~Quiet() { std::cout.rdbuf(b); }
};
static void dispose() { // the interface never frees what it allocates
  delete static_cast<enve::ground::mesh *>(MeshPtr);
  delete static_cast<enve::ground::flat *>(FlatPtr);
  delete static_cast<enve::shell *>(ShellPtr);
  MeshPtr = FlatPtr = ShellPtr = nullptr;
}
static std::string file(std::vector<Tri> const &ts, bool rdf) {
  std::ostringstream o;
  o.precision(17);
  if (rdf) {
    o << "[NODES]\n";
    for (size_t i = 0; i < ts.size(); ++i) for (int j = 0; j < 3; ++j) o << 3 * i + j << " " << double(ts[i].v[j].x) << " " << double(ts[i].v[j].y) << " " << double(ts[i].v[j].z) << "\n";
    o << "[ELEMENTS]\n";
    for (size_t i = 0; i < ts.size(); ++i) o << 3 * i << " " << 3 * i + 1 << " " << 3 * i + 2 << " " << double(ts[i].mu) << "\n";
  } else {
    for (size_t i = 0; i < ts.size(); ++i) for (int j = 0; j < 3; ++j) o << "v " << double(ts[i].v[j].x) << " " << double(ts[i].v[j].y) << " " << double(ts[i].v[j].z) << "\n";
    for (size_t i = 0; i < ts.size(); ++i) o << "f " << 3 * i + 1 << " " << 3 * i + 2 << " " << 3 * i + 3 << "\n";
  }
  return o.str();
}
static bool same(double a, double b) { return (std::isnan(a) && std::isnan(b)) || a == b; }

struct Guarded { unsigned char before[64]; EnveOutputBus bus; unsigned char after[64]; };

PBT(I01, steps, 200000, 3000000, "a rib touched the mesh in one step and the back-up plane or another pose decided a different one") {
  Shape s = gen::shape(c);
  size_t n = size_t(c.flag(1, 6) ? c.range(15, 40) : c.size(1, 14));
  Pose p = gen::pose(c, true);
  gen::note(c, s, n, p);
  std::vector<Tri> ts = gen::mesh(c, s, p, 30);
  bool rdf = c.flag();
  if (!rdf) for (auto &t : ts) t.mu = 1;
  double height = double(p.t.z) - s.Rx * c.real(0.3, 1.2), mu = gen::friction(c);
  std::string base = std::string(getenv("PBT_WORK") ? getenv("PBT_WORK") : "/tmp") + "/s" + std::to_string(getpid()), path = base + (rdf ? ".rdf" : ".obj");
  { std::ofstream o(path); o << file(ts, rdf); }
  setenv("ENVE_GROUND_PATH", path.c_str(), 1);
  double size = double(n), Rx = s.Rx, Mx = s.Mx, Ry = s.Ry, My = s.My, Ly = s.Ly;
  if (c.verbose) c.log << "plane height " << height << " friction " << mu << (rdf ? " rdf" : " obj") << "\n";
  c.note("mesh", ts);
  try {
    Quiet q;
    enve_sfun_init(&size, &Rx, &Mx, &Ry, &My, &Ly, &height, &mu);
  } catch (std::exception const &e) { std::remove(path.c_str()); c.fail(std::string("initialisation fails: ") + e.what()); }
  std::remove(path.c_str());
  struct Guard { ~Guard() { dispose(); } } guard;

  auto tris = gen::libtris(ts);
  enve::ground::mesh mesh(tris);
  enve::ground::flat flat(mu, acme::point(0.0, 0.0, height), acme::vec3(0.0, 0.0, 1.0));
  std::vector<Pose> pool{p};
  int steps = int(c.size(1, 8));
  std::set<int> kinds;
  for (int k = 0; k < steps; ++k) {
    Pose q = p;
    switch (c.u(5)) {
      case 0: break;
      case 1: q = c.pick(pool); break;
      case 2: q.t = p.t + L(s.Rx) * V(c.sreal(0.5), c.sreal(0.5), c.sreal(0.3)); break;
      case 3: q.R = gen::pose(c, true).R; break;
      default: q.t = p.t + V(c.sreal(50), c.sreal(50), c.sreal(1.5) * s.Rx); // away from the mesh
    }
    acme::affine a = aff(q);
    pool.push_back(q);
    double meth = c.flag() ? 1 : 0, sel = c.flag(1, 3) ? 1 : 0;
    EnveInputBus in;
    for (int r = 0; r < 4; ++r) for (int d = 0; d < 4; ++d) in.HubAffine[r + 4 * d] = a.matrix()(r, d);
    Guarded g;
    std::memset(&g, 0x5a, sizeof g);
    if (c.flag(1, 8)) { // a rejected step leaves the next ones alone
      static std::vector<double> const bad{2, -1, 0.5, 1e9, std::nan("")};
      double m2 = meth, s2 = sel;
      if (c.flag()) m2 = c.pick(bad); else s2 = c.pick(bad);
      bool thrown = false;
      try { enve_sfun_out(&in, &g.bus, &m2, &s2); } catch (std::exception const &) { thrown = true; }
      CHECK(thrown, "method " << m2 << " with ground selector " << s2 << " is accepted");
      c.label("rejected step");
    }
    if (c.verbose) c.log << "step " << k << " method " << meth << " selector " << sel << " t" << q.t << "\n";
    enve_sfun_out(&in, &g.bus, &meth, &sel);
    for (unsigned char b : g.before) CHECK(b == 0x5a, "writes before the output bus");
    for (unsigned char b : g.after) CHECK(b == 0x5a, "writes after the output bus");
    auto S = gen::lib(s, n); // a fresh shell: nothing remembered
    std::string m = meth == 1 ? "sampling" : "geometric";
    double in_mesh;
    if (sel == 1) { S->setup(flat, a, m); in_mesh = 1; }
    else {
      in_mesh = S->setup(mesh, a, m) ? 1 : 0;
      bool any = false;
      for (auto const &r : read(*S)) any = any || r.a > 0;
      CHECK(in_mesh == 1 || !any, "a rib touches the mesh and the evaluation answers false");
      if (!in_mesh) { S = gen::lib(s, n); S->setup(flat, a, m); }
    }
    kinds.insert(int(sel * 2 + in_mesh));
    c.label(sel == 1 ? "plane" : in_mesh ? "mesh" : "back-up plane");
    auto const &B = g.bus;
    CHECK(B.InMesh == in_mesh, "the in-mesh flag is " << B.InMesh << ", expected " << in_mesh);
    acme::affine t;
    double d, f;
    S->contactPointAffine(t);
    S->contactDepth(d);
    S->contactFriction(f);
    CHECK(same(B.ShellRho, d), "wheel depth " << B.ShellRho << ", the library gives " << d);
    CHECK(same(B.ShellFriction, f), "wheel friction " << B.ShellFriction << ", the library gives " << f);
    for (int r = 0; r < 4; ++r) for (int e = 0; e < 4; ++e) CHECK(same(B.ShellAffine[r + 4 * e], t.matrix()(r, e)), "wheel frame entry (" << r << "," << e << ") is " << B.ShellAffine[r + 4 * e] << ", the library gives " << t.matrix()(r, e));
    for (int i = 0; i < ENVE_MAX_RIBS; ++i) {
      bool have = size_t(i) < n;
      if (have) { S->contactPointAffine(i, t); S->contactDepth(i, d); S->contactFriction(i, f); }
      else { d = f = acme::QUIET_NAN; t.matrix() = acme::NAN_MAT4; }
      CHECK(same(B.RibsRho[i], d), "rib " << i << " depth " << B.RibsRho[i] << ", the library gives " << d);
      CHECK(same(B.RibsFriction[i], f), "rib " << i << " friction " << B.RibsFriction[i] << ", the library gives " << f);
      for (int r = 0; r < 4; ++r) for (int e = 0; e < 4; ++e) CHECK(same(B.RibsAffine[16 * i + r + 4 * e], t.matrix()(r, e)), "rib " << i << " frame entry (" << r << "," << e << ") is " << B.RibsAffine[16 * i + r + 4 * e] << ", the library gives " << t.matrix()(r, e));
    }
  }
  if (kinds.count(1) && (kinds.size() > 1 || steps > 1)) c.hit();
  c.label("more ribs than slots", n > ENVE_MAX_RIBS);
}

PBT(I01, rejected, 60000, 2000000, "every case") {
  Shape s = gen::shape(c);
  double size = double(c.size(1, 6)), Rx = s.Rx, Mx = s.Mx, Ry = s.Ry, My = s.My, Ly = s.Ly, height = c.sreal(2), mu = gen::friction(c);
  std::string base = std::string(getenv("PBT_WORK") ? getenv("PBT_WORK") : "/tmp") + "/r" + std::to_string(getpid());
  std::vector<Tri> ts;
  gen::add(ts, V(0, 0, 0), V(1, 0, 0), V(0, 1, 0), 1.0);
  bool rdf = c.flag();
  std::string text = file(ts, rdf), path = base + (rdf ? ".rdf" : ".obj"), what;
  unsetenv("ENVE_GROUND_PATH");
  switch (c.u(5)) {
    case 0: what = "no environment variable"; break;
    case 1: {
      what = "an unsupported file type";
      static std::vector<std::string> const e{".stl", ".txt", ".RDF", ".objx", "rdf", "", ".rdf.gz"};
      path = base + c.pick(e);
      setenv("ENVE_GROUND_PATH", path.c_str(), 1);
      break;
    }
    case 2: what = "a file that does not exist"; setenv("ENVE_GROUND_PATH", (base + (rdf ? "_none.rdf" : "_none.obj")).c_str(), 1); break;
    case 3: what = "an empty mesh"; text = rdf ? "[NODES]\n0 0 0 0\n" : "v 0 0 0\n"; setenv("ENVE_GROUND_PATH", path.c_str(), 1); break;
    default: {
      what = "a wheel without ribs";
      setenv("ENVE_GROUND_PATH", path.c_str(), 1);
      size = 0;
    }
  }
  { std::ofstream o(path); o << text; }
  bool thrown = false;
  try { Quiet q; enve_sfun_init(&size, &Rx, &Mx, &Ry, &My, &Ly, &height, &mu); } catch (std::exception const &) { thrown = true; }
  std::remove(path.c_str());
  if (!thrown) dispose();
  c.label(what);
  CHECK(thrown, "initialisation with " << what << " is accepted");
  c.hit();
}
