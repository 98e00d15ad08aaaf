// A ground of either kind under a wheel.
#pragma once
#include "gen.hh"
using namespace mdl;
using pbt::Case;

// a ground of either kind together with the call that evaluates it
struct Ground {
  Flat                                g;
  std::unique_ptr<enve::ground::flat> flat;
  std::vector<Tri>                    ts;
  std::unique_ptr<enve::ground::mesh> mesh;
  bool setup(enve::shell &s, acme::affine const &a, std::string const &m) const { return mesh ? s.setup(*mesh, a, m) : s.setup(*flat, a, m); }
};
inline Ground ground(Case &c, Shape const &s, Pose const &p, int cells = 40) {
  Ground k;
  if (c.flag(2, 3)) {
    k.ts = gen::mesh(c, s, p, cells);
    k.mesh.reset(new enve::ground::mesh(gen::libtris(k.ts)));
    c.note("mesh", k.ts);
  } else {
    k.g = gen::flat(c, s, p, 1.3);
    k.flat = gen::lib(k.g);
    if (c.verbose) c.log << "flat o" << k.g.o << " n" << k.g.n << " mu=" << k.g.mu << "\n";
  }
  return k;
}
inline std::string method(Case &c) { return c.flag() ? "sampling" : "geometric"; }
