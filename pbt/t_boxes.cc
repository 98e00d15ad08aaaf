// K06 K07: bounding boxes, box trees and entity collections
#include "kgen.hh"
#include <algorithm>
#include <memory>
using namespace mdl;
using namespace kg;
using pbt::Case;

static double cell(Case &c, bool grid, double m) { return grid ? double(c.range(-int(m), int(m))) : c.sreal(m); }
static acme::aabb box(Case &c, bool grid, double m, double w, int id, int pos) {
  double a[3], b[3];
  for (int i = 0; i < 3; ++i) {
    a[i] = cell(c, grid, m);
    b[i] = a[i] + (c.flag(1, 6) ? 0 : grid ? double(c.range(0, std::max(1, int(w)))) : c.real(0, w));
  }
  return acme::aabb(a[0], a[1], a[2], b[0], b[1], b[2], id, pos);
}
static std::string str(acme::aabb const &b) {
  std::ostringstream o;
  o.precision(17);
  o << "[" << b.min(0) << "," << b.max(0) << "]x[" << b.min(1) << "," << b.max(1) << "]x[" << b.min(2) << "," << b.max(2) << "]";
  return o.str();
}
static bool share(acme::aabb const &a, acme::aabb const &b) {
  for (int i = 0; i < 3; ++i) if (std::max(a.min(i), b.min(i)) > std::min(a.max(i), b.max(i))) return false;
  return true;
}
static bool same(double a, double b) { return std::fabs(a - b) <= 1e-12 * (1 + std::fabs(a) + std::fabs(b)); }

PBT(K06, boxes, 6000000, 400000000, "two boxes and a point were compared") {
  bool grid = c.flag();
  double m = grid ? 4 : c.logreal(0.01, 1000), w = grid ? 4 : m * c.logreal(0.01, 2);
  acme::aabb a = box(c, grid, m, w, 3, 5), b = box(c, grid, m, w, 4, 6);
  if (c.flag(1, 8)) b = a;
  acme::point p(cell(c, grid, m), cell(c, grid, m), cell(c, grid, m));
  if (c.verbose) c.log << str(a) << "\n" << str(b) << "\npoint " << V::of(p) << "\n";
  CHECK(a.checkMaxMin() && b.checkMaxMin(), "a box built with ordered bounds is not ordered");
  bool want = share(a, b);
  CHECK(a.intersects(b) == want && b.intersects(a) == want, "boxes " << str(a) << " and " << str(b) << (want ? " share a point" : " share no point") << ", answered " << a.intersects(b) << " and " << b.intersects(a));
  acme::aabb o(7, 7, 7, 8, 8, 8);
  bool got = acme::Intersection(a, b, o);
  CHECK(got == want, "Intersection(aabb, aabb) answered " << got);
  if (got) for (int i = 0; i < 3; ++i)
    CHECK(o.min(i) == std::max(a.min(i), b.min(i)) && o.max(i) == std::min(a.max(i), b.max(i)), "the common box of " << str(a) << " and " << str(b) << " is reported as " << str(o));
  // containment and distances
  bool in = true;
  double near2 = 0, far2 = 0;
  for (int i = 0; i < 3; ++i) {
    double x = p[i];
    if (x < a.min(i) || x > a.max(i)) in = false;
    double d = std::max(0.0, std::max(a.min(i) - x, x - a.max(i)));
    near2 += d * d;
    double e = std::max(std::fabs(x - a.min(i)), std::fabs(x - a.max(i)));
    far2 += e * e;
  }
  CHECK(a.isInside(p) == in, "isInside answered " << a.isInside(p) << " for " << V::of(p) << " and " << str(a));
  CHECK(std::fabs(a.centerDistance(p) - std::sqrt(near2)) <= 1e-9 * (1 + m), "centerDistance from " << V::of(p) << " to " << str(a) << " is " << a.centerDistance(p) << ", the box lies " << std::sqrt(near2) << " away");
  CHECK(std::fabs(a.exteriorDistance(p) - std::sqrt(far2)) <= 1e-9 * (1 + m), "exteriorDistance from " << V::of(p) << " to " << str(a) << " is " << a.exteriorDistance(p) << ", the farthest corner lies " << std::sqrt(far2) << " away");
  // merging
  std::vector<acme::aabb::ptr> all;
  int n = int(c.range(1, 4));
  for (int i = 0; i < n; ++i) all.push_back(std::make_shared<acme::aabb const>(box(c, grid, m, w, i, i)));
  acme::aabb u(all, 9, 8), u2(b);
  u2.merged(all);
  for (int i = 0; i < 3; ++i) {
    double lo = 1e300, hi = -1e300;
    for (auto const &q : all) { lo = std::min(lo, q->min(i)); hi = std::max(hi, q->max(i)); }
    CHECK(u.min(i) == lo && u.max(i) == hi && u2.min(i) == lo && u2.max(i) == hi, "the merged box is " << str(u) << " / " << str(u2) << ", along axis " << i << " the boxes span [" << lo << ", " << hi << "]");
  }
  CHECK(u.id() == 9 && u.pos() == 8, "the merged box carries identifiers " << u.id() << ", " << u.pos());
  // bounds given in any order
  double s0[3], s1[3];
  bool swapped = false;
  for (int i = 0; i < 3; ++i) {
    s0[i] = a.min(i); s1[i] = a.max(i);
    if (c.flag(1, 3)) { std::swap(s0[i], s1[i]); if (s0[i] > s1[i]) swapped = true; }
  }
  acme::aabb r1(s0[0], s0[1], s0[2], s1[0], s1[1], s1[2], 3, 5), r2(acme::point(s0[0], s0[1], s0[2]), acme::point(s1[0], s1[1], s1[2]), 3, 5), r3(b);
  r3.min(s0[0], s0[1], s0[2]);
  r3.max(s1[0], s1[1], s1[2]);
  CHECK(r3.checkMaxMin() == !swapped, "checkMaxMin answers " << r3.checkMaxMin() << " for bounds that are " << (swapped ? "swapped" : "ordered"));
  CHECK(r3.updateMaxMin() == !swapped, "updateMaxMin does not answer whether the bounds were ordered");
  for (auto const *r : {&r1, &r2, &r3}) for (int i = 0; i < 3; ++i)
    CHECK(r->min(i) == a.min(i) && r->max(i) == a.max(i), "bounds given in another order make " << str(*r) << " instead of " << str(a));
  CHECK(r1.id() == 3 && r1.pos() == 5 && r2.id() == 3 && r2.pos() == 5, "identifiers of a box are lost");
  // three points, translation
  acme::point t[3];
  for (auto &q : t) q = acme::point(cell(c, grid, m), cell(c, grid, m), cell(c, grid, m));
  acme::aabb k(b), k2(b);
  k.clamp(t[0], t[1], t[2]);
  k2.clamp(t);
  for (int i = 0; i < 3; ++i) {
    double lo = std::min(t[0][i], std::min(t[1][i], t[2][i])), hi = std::max(t[0][i], std::max(t[1][i], t[2][i]));
    CHECK(k.min(i) == lo && k.max(i) == hi && k2.min(i) == lo && k2.max(i) == hi, "three points are boxed by " << str(k) << " / " << str(k2) << ", along axis " << i << " they span [" << lo << ", " << hi << "]");
  }
  acme::aabb mv(a);
  mv.translate(p);
  for (int i = 0; i < 3; ++i) CHECK(same(mv.min(i), a.min(i) + p[i]) && same(mv.max(i), a.max(i) + p[i]), "the box " << str(a) << " moved by " << V::of(p) << " became " << str(mv));
  CHECK(a.isApprox(a) && (!a.isApprox(mv, 1e-9) || norm(V::of(p)) < 1e-3 * m), "comparison of a box with itself or a moved one");
  // a flat box, a merge of nothing and a cleared box
  acme::aabb pnt(p, p, 1, 2), gone(a), zero(a);
  CHECK(pnt.isDegenerated() || norm(V::of(p)) == 0, "a box shrunk to the point " << V::of(p) << " is not degenerated");
  bool thick = false;
  for (int i = 0; i < 3; ++i) thick |= a.max(i) - a.min(i) > 1e-6 * (1 + m);
  CHECK(!thick || !a.isDegenerated(), "the box " << str(a) << " is degenerated");
  zero.merged(std::vector<acme::aabb::ptr>());
  for (int i = 0; i < 3; ++i) CHECK(zero.min(i) == 0 && zero.max(i) == 0, "the merge of no boxes is " << str(zero));
  gone.clear();
  CHECK(!gone.intersects(a) && !a.intersects(gone) && !gone.isInside(p) && !gone.isDegenerated() && !gone.checkMaxMin(), "a cleared box still meets or contains something");
  acme::aabb ob(7, 7, 7, 8, 8, 8);
  CHECK(!acme::Intersection(gone, a, ob) && !acme::Intersection(a, gone, ob), "a cleared box shares " << str(ob) << " with another");
  gone.id() = 11; gone.pos() = 12;
  CHECK(static_cast<acme::aabb const &>(gone).id() == 11 && static_cast<acme::aabb const &>(gone).pos() == 12, "identifiers of a box are not kept");
  c.label(want ? "overlap" : "apart");
  c.label("touch", want && (o.min(0) == o.max(0) || o.min(1) == o.max(1) || o.min(2) == o.max(2)));
  c.label("point inside", in);
  c.hit();
}

static acme::aabb::vecptr boxes(Case &c, int n, bool grid, double m, double w, int how) {
  acme::aabb::vecptr v;
  acme::aabb base = box(c, grid, m, w, 0, 0);
  for (int i = 0; i < n; ++i) {
    acme::aabb b = base;
    switch (how) {
      case 0: b = box(c, grid, m, w, 0, 0); break;
      case 1: break; // all the same
      case 2: { double d = m * double(i + 1) / n; b = acme::aabb(-d, -d, -d, d, d, d); break; } // nested
      case 3: { double d = m * std::ldexp(1.0, -i % 40); b = acme::aabb(d, 0, 0, d * (1 + 1e-3 * double(c.u(5))), 1, 1); break; } // clustered
      default: { int ax = how - 4; double lo[3] = {0, 0, 0}, hi[3] = {1, 1, 1}; lo[ax] = double(i); hi[ax] = double(i) + 1; b = acme::aabb(lo[0], lo[1], lo[2], hi[0], hi[1], hi[2]); break; } // a row of touching boxes
    }
    b.id() = int(c.u(5)); // identifiers need not be unique
    b.pos() = i;
    v.push_back(std::make_shared<acme::aabb const>(b));
  }
  return v;
}
PBT(K06, trees, 1500000, 50000000, "both trees hold boxes and some pair overlaps while another does not") {
  bool grid = c.flag();
  double m = grid ? double(c.range(1, 12)) : c.logreal(0.01, 1000), w = grid ? double(c.range(1, 6)) : m * c.logreal(0.003, 1);
  bool many = c.flag(1, 200);
  bool huge = many && c.flag(1, 10);
  int na = int(c.size(0, huge ? 20000 : many ? 1500 : 60)), nb = int(c.size(0, huge ? 20 : many ? 300 : 60));
  if (huge && c.flag()) std::swap(na, nb);
  int ha = c.flag(1, 3) ? int(c.u(7)) : 0, hb = c.flag(1, 3) ? int(c.u(7)) : 0;
  acme::aabb::vecptr A = boxes(c, na, grid, m, w, ha), B = boxes(c, nb, grid, m, w, hb);
  acme::AABBtree ta, tb;
  if (c.flag(1, 4)) ta.build(B); // a tree built before is replaced
  ta.build(A);
  tb.build(B);
  if (c.verbose) {
    for (auto const &b : A) c.log << "A " << str(*b) << "\n";
    for (auto const &b : B) c.log << "B " << str(*b) << "\n";
  }
  CHECK(ta.isEmpty() == (na == 0) && tb.isEmpty() == (nb == 0), "isEmpty");
  size_t pairs = 0;
  std::vector<std::pair<int, int>> want, got;
  for (int i = 0; i < na; ++i) for (int j = 0; j < nb; ++j) if (share(*A[i], *B[j])) want.push_back({i, j});
  acme::aabb::vecpairptr list;
  ta.intersection(tb, list);
  std::set<acme::aabb const *> inA, inB;
  for (auto const &b : A) inA.insert(b.get());
  for (auto const &b : B) inB.insert(b.get());
  for (auto const &q : list) {
    CHECK(inA.count(q.first.get()), "the first box of a pair does not belong to the first tree");
    CHECK(inB.count(q.second.get()), "the second box of a pair does not belong to the second tree");
    got.push_back({q.first->pos(), q.second->pos()});
  }
  std::sort(got.begin(), got.end());
  CHECK(got == want, "trees over " << na << " and " << nb << " boxes: " << want.size() << " pairs overlap, " << got.size() << " reported" << (got.size() == want.size() ? " (others)" : ""));
  // the callback form visits the same pairs until one is accepted
  std::vector<std::pair<int, int>> seen;
  bool r = ta.collision(tb, [&](acme::aabb::ptr const &x, acme::aabb::ptr const &y) {
    seen.push_back({inA.count(x.get()) ? x->pos() : -1, inB.count(y.get()) ? y->pos() : -1});
    return false;
  });
  std::sort(seen.begin(), seen.end());
  CHECK(!r && seen == want, "the collision search visits " << seen.size() << " pairs of " << want.size() << ", result " << r);
  if (!want.empty()) {
    size_t stop = c.u(want.size()), k = 0;
    r = ta.collision(tb, [&](acme::aabb::ptr const &, acme::aabb::ptr const &) { return k++ == stop; });
    CHECK(r && k == stop + 1, "the collision search accepted pair " << stop << ", visited " << k << ", result " << r);
  }
  ta.clear();
  list.clear();
  ta.intersection(tb, list);
  CHECK(ta.isEmpty() && list.empty(), "a cleared tree still meets boxes");
  c.label("empty", na == 0 || nb == 0);
  c.label("one box", na == 1 || nb == 1);
  (void)pairs;
  if (!want.empty() && want.size() < size_t(na) * nb) c.hit();
}

// ---------------------------------------------------------------------------
enum Kind { NONE, POINT, LINE, RAY, PLANE, SEGMENT, TRIANGLE, DISK, BALL, NKIND };
struct Item { int kind; bool degen; acme::entity::ptr p; V ctr, d; double r; };
static Item item(Case &c, bool grid, double m, int kind, bool degen) {
  Item t;
  t.kind = kind;
  t.degen = degen && kind != POINT && kind != NONE;
  t.ctr = V(cell(c, grid, m), cell(c, grid, m), cell(c, grid, m));
  t.d = V(cell(c, grid, 3), cell(c, grid, 3), cell(c, grid, 3));
  if (norm(t.d) < 0.1L) t.d = V(0, 0, 1);
  t.r = grid ? double(c.range(1, 3)) : c.real(0.2, 3);
  if (t.degen) { t.d = V(0, 0, 0); t.r = 0; }
  V o2 = across(norm(t.d) > 0 ? unit(t.d) : V(0, 0, 1));
  V third = t.degen ? t.ctr + V(1, 0, 0) : t.ctr + L(t.r) * o2;
  switch (kind) {
    case NONE: t.p = std::make_shared<acme::none>(); break;
    case POINT: t.p = std::make_shared<acme::point>(pt(t.ctr)); break;
    case LINE: t.p = std::make_shared<acme::line>(pt(t.ctr), ev(t.d)); break;
    case RAY: t.p = std::make_shared<acme::ray>(pt(t.ctr), ev(t.d)); break;
    case PLANE: t.p = std::make_shared<acme::plane>(pt(t.ctr), ev(t.d)); break;
    case SEGMENT: t.p = std::make_shared<acme::segment>(pt(t.ctr), pt(t.ctr + t.d)); break;
    case TRIANGLE: t.p = std::make_shared<acme::triangle>(pt(t.ctr), pt(t.ctr + t.d), pt(rnd(third))); break;
    case DISK: t.p = std::make_shared<acme::disk>(t.r, pt(t.ctr), ev(t.degen ? V(0, 0, 1) : t.d)); break;
    default: t.p = std::make_shared<acme::ball>(t.r, pt(t.ctr)); break;
  }
  return t;
}
static bool clampable(int k) { return k == POINT || k == SEGMENT || k == TRIANGLE || k == DISK || k == BALL; }
static bool endless(int k) { return k == LINE || k == RAY || k == PLANE; }
static char const *kname[] = {"none", "point", "line", "ray", "plane", "segment", "triangle", "disk", "ball"};

PBT(K07, history, 2000000, 80000000, "the collection held at least two kinds and at least one element was removed") {
  acme::collection col;
  std::vector<Item> model;
  bool grid = c.flag(), removed = false, mixed = false;
  double m = 5;
  int steps = int(c.size(1, 14));
  auto removeIf = [&](std::function<bool(Item const &)> f) {
    size_t n = model.size();
    model.erase(std::remove_if(model.begin(), model.end(), f), model.end());
    if (model.size() != n) removed = true;
  };
  for (int s = 0; s < steps; ++s) {
    int op = int(c.u(8));
    if (op < 4) {
      int n = int(c.flag(1, 1000) ? c.range(50, 500) : c.range(1, 6));
      bool onekind = c.flag(1, 4);
      int k = int(c.u(NKIND));
      for (int i = 0; i < n; ++i) {
        if (!onekind) k = int(c.u(NKIND));
        Item t = item(c, grid, m, k, c.flag(1, 8));
        col.push_back(t.p);
        model.push_back(t);
      }
      if (c.verbose) c.log << "push " << n << "\n";
    } else if (op < 6) {
      int k = int(c.u(NKIND + 3));
      if (c.verbose) c.log << "remove " << (k < NKIND ? kname[k] : k == NKIND ? "degenerated" : k == NKIND + 1 ? "clampable" : "non-clampable") << "\n";
      switch (k) {
        case NONE: col.removeNone(); break;
        case POINT: col.removePoint(); break;
        case LINE: col.removeLine(); break;
        case RAY: col.removeRay(); break;
        case PLANE: col.removePlane(); break;
        case SEGMENT: col.removeSegment(); break;
        case TRIANGLE: col.removeTriangle(); break;
        case DISK: col.removeDisk(); break;
        case BALL: col.removeBall(); break;
        case NKIND: col.removeDegenerated(); break;
        case NKIND + 1: col.removeClampable(); break;
        default: col.removeNonClampable(); break;
      }
      if (k < NKIND) removeIf([&](Item const &t) { return t.kind == k; });
      else if (k == NKIND) removeIf([&](Item const &t) { return t.p->isDegenerated(); });
      else if (k == NKIND + 1) removeIf([&](Item const &t) { return clampable(t.kind); });
      else removeIf([&](Item const &t) { return endless(t.kind); });
    } else if (op == 6) {
      if (c.flag(1, 3)) { col.clear(); model.clear(); if (c.verbose) c.log << "clear\n"; }
      else if (!model.empty()) {
        int n = int(c.u(model.size() + 1));
        if (c.verbose) c.log << "resize " << n << "\n";
        col.resize(n);
        model.resize(n);
      }
    } else if (!model.empty()) {
      size_t i = c.u(model.size());
      Item t = item(c, grid, m, int(c.u(NKIND)), false);
      col[int(i)] = t.p;
      model[i] = t;
      if (c.verbose) c.log << "replace " << i << "\n";
    }
    // the collection agrees with the model
    int n = int(model.size());
    CHECK(col.size() == n, "the collection holds " << col.size() << " elements, expected " << n);
    int cnt[NKIND] = {0}, nd = 0, nc = 0, nn = 0;
    for (int i = 0; i < n; ++i) {
      CHECK(col[i].get() == model[i].p.get() && static_cast<acme::collection const &>(col)[i].get() == model[i].p.get(), "element " << i << " is not the one pushed");
      int k = model[i].kind;
      CHECK(col[i]->type() == kname[k] && col[i]->isEntity(), "element " << i << " is a " << kname[k] << ", its type is " << col[i]->type());
      acme::vec3 lo(7, 7, 7), hi(7, 7, 7);
      double l[6];
      bool c1 = col[i]->clamp(lo, hi), c2 = col[i]->clamp(l[0], l[1], l[2], l[3], l[4], l[5]);
      CHECK(c1 == clampable(k) && c2 == c1, "element " << i << " (" << kname[k] << ") has " << (c1 ? "a" : "no") << " box");
      for (int q = 0; c1 && q < 3; ++q) CHECK(lo[q] == l[q] && hi[q] == l[3 + q] && lo[q] <= hi[q], "element " << i << " (" << kname[k] << ") has two boxes");
      ++cnt[k];
      bool is[NKIND] = {col.isNone(i), col.isPoint(i), col.isLine(i), col.isRay(i), col.isPlane(i), col.isSegment(i), col.isTriangle(i), col.isDisk(i), col.isBall(i)};
      for (int q = 0; q < NKIND; ++q) CHECK(is[q] == (q == k), "element " << i << " is a " << kname[k] << ", is-" << kname[q] << " answers " << is[q]);
      CHECK(col.isClampable(i) == clampable(k), "element " << i << " (" << kname[k] << ") isClampable answers " << col.isClampable(i));
      CHECK(col.isNonClampable(i) == endless(k), "element " << i << " (" << kname[k] << ") isNonClampable answers " << col.isNonClampable(i));
      bool dg = k == NONE ? col.isDegenerated(i) : model[i].degen;
      CHECK(col.isDegenerated(i) == dg, "element " << i << " (" << kname[k] << ") isDegenerated answers " << col.isDegenerated(i));
      nd += dg; nc += clampable(k); nn += endless(k);
    }
    int g[NKIND] = {col.countNone(), col.countPoint(), col.countLine(), col.countRay(), col.countPlane(), col.countSegment(), col.countTriangle(), col.countDisk(), col.countBall()};
    bool ct[NKIND] = {col.containNone(), col.containPoint(), col.containLine(), col.containRay(), col.containPlane(), col.containSegment(), col.containTriangle(), col.containDisk(), col.containBall()};
    bool ar[NKIND] = {col.areNone(), col.arePoint(), col.areLine(), col.areRay(), col.arePlane(), col.areSegment(), col.areTriangle(), col.areDisk(), col.areBall()};
    auto mp = col.count();
    int kinds = 0;
    for (int q = 0; q < NKIND; ++q) {
      kinds += cnt[q] > 0;
      CHECK(g[q] == cnt[q] && mp[kname[q]] == cnt[q], "the collection holds " << cnt[q] << " " << kname[q] << "s, counted " << g[q] << " and " << mp[kname[q]]);
      CHECK(ct[q] == (cnt[q] > 0), "contain-" << kname[q] << " answers " << ct[q] << " with " << cnt[q]);
      CHECK(ar[q] == (cnt[q] == n), "are-" << kname[q] << " answers " << ar[q] << " with " << cnt[q] << " of " << n);
    }
    mixed |= kinds > 1;
    acme::entity::vecptr list;
    for (auto const &t : model) list.push_back(t.p);
    acme::collection whole(list);
    CHECK(whole.size() == n && (n == 0 || (whole[0].get() == list[0].get() && whole[n - 1].get() == list[n - 1].get())), "a collection of " << n << " listed elements holds " << whole.size());
    bool refused = false;
    try {
      acme::aabb::vecptr bx; // the list may hold boxes already
      if (c.flag(1, 3)) bx.assign(c.u(size_t(n) + 3), std::make_shared<acme::aabb const>(0.0, 0.0, 0.0, 1.0, 1.0, 1.0, 77, 77));
      whole.clamp(bx);
      CHECK(int(bx.size()) == n, n << " elements have " << bx.size() << " boxes");
      for (int i = 0; i < n; ++i) CHECK(bx[size_t(i)]->id() == i, "the box of element " << i << " is numbered " << bx[size_t(i)]->id());
    } catch (std::exception const &) { refused = true; }
    CHECK(refused == (nc != n), "boxes of a collection with " << n - nc << " of " << n << " elements without box are " << (refused ? "" : "not ") << "refused");
    { // the same with a tolerance of one's own: every element answers for itself
      double tol = c.logreal(1e-9, 10);
      int k = 0;
      for (int i = 0; i < n; ++i) {
        bool d = model[i].p->isDegenerated(tol);
        CHECK(col.isDegenerated(i, tol) == d, "element " << i << " (" << kname[model[i].kind] << ") isDegenerated(" << tol << ") answers " << !d);
        k += d;
      }
      CHECK(col.countDegenerated(tol) == k && col.count(tol)["degenerated"] == k && col.containDegenerated(tol) == (k > 0) && col.areDegenerated(tol) == (k == n), "degenerated within " << tol << ": " << k << " of " << n << ", counted " << col.countDegenerated(tol));
      whole.removeDegenerated(tol);
      CHECK(whole.size() == n - k, "removing " << k << " of " << n << " elements degenerated within " << tol << " left " << whole.size());
      if (k > nd) c.label("degenerated within a tolerance");
    }
    CHECK(col.countDegenerated() == nd && mp["degenerated"] == nd && col.containDegenerated() == (nd > 0) && col.areDegenerated() == (nd == n), "degenerated: " << nd << " of " << n << ", counted " << col.countDegenerated());
    CHECK(col.countClampable() == nc && mp["clampable"] == nc && col.containClampable() == (nc > 0) && col.areClampable() == (nc == n), "clampable: " << nc << " of " << n << ", counted " << col.countClampable());
    CHECK(col.countNonClampable() == nn && mp["non-clampable"] == nn && col.containNonClampable() == (nn > 0) && col.areNonClampable() == (nn == n), "non-clampable: " << nn << " of " << n << ", counted " << col.countNonClampable());
  }
  c.label("removed", removed);
  c.label("mixed", mixed);
  if (removed && mixed) c.hit();
}

// motions reach every element
static V key(Item const &t, int i) { // characteristic points of an element
  switch (t.kind) {
    case POINT: return V::of(*std::dynamic_pointer_cast<acme::point>(t.p));
    case LINE: { auto const &l = *std::dynamic_pointer_cast<acme::line>(t.p); return V::of(l.origin()) + (i ? V::of(l.direction()) : V()); }
    case RAY: { auto const &l = *std::dynamic_pointer_cast<acme::ray>(t.p); return V::of(l.origin()) + (i ? V::of(l.direction()) : V()); }
    case PLANE: { auto const &l = *std::dynamic_pointer_cast<acme::plane>(t.p); return V::of(l.origin()) + (i ? V::of(l.normal()) : V()); }
    case SEGMENT: return V::of(std::dynamic_pointer_cast<acme::segment>(t.p)->vertex(i % 2));
    case TRIANGLE: return V::of(std::dynamic_pointer_cast<acme::triangle>(t.p)->vertex(i % 3));
    case DISK: { auto const &l = *std::dynamic_pointer_cast<acme::disk>(t.p); return V::of(l.center()) + (i ? V::of(l.normal()) : V()); }
    case BALL: return V::of(std::dynamic_pointer_cast<acme::ball>(t.p)->center());
    default: return V();
  }
}
PBT(K07, motions, 2000000, 100000000, "at least two kinds were moved") {
  acme::collection col;
  std::vector<Item> model;
  int n = int(c.size(1, c.flag(1, 2000) ? 400 : 12));
  std::set<int> kinds;
  for (int i = 0; i < n; ++i) { Item t = item(c, false, 5, int(c.u(NKIND)), false); kinds.insert(t.kind); col.push_back(t.p); model.push_back(t); }
  std::vector<V> before, after;
  for (auto const &t : model) for (int i = 0; i < 3; ++i) before.push_back(key(t, i));
  V ax = dir(c), tr(c.sreal(5), c.sreal(5), c.sreal(5));
  double an = c.sreal(3.1);
  int how = int(c.u(3));
  V px = ax, py = across(ax), pz = cross(px, py);
  auto rot = [&](V v) { L a = dot(v, px), b = dot(v, py), d = dot(v, pz), cs = std::cos(L(an)), sn = std::sin(L(an)); return a * px + (cs * b - sn * d) * py + (sn * b + cs * d) * pz; };
  if (how == 0) col.translate(ev(tr));
  else if (how == 1) col.rotate(an, ev(ax));
  else {
    acme::affine M;
    M.setIdentity();
    M = Eigen::Translation<double, 3>(ev(tr)) * Eigen::AngleAxis<double>(an, ev(ax));
    col.transform(M);
  }
  if (c.verbose) c.log << n << " elements, " << (how == 0 ? "translate" : how == 1 ? "rotate" : "transform") << " axis " << ax << " angle " << an << " by " << tr << "\n";
  for (auto const &t : model) for (int i = 0; i < 3; ++i) after.push_back(key(t, i));
  for (size_t k = 0; k < before.size(); ++k) {
    if (model[k / 3].kind == NONE) continue;
    V want = how == 0 ? before[k] + tr : how == 1 ? rot(before[k]) : rot(before[k]) + tr;
    CHECK(near(after[k], want, 1e-11L * coord({want, before[k], tr})), "after the motion a " << kname[model[k / 3].kind] << " has " << before[k] << " at " << after[k] << " instead of " << want);
  }
  if (kinds.size() > 1) c.hit();
}

// queries through the box tree
PBT(K07, queries, 1500000, 60000000, "some element meets the query and another does not") {
  bool grid = c.flag();
  double m = grid ? double(c.range(1, 8)) : 8;
  auto fill = [&](acme::collection &col, std::vector<Item> &model, int n) {
    static int const ks[] = {POINT, SEGMENT, TRIANGLE, DISK, BALL};
    for (int i = 0; i < n; ++i) { Item t = item(c, grid, m, ks[c.u(5)], false); col.push_back(t.p); model.push_back(t); }
  };
  auto bounds = [&](Item const &t) { acme::vec3 a, b; CHECK(t.p->clamp(a, b), "a " << kname[t.kind] << " has no box"); return acme::aabb(acme::point(a), acme::point(b)); };
  acme::collection A, B, out;
  std::vector<Item> ma, mb;
  int most = c.flag(1, 400) ? 200 : 25;
  fill(A, ma, int(c.size(0, most)));
  if (c.flag(1, 4)) A.buildAABBtree(), fill(A, ma, 3); // built again after more were pushed
  fill(B, mb, int(c.size(0, most)));
  A.buildAABBtree();
  B.buildAABBtree();
  Item junk = item(c, grid, m, POINT, false);
  out.push_back(junk.p);
  size_t pairs = 0;
  acme::aabb::vecptr bx;
  if (c.flag(1, 3)) bx.assign(c.u(40), std::make_shared<acme::aabb const>(0.0, 0.0, 0.0, 1.0, 1.0, 1.0, 77, 77));
  A.clamp(bx);
  CHECK(bx.size() == ma.size(), ma.size() << " elements have " << bx.size() << " boxes");
  for (size_t i = 0; i < ma.size(); ++i) {
    acme::aabb b = bounds(ma[i]);
    for (int k = 0; k < 3; ++k) CHECK(bx[i]->min(k) == b.min(k) && bx[i]->max(k) == b.max(k) && bx[i]->id() == int(i), "box " << i << " is " << str(*bx[i]) << ", the element's is " << str(b));
  }
  auto listed = [&](acme::collection &o, size_t step) {
    std::vector<std::pair<acme::entity *, acme::entity *>> v;
    for (int i = 0; i + int(step) <= o.size(); i += int(step)) v.push_back({o[i].get(), step == 2 ? o[i + 1].get() : nullptr});
    std::sort(v.begin(), v.end());
    return v;
  };
  std::vector<std::pair<acme::entity *, acme::entity *>> want;
  int how = int(c.u(4));
  bool r;
  if (how == 0) { // one box
    acme::aabb q = box(c, grid, m, m, 0, 0);
    for (auto const &t : ma) if (share(bounds(t), q)) want.push_back({t.p.get(), nullptr});
    r = A.intersection(std::make_shared<acme::aabb const>(q), out);
  } else if (how == 1) { // boxes: an element is listed once per box it meets
    acme::aabb::vecptr q = boxes(c, int(c.size(0, 8)), grid, m, m, 0);
    for (auto const &t : ma) for (auto const &b : q) if (share(bounds(t), *b)) want.push_back({t.p.get(), nullptr});
    r = A.intersection(q, out);
  } else if (how == 2) { // the tree of another collection
    for (auto const &t : ma) for (auto const &u : mb) if (share(bounds(t), bounds(u))) want.push_back({t.p.get(), nullptr});
    r = A.intersection(B.ptrAABBtree(), out);
  } else { // pairs with another collection
    for (auto const &t : ma) for (auto const &u : mb) if (share(bounds(t), bounds(u))) want.push_back({t.p.get(), u.p.get()});
    r = A.intersection(B, out);
  }
  (void)pairs;
  std::sort(want.begin(), want.end());
  auto got = listed(out, how == 3 ? 2 : 1);
  CHECK(r == !want.empty(), want.size() << " candidates, answered " << r);
  CHECK(got == want, want.size() << " candidates expected, " << got.size() << " listed" << (got.size() == want.size() ? " (others)" : ""));
  // a copy and its original go separate ways
  if (c.flag(1, 3)) {
    auto all = [&](acme::collection &col, std::vector<Item> const &ms, char const *what) {
      acme::aabb q = box(c, grid, m, m, 0, 0);
      std::vector<std::pair<acme::entity *, acme::entity *>> w;
      for (auto const &t : ms) if (share(bounds(t), q)) w.push_back({t.p.get(), nullptr});
      std::sort(w.begin(), w.end());
      acme::collection o;
      bool got2 = col.intersection(std::make_shared<acme::aabb const>(q), o);
      CHECK(got2 == !w.empty() && listed(o, 1) == w, what << ": " << w.size() << " of " << ms.size() << " candidates expected, " << o.size() << " listed");
    };
    acme::collection C(A);
    std::vector<Item> mc = ma;
    bool first = c.flag();
    acme::collection &x = first ? A : C, &y = first ? C : A;
    std::vector<Item> &mx = first ? ma : mc, &my = first ? mc : ma;
    all(C, mc, "a copied collection");
    if (c.flag()) { x.clear(); mx.clear(); all(x, mx, "a cleared collection"); c.label("cleared"); }
    fill(x, mx, int(c.range(0, 4)));
    x.buildAABBtree();
    all(x, mx, first ? "the changed original" : "the changed copy");
    all(y, my, first ? "the copy of a changed collection" : "the original of a changed copy");
    c.label("copied");
  }
  static char const *nm[] = {"box", "boxes", "tree", "pairs"};
  c.label(nm[how]);
  if (!want.empty() && want.size() < ma.size() * (how == 0 ? 1 : std::max<size_t>(1, mb.size()))) c.hit();
}
