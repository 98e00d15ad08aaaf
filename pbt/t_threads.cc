// C12: shells at work in several threads on shared constant grounds (built with ThreadSanitizer)
#include "ground.hh"
#include <atomic>
#include <thread>

static void put(std::vector<double> &k, acme::vec3 const &v) { for (int i = 0; i < 3; ++i) k.push_back(v(i)); }
static void answers(enve::shell const &s, std::vector<double> &k) {
  acme::point p; acme::vec3 v; double d = 0; acme::affine a;
  s.contactPoint(p); put(k, p);
  s.contactNormal(v); put(k, v);
  s.contactDepth(d); k.push_back(d);
  s.contactFriction(d); k.push_back(d);
  s.contactArea(d); k.push_back(d);
  s.contactVolume(d); k.push_back(d);
  s.relativeAngles(v); put(k, v);
  s.eulerAngles(v); put(k, v);
  s.contactPointAffine(a);
  for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) k.push_back(a(i, j));
  for (size_t i = 0; i < s.size(); ++i) {
    s.contactPoint(i, p); put(k, p);
    s.contactNormal(i, v); put(k, v);
    s.contactDepth(i, d); k.push_back(d);
    s.contactFriction(i, d); k.push_back(d);
    s.contactArea(i, d); k.push_back(d);
    s.contactVolume(i, d); k.push_back(d);
    s.relativeAngles(i, v); put(k, v);
    k.push_back(s.ribRadius(i)); k.push_back(s.ribAngle(i)); k.push_back(s.ribWidth(i));
    put(k, s.ribCenter(i));
  }
  for (int i = -2; i <= 2; ++i) { double y = s.surfaceWidth() * i / 4.0; k.push_back(s.surfaceRadius(y)); k.push_back(s.surfaceDerivative(y)); k.push_back(s.surfaceAngle(y)); }
}
struct Step { int what; size_t ground; Pose p; std::string m; size_t n; };
struct Job { Shape s; size_t n; std::vector<Step> steps; std::vector<double> got; bool touch = false; };

static void work(Job &j, std::vector<Ground> const &gs, enve::shell const &common, std::vector<double> &out) {
  auto S = gen::lib(j.s, j.n);
  for (auto const &st : j.steps) switch (st.what) {
    case 0: { bool r = gs[st.ground].setup(*S, aff(st.p), st.m); out.push_back(r); j.touch |= r; answers(*S, out); break; }
    case 1: { std::ostringstream o; S->print(o); out.push_back(double(o.str().size())); break; }
    case 2: S->resize(st.n); break;
    case 3: S->translate(acme::vec3(0.1, 0.2, 0.3)); S->rotate(0.1, acme::vec3(0, 0, 1)); put(out, S->translation()); break;
    case 4: answers(common, out); break; // a shell nobody changes
    case 5: { // the ground is read
      Ground const &g = gs[st.ground];
      if (g.mesh) {
        enve::ground::mesh const &m = *g.mesh;
        std::ostringstream o;
        for (size_t i = 0; i < std::min<size_t>(m.size(), 4); ++i) { auto t = m.ptrTriangleground(unsigned(i)); put(out, t->normal()); out.push_back(t->friction()); }
        enve::ground::mesh k;
        k.copy(m); // a copy of its own
        bool r = S->setup(k, aff(st.p), st.m);
        out.push_back(r);
        answers(*S, out);
      } else {
        enve::ground::flat const &f = *g.flat;
        put(out, f.origin()); put(out, f.normal()); out.push_back(f.friction());
        enve::ground::flat k;
        k.copy(f);
        out.push_back(S->setup(k, aff(st.p), st.m));
        answers(*S, out);
      }
      break;
    }
    default: { // a ground of its own
      std::vector<Tri> const ts = gs[st.ground].ts; // a copy: libtris notes the faces in it
      if (ts.empty()) break;
      enve::ground::mesh own(gen::libtris(ts));
      out.push_back(S->setup(own, aff(st.p), st.m));
      answers(*S, out);
    }
  }
}

PBT(C12, threads, 14000, 400000, "at least two threads worked at once and had contact with the same mesh or plane") {
  int T = int(c.range(2, 4));
  Shape s0 = gen::shape(c);
  Pose p0 = gen::pose(c, false);
  gen::note(c, s0, size_t(T), p0);
  std::vector<Ground> gs;
  int ng = c.flag(3, 4) ? 1 : 2;
  for (int i = 0; i < ng; ++i) gs.push_back(ground(c, s0, p0, 15));
  size_t nc = gen::ribs(c, 4);
  auto common = gen::lib(s0, nc);
  gs[0].setup(*common, aff(p0), method(c));
  std::vector<Job> jobs(static_cast<size_t>(T));
  for (auto &j : jobs) {
    j.s = c.flag() ? s0 : gen::shape(c);
    j.n = gen::ribs(c, 6);
    int k = int(c.size(1, 6));
    for (int i = 0; i < k; ++i) {
      Step st;
      st.what = c.flag(2, 3) ? 0 : int(c.u(7));
      st.ground = c.u(gs.size());
      st.p = p0;
      if (c.flag()) st.p.t = p0.t + s0.Rx * V(c.sreal(0.3), c.sreal(0.3), c.sreal(0.2));
      if (c.flag(1, 3)) { Pose q = gen::pose(c, false); st.p.R = q.R; }
      st.p = pose_of(aff(st.p));
      st.m = method(c);
      st.n = gen::ribs(c, 6);
      j.steps.push_back(st);
      if (c.verbose) c.log << "thread " << (&j - &jobs[0]) << ": step " << st.what << " ground " << st.ground << " " << st.m << "\n";
    }
  }
  int touched = 0;
  // a schedule cannot be replayed: whoever looks at one case runs it many times
  for (int round = 0; round < (c.verbose ? 25 : 1); ++round) {
    // at once, on grounds that nobody has used before, then one after the other
    std::vector<Ground> fresh;
    for (auto &g : gs) {
      Ground k;
      k.g = g.g;
      k.ts = g.ts;
      if (g.mesh) k.mesh.reset(new enve::ground::mesh(gen::libtris(g.ts)));
      else { Flat a = k.g, b = k.g; k.flat = gen::lib(a); g.flat = gen::lib(b); } // both made from the same numbers
      fresh.push_back(std::move(k));
    }
    std::atomic<int> ready(0);
    std::vector<std::string> bad(jobs.size());
    {
      std::vector<std::thread> th;
      for (size_t i = 0; i < jobs.size(); ++i) {
        jobs[i].got.clear();
        th.emplace_back([&, i]() {
          ready.fetch_add(1, std::memory_order_relaxed);
          while (ready.load(std::memory_order_relaxed) < T) std::this_thread::yield();
          try { work(jobs[i], fresh, *common, jobs[i].got); } catch (std::exception const &e) { bad[i] = e.what(); }
        });
      }
      for (auto &t : th) t.join();
    }
    touched = 0;
    for (size_t i = 0; i < jobs.size(); ++i) {
      touched += jobs[i].touch;
      std::vector<double> alone;
      std::string why;
      try { work(jobs[i], gs, *common, alone); } catch (std::exception const &e) { why = e.what(); }
      CHECK(why == bad[i], "thread " << i << ": '" << bad[i] << "', alone: '" << why << "'");
      bool same = alone.size() == jobs[i].got.size() && (alone.empty() || std::memcmp(alone.data(), jobs[i].got.data(), alone.size() * sizeof(double)) == 0);
      CHECK(same, "thread " << i << " of " << T << " gets other results than alone");
    }
  }
  c.label(gs[0].mesh ? "mesh" : "flat");
  c.label("touch", touched > 0);
  if (touched > 1) c.hit();
}
