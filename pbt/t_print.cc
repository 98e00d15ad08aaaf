// P02: printed geometric objects and box trees
#include "kgen.hh"
#include <iomanip>
#include <memory>
using namespace mdl;
using namespace kg;
using pbt::Case;

// what a printed object must state: a label and the numbers that follow it
struct Field { std::string label; std::vector<double> v; };
static bool agrees(double printed, double v) {
  if (std::isnan(v)) return std::isnan(printed);
  return std::fabs(printed - v) <= 0.501e-6 * std::fabs(v) + 1e-320;
}
static std::vector<double> numbers(std::string const &t, size_t at, size_t n) {
  std::vector<double> r;
  while (at < t.size() && r.size() < n) {
    char ch = t[at];
    bool start = std::isdigit((unsigned char)ch) || ch == '-' || ch == '+' || ch == '.' || ((ch == 'n' || ch == 'N') && (t.compare(at, 3, "nan") == 0 || t.compare(at, 3, "NAN") == 0));
    if (!start) { ++at; continue; }
    char *end;
    double d = std::strtod(t.c_str() + at, &end);
    if (end == t.c_str() + at) { ++at; continue; }
    r.push_back(d);
    at = size_t(end - t.c_str());
  }
  return r;
}
static void states(std::string const &text, std::vector<Field> const &fs, char const *what) {
  size_t at = 0;
  for (auto const &f : fs) {
    size_t p = text.find(f.label, at);
    CHECK(p != std::string::npos, "a printed " << what << " does not name its " << f.label << ": " << text);
    at = p + f.label.size();
    std::vector<double> g = numbers(text, at, f.v.size());
    CHECK(g.size() == f.v.size(), "a printed " << what << " gives " << g.size() << " numbers for its " << f.label << ": " << text);
    for (size_t i = 0; i < g.size(); ++i)
      CHECK(agrees(g[i], f.v[i]), "a " << what << " whose " << f.label << " has " << f.v[i] << " at place " << i << " is printed as " << g[i] << ": " << text);
  }
  // nothing but the named numbers
  size_t want = 0, digits = 0;
  for (auto const &f : fs) want += f.v.size() + (std::isdigit((unsigned char)f.label.back()) ? 1 : 0);
  digits = numbers(text, 0, 1000).size();
  CHECK(digits == want, "a printed " << what << " holds " << digits << " numbers instead of " << want << ": " << text);
}
static double value(Case &c) {
  switch (c.u(6)) {
    case 0: return double(c.range(-9, 9));
    case 1: return c.logreal(1e-12, 1e12) * (c.flag() ? -1 : 1);
    case 2: return 9.9999996 * std::pow(10.0, double(c.range(-5, 5))); // rounds up to the next decade
    default: return c.sreal(100);
  }
}
static std::vector<double> three(acme::vec3 const &v) { return {v(0), v(1), v(2)}; }
static void disturb(Case &c, std::ostream &os) { // whatever was printed before
  switch (c.u(6)) {
    case 1: os << std::fixed << std::setprecision(2); break;
    case 2: os << std::hex << std::showbase; break;
    case 3: os << std::hexfloat; break;
    case 4: os << std::showpos << std::uppercase; break;
    case 5: os << std::noshowpoint << std::setprecision(15) << std::left; break;
    default: break;
  }
}
PBT(P02, entities, 600000, 30000000, "at least one object with a value that is not a small whole number was printed") {
  std::ostringstream os;
  disturb(c, os);
  int n = int(c.range(1, 3));
  bool rich = false;
  for (int k = 0; k < n; ++k) {
    os.str("");
    double x[9];
    for (double &d : x) { d = value(c); rich |= d != std::floor(d) || std::fabs(d) > 9; }
    acme::point  p(x[0], x[1], x[2]), q(x[3], x[4], x[5]), r(x[6], x[7], x[8]);
    acme::vec3   v(x[3], x[4], x[5]);
    double       rad = std::fabs(x[6]);
    bool         blank = c.flag(1, 12); // an object never given a value
    std::vector<Field> f;
    static char const *nm[] = {"vector", "point", "line", "ray", "plane", "segment", "box", "triangle", "disk", "ball", "transformation"};
    int what = int(c.u(11));
    switch (what) {
      case 0: acme::operator<<(os, v); f = {{"[", three(v)}}; break;
      case 1: { acme::point o = blank ? acme::point() : p; os << o; f = {{"[", three(o)}}; break; }
      case 2: { acme::line o = blank ? acme::line() : acme::line(p, v); os << o; f = {{"Line origin", three(o.origin())}, {"Line direction", three(o.direction())}}; break; }
      case 3: { acme::ray o = blank ? acme::ray() : acme::ray(p, v); os << o; f = {{"Ray origin", three(o.origin())}, {"Ray direction", three(o.direction())}}; break; }
      case 4: { acme::plane o = blank ? acme::plane() : acme::plane(p, v); os << o; f = {{"Plane origin", three(o.origin())}, {"Plane normal", three(o.normal())}}; break; }
      case 5: { acme::segment o = blank ? acme::segment() : acme::segment(p, q); os << o; f = {{"Segment vertex 0", three(o.vertex(0))}, {"Segment vertex 1", three(o.vertex(1))}}; break; }
      case 6: {
        acme::aabb o = blank ? acme::aabb() : acme::aabb(p, q, 3, 4);
        os << o;
        f = {{"Aabb minimum point", {o.min(0), o.min(1), o.min(2)}}, {"Aabb maximum point", {o.max(0), o.max(1), o.max(2)}}};
        break;
      }
      case 7: { acme::triangle o = blank ? acme::triangle() : acme::triangle(p, q, r); os << o; f = {{"Triangle vertex 0", three(o.vertex(0))}, {"Triangle vertex 1", three(o.vertex(1))}, {"Triangle vertex 2", three(o.vertex(2))}}; break; }
      case 8: { acme::disk o = blank ? acme::disk() : acme::disk(rad, p, v); os << o; f = {{"Disk radius", {o.radius()}}, {"Disk center", three(o.center())}, {"Disk normal", three(o.normal())}}; break; }
      case 9: { acme::ball o = blank ? acme::ball() : acme::ball(rad, p); os << o; f = {{"Ball radius", {o.radius()}}, {"Ball center", three(o.center())}}; break; }
      default: {
        acme::affine M;
        M.setIdentity();
        for (int i = 0; i < 9; ++i) M.matrix()(i / 3, i % 3) = x[i];
        for (int i = 0; i < 3; ++i) M.matrix()(i, 3) = value(c);
        acme::operator<<(os, M);
        std::vector<double> all;
        for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) all.push_back(M.matrix()(i, j));
        f = {{"Affine", all}};
        break;
      }
    }
    if (c.verbose) c.log << nm[what] << ": " << os.str() << "\n";
    states(os.str(), f, nm[what]);
    c.label(nm[what]);
    c.label("blank", blank);
  }
  if (rich) c.hit();
}
PBT(P02, trees, 200000, 10000000, "the tree holds at least two different boxes") {
  int n = int(c.size(0, 40));
  acme::aabb::vecptr v;
  std::multiset<std::string> want;
  auto put = [](double const *b) { std::ostringstream o; o << std::scientific << std::setprecision(6); for (int i = 0; i < 6; ++i) o << (b[i] == 0 ? 0.0 : b[i]) << " "; return o.str(); };
  double lo[3] = {1e300, 1e300, 1e300}, hi[3] = {-1e300, -1e300, -1e300}, m = c.logreal(0.01, 1000);
  for (int i = 0; i < n; ++i) {
    double b[6];
    for (int k = 0; k < 3; ++k) { b[k] = c.sreal(m); b[3 + k] = b[k] + c.real(0, m); lo[k] = std::min(lo[k], b[k]); hi[k] = std::max(hi[k], b[3 + k]); }
    v.push_back(std::make_shared<acme::aabb const>(b[0], b[1], b[2], b[3], b[4], b[5], i, i));
    want.insert(put(b));
  }
  acme::AABBtree t;
  if (c.flag(1, 2) || n) t.build(v);
  std::ostringstream os;
  disturb(c, os);
  t.print(os, int(c.u(3)));
  std::string text = os.str();
  if (c.verbose) c.log << n << " boxes\n" << text;
  std::vector<std::vector<double>> got;
  for (size_t at = text.find("Minimum"); at != std::string::npos; at = text.find("Minimum", at + 1)) {
    size_t e = text.find("Maximum", at);
    CHECK(e != std::string::npos, "a box of the printed tree has no maximum");
    std::vector<double> a = numbers(text, at, 3), b = numbers(text, e, 3);
    a.insert(a.end(), b.begin(), b.end());
    CHECK(a.size() == 6, "a box of the printed tree is not six numbers");
    got.push_back(a);
  }
  if (n == 0) {
    CHECK(got.empty() && !text.empty(), "an empty tree prints " << text);
    c.label("empty");
    return;
  }
  CHECK(!got.empty(), "a tree of " << n << " boxes prints none");
  for (int k = 0; k < 3; ++k) CHECK(agrees(got[0][k], lo[k]) && agrees(got[0][3 + k], hi[k]), "the tree's own box is printed with [" << got[0][k] << ", " << got[0][3 + k] << "] along axis " << k << ", the boxes span [" << lo[k] << ", " << hi[k] << "]");
  std::multiset<std::string> have;
  for (auto const &g : got) have.insert(put(g.data()));
  for (auto const &w : want) {
    auto it = have.find(w);
    CHECK(it != have.end(), "the box " << w << "is missing from the printed tree");
    have.erase(it);
  }
  if (std::set<std::string>(want.begin(), want.end()).size() > 1) c.hit();
}
