// An interpreter for the part of MATLAB in which class wrappers are written: classdef files with
// methods, control flow, matrices, strings, cells, indexing, anonymous functions and the usual
// numerical functions. Everything else (gateways, drawing, foreign classes) is the host's.
// MError is an error the program raises; Unsupported is a construct the interpreter does not know.
#pragma once
#include <algorithm>
#include <cctype>
#include <cmath>
#include <fstream>
#include <functional>
#include <limits>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <vector>

namespace ml {
struct MError { std::string msg; };
struct Unsupported { std::string what; };
struct Node;
struct Obj;
struct Value {
  enum K { NUM, STR, CELL, OBJ, STRUCT, FUN, COLON } k = NUM;
  size_t r = 0, c = 0;
  std::vector<double> x;
  bool logical = false, quoted = false; // quoted: a "string", not a 'char array'
  bool u64 = false;                     // a handle: h holds the exact value
  uint64_t h = 0;
  std::string s;
  std::vector<Value> cells;
  std::map<std::string, Value> fields;
  std::shared_ptr<Obj> o;
  std::shared_ptr<std::pair<std::vector<std::string>, Node const *>> fn;
  std::map<std::string, Value> captured;
  static Value num(double d) { Value v; v.r = v.c = 1; v.x = {d}; return v; }
  static Value log(bool b) { Value v = num(b); v.logical = true; return v; }
  static Value mat(size_t r, size_t c, std::vector<double> x = {}) { Value v; v.r = r; v.c = c; v.x = x; v.x.resize(r * c); return v; }
  static Value str(std::string const &t, bool q = false) { Value v; v.k = STR; v.s = t; v.quoted = q; v.r = 1; v.c = q ? 1 : t.size(); return v; }
  static Value handle(uint64_t h) { Value v = num(double(h)); v.u64 = true; v.h = h; return v; }
  size_t count() const { return r * c; }
};
struct Obj {
  std::string cls;
  std::map<std::string, Value> f;
  std::function<void(Obj &)> end; // the destructor
  ~Obj() { if (end) { try { end(*this); } catch (...) {} } }
};
typedef std::vector<Value> Values;

// --- words ----------------------------------------------------------------
struct Tok { enum T { NUM, STR, ID, OP, NL, END } t; std::string s; bool space; bool quoted; int line; };
inline bool word(char c) { return std::isalnum((unsigned char)c) || c == '_'; }
inline std::vector<Tok> lex(std::string const &src) {
  std::vector<Tok> out;
  std::vector<char> br;
  size_t i = 0, n = src.size();
  int line = 1;
  bool space = false;
  auto operand = [&] { if (out.empty()) return false; Tok const &t = out.back(); return t.t == Tok::ID || t.t == Tok::NUM || t.t == Tok::STR || (t.t == Tok::OP && (t.s == ")" || t.s == "]" || t.s == "}" || t.s == "'" || t.s == ".'")); };
  static std::set<std::string> const kw{"if", "elseif", "else", "end", "for", "while", "switch", "case", "otherwise", "return", "break", "continue", "function", "try", "catch"};
  auto keyword = [&] { return !out.empty() && out.back().t == Tok::ID && br.empty() && kw.count(out.back().s); };
  auto push = [&](Tok::T t, std::string const &s, bool q = false) { out.push_back(Tok{t, s, space, q, line}); space = false; };
  auto separate = [&] { // white space parts the elements of a matrix
    if (!br.empty() && br.back() != '(' && space && operand()) { out.push_back(Tok{Tok::OP, ",", false, false, line}); }
  };
  auto blank_line_before = [&](size_t at) { while (at > 0 && (src[at - 1] == ' ' || src[at - 1] == '\t')) --at; return at == 0 || src[at - 1] == '\n'; };
  while (i < n) {
    char ch = src[i];
    if (ch == ' ' || ch == '\t' || ch == '\r') { space = true; ++i; continue; }
    if (ch == '.' && src.compare(i, 3, "...") == 0) { while (i < n && src[i] != '\n') ++i; ++i; ++line; space = true; continue; }
    if (ch == '%') {
      size_t e = src.find('\n', i);
      std::string rest = src.substr(i, (e == std::string::npos ? n : e) - i);
      while (!rest.empty() && std::isspace((unsigned char)rest.back())) rest.pop_back();
      if (rest == "%{" && blank_line_before(i)) {
        int depth = 0;
        while (i < n) {
          size_t q = src.find('\n', i);
          std::string l = src.substr(i, (q == std::string::npos ? n : q) - i);
          size_t a = l.find_first_not_of(" \t\r"), b = l.find_last_not_of(" \t\r");
          l = a == std::string::npos ? "" : l.substr(a, b - a + 1);
          if (l == "%{") ++depth;
          if (l == "%}") --depth;
          i = q == std::string::npos ? n : q + 1;
          ++line;
          if (!depth) break;
        }
        continue;
      }
      while (i < n && src[i] != '\n') ++i;
      continue;
    }
    if (ch == '\n') {
      if (br.empty()) push(Tok::NL, "\n");
      else if (br.back() != '(') { if (!out.empty() && out.back().s != ";" && out.back().s != "[" && out.back().s != "{") push(Tok::OP, ";"); }
      space = true; ++line; ++i;
      continue;
    }
    if (ch == '"' || (ch == '\'' && !(operand() && !keyword() && !(space && !br.empty() && br.back() != '(')))) {
      separate();
      std::string s;
      ++i;
      for (;; ++i) {
        if (i >= n || src[i] == '\n') throw Unsupported{"unterminated string"};
        if (src[i] == ch) { if (i + 1 < n && src[i + 1] == ch) { s += ch; ++i; continue; } break; }
        s += src[i];
      }
      ++i;
      push(Tok::STR, s, ch == '"');
      continue;
    }
    if (std::isdigit((unsigned char)ch) || (ch == '.' && i + 1 < n && std::isdigit((unsigned char)src[i + 1]))) {
      separate();
      size_t b = i;
      while (i < n && std::isdigit((unsigned char)src[i])) ++i;
      if (i < n && src[i] == '.' && !(i + 1 < n && (src[i + 1] == '*' || src[i + 1] == '/' || src[i + 1] == '^' || src[i + 1] == '\''))) { ++i; while (i < n && std::isdigit((unsigned char)src[i])) ++i; }
      if (i < n && (src[i] == 'e' || src[i] == 'E')) { size_t k = i + 1; if (k < n && (src[k] == '+' || src[k] == '-')) ++k; if (k < n && std::isdigit((unsigned char)src[k])) { i = k; while (i < n && std::isdigit((unsigned char)src[i])) ++i; } }
      push(Tok::NUM, src.substr(b, i - b));
      continue;
    }
    if (std::isalpha((unsigned char)ch) || ch == '_') {
      separate();
      size_t b = i;
      while (i < n && word(src[i])) ++i;
      push(Tok::ID, src.substr(b, i - b));
      continue;
    }
    static char const *two[] = {"==", "~=", "!=", "<=", ">=", "&&", "||", ".*", "./", ".^", ".'", ".\\"};
    std::string op(1, ch);
    for (auto t : two) if (src.compare(i, 2, t) == 0) op = t;
    if (op == "(" || op == "[" || op == "{") { if (op != "(" || space) separate(); br.push_back(ch); push(Tok::OP, op); ++i; continue; }
    if (op == ")" || op == "]" || op == "}") { if (!br.empty()) br.pop_back(); push(Tok::OP, op); ++i; continue; }
    if ((op == "+" || op == "-") && i + 1 < n && src[i + 1] != ' ' && src[i + 1] != '\t') separate();
    else if (op == "@" || op == "~") separate();
    if ((op == ";" || op == ",") && br.empty()) { push(Tok::NL, op); ++i; continue; }
    push(Tok::OP, op);
    i += op.size();
  }
  push(Tok::NL, "\n");
  push(Tok::END, "");
  return out;
}

// --- trees ------------------------------------------------------------------
struct Node {
  enum T { NUM, STR, CHAIN, BIN, UN, POST, RANGE, MATRIX, CELLS, ALL, ANON, NAMED, // expressions
           EXPR, ASSIGN, IF, FOR, WHILE, SWITCH, RETURN, BREAK, CONTINUE, BLOCK, COMMAND } t;
  std::string s;
  double d = 0;
  bool quoted = false;
  std::vector<std::unique_ptr<Node>> k;
  struct Link { char t; std::string name; std::vector<std::unique_ptr<Node>> args; };
  std::vector<Link> links;
  std::vector<std::vector<std::unique_ptr<Node>>> rows;
  std::vector<std::string> names;
  explicit Node(T q) : t(q) {}
};
typedef std::unique_ptr<Node> P;
struct Func { std::string name; std::vector<std::string> in, out; P body; std::string unsupported; bool hidden = false; };
struct Class { std::string name, base; std::map<std::string, Func> m; std::set<std::string> props; };

class Parser {
  std::vector<Tok> v;
  size_t i = 0;
  Tok const &at(size_t d = 0) const { return v[std::min(i + d, v.size() - 1)]; }
  bool op(char const *s) const { return at().t == Tok::OP && at().s == s; }
  bool id(char const *s) const { return at().t == Tok::ID && at().s == s; }
  bool eat(char const *s) { if (op(s)) { ++i; return true; } return false; }
  void need(char const *s) { if (!eat(s)) fail(std::string("expected ") + s); }
  [[noreturn]] void fail(std::string const &w) const { throw Unsupported{"line " + std::to_string(at().line) + ": " + w + " at '" + at().s + "'"}; }
  void newlines() { while (at().t == Tok::NL) ++i; }
  P bin(std::string const &o, P a, P b) { P n(new Node(Node::BIN)); n->s = o; n->k.push_back(std::move(a)); n->k.push_back(std::move(b)); return n; }
  P level(int l) {
    static std::vector<std::vector<std::string>> const ops = {{"||"}, {"&&"}, {"|"}, {"&"}, {"==", "~=", "!=", "<", ">", "<=", ">="}, {":"}, {"+", "-"}, {"*", "/", ".*", "./", "\\"}};
    if (l == int(ops.size())) return unary();
    P a = level(l + 1);
    if (l == 5) {
      if (!op(":") || end_of_all()) return a;
      ++i;
      P b = level(l + 1);
      P n(new Node(Node::RANGE));
      n->k.push_back(std::move(a));
      n->k.push_back(std::move(b));
      if (op(":")) { ++i; n->k.push_back(level(l + 1)); }
      return n;
    }
    for (;;) {
      if (at().t != Tok::OP) return a;
      std::string o = at().s;
      if (std::find(ops[l].begin(), ops[l].end(), o) == ops[l].end()) return a;
      ++i;
      a = bin(o, std::move(a), level(l + 1));
    }
  }
  bool end_of_all() const { return false; }
  P unary() {
    if (op("-") || op("+") || op("~") || op("!")) { P n(new Node(Node::UN)); n->s = at().s; ++i; n->k.push_back(unary()); return n; }
    return power();
  }
  P power() {
    P a = postfix();
    while (op("^") || op(".^")) {
      std::string o = at().s;
      ++i;
      P b;
      if (op("-") || op("+") || op("~")) { b.reset(new Node(Node::UN)); b->s = at().s; ++i; b->k.push_back(postfix()); }
      else b = postfix();
      a = bin(o, std::move(a), std::move(b));
    }
    return a;
  }
  P postfix() {
    P a = primary();
    while (op("'") || op(".'")) { ++i; P n(new Node(Node::POST)); n->k.push_back(std::move(a)); a = std::move(n); }
    return a;
  }
  std::vector<P> args(char const *close) {
    std::vector<P> r;
    if (eat(close)) return r;
    for (;;) {
      if (op(":") && at(1).t == Tok::OP && (at(1).s == "," || at(1).s == close)) { ++i; r.emplace_back(new Node(Node::ALL)); }
      else r.push_back(expr());
      if (eat(close)) return r;
      need(",");
    }
  }
  void rows(Node &n, char const *close) {
    n.rows.emplace_back();
    while (!eat(close)) {
      if (eat(";")) { if (!n.rows.back().empty()) n.rows.emplace_back(); continue; }
      if (eat(",")) continue;
      n.rows.back().push_back(expr());
    }
    if (n.rows.back().empty()) n.rows.pop_back();
  }
  P primary() {
    if (at().t == Tok::NUM) { P n(new Node(Node::NUM)); n->d = std::stod(at().s); ++i; return n; }
    if (at().t == Tok::STR) { P n(new Node(Node::STR)); n->s = at().s; n->quoted = at().quoted; ++i; return n; }
    if (eat("@")) {
      if (at().t == Tok::ID) { P n(new Node(Node::NAMED)); n->s = at().s; ++i; return n; }
      need("(");
      P n(new Node(Node::ANON));
      while (!eat(")")) { if (at().t == Tok::ID) n->names.push_back(at().s); else if (op("~")) n->names.push_back("~"); else fail("argument"); ++i; eat(","); }
      n->k.push_back(expr());
      return n;
    }
    P n;
    if (eat("(")) { n = expr(); need(")"); return n; }
    if (eat("[")) { n.reset(new Node(Node::MATRIX)); rows(*n, "]"); return n; }
    if (eat("{")) { n.reset(new Node(Node::CELLS)); rows(*n, "}"); return n; }
    if (at().t == Tok::ID) return chain();
    fail("expression");
  }
  P chain() {
    P n(new Node(Node::CHAIN));
    n->s = at().s;
    ++i;
    for (;;) {
      if (op("(")) { ++i; Node::Link l{'(', "", {}}; l.args = args(")"); n->links.push_back(std::move(l)); }
      else if (op("{")) { ++i; Node::Link l{'{', "", {}}; l.args = args("}"); n->links.push_back(std::move(l)); }
      else if (op(".") && at(1).t == Tok::ID) { ++i; n->links.push_back(Node::Link{'.', at().s, {}}); ++i; }
      else return n;
    }
  }
  P expr() { return level(0); }
  P block(std::set<std::string> const &stop) {
    P b(new Node(Node::BLOCK));
    for (;;) {
      newlines();
      if (at().t == Tok::END) { if (stop.count("")) return b; fail("end of file"); }
      if (at().t == Tok::ID && stop.count(at().s)) return b;
      b->k.push_back(statement());
    }
  }
  P statement() {
    std::string w = at().t == Tok::ID ? at().s : "";
    if (w == "if") {
      P n(new Node(Node::IF));
      ++i;
      n->k.push_back(expr());
      n->k.push_back(block({"elseif", "else", "end"}));
      while (!id("end")) {
        if (id("elseif")) { ++i; n->k.push_back(expr()); n->k.push_back(block({"elseif", "else", "end"})); }
        else { ++i; n->k.push_back(block({"end"})); }
      }
      ++i;
      return n;
    }
    if (w == "for") {
      P n(new Node(Node::FOR));
      ++i;
      bool p = eat("(");
      if (at().t != Tok::ID) fail("loop variable");
      n->s = at().s;
      ++i;
      need("=");
      n->k.push_back(expr());
      if (p) need(")");
      n->k.push_back(block({"end"}));
      ++i;
      return n;
    }
    if (w == "while") { P n(new Node(Node::WHILE)); ++i; n->k.push_back(expr()); n->k.push_back(block({"end"})); ++i; return n; }
    if (w == "switch") {
      P n(new Node(Node::SWITCH));
      ++i;
      n->k.push_back(expr());
      newlines();
      while (!id("end")) {
        if (id("case")) { ++i; n->k.push_back(expr()); n->k.push_back(block({"case", "otherwise", "end"})); }
        else if (id("otherwise")) { ++i; n->k.push_back(block({"case", "otherwise", "end"})); }
        else fail("case");
        newlines();
      }
      ++i;
      return n;
    }
    if (w == "return" || w == "break" || w == "continue") { ++i; return P(new Node(w == "return" ? Node::RETURN : w == "break" ? Node::BREAK : Node::CONTINUE)); }
    if (w == "try" || w == "parfor" || w == "global" || w == "persistent" || w == "spmd" || w == "function") fail(w);
    if (op("[")) { // [a, b] = ...
      size_t d = 0, j = i;
      for (; v[j].t != Tok::END; ++j) { if (v[j].t == Tok::OP && (v[j].s == "[" || v[j].s == "{" || v[j].s == "(")) ++d; if (v[j].t == Tok::OP && (v[j].s == "]" || v[j].s == "}" || v[j].s == ")") && --d == 0) break; }
      if (v[j + 1 < v.size() ? j + 1 : j].t == Tok::OP && v[j + 1].s == "=") {
        P n(new Node(Node::ASSIGN));
        ++i;
        while (!eat("]")) { if (eat(",")) continue; if (op("~")) { ++i; P q(new Node(Node::CHAIN)); q->s = "~"; n->k.push_back(std::move(q)); } else n->k.push_back(chain()); }
        need("=");
        n->k.push_back(expr());
        finish();
        return n;
      }
    }
    if (at().t == Tok::ID && at(1).t == Tok::ID && at(1).space) { // hold on
      P n(new Node(Node::COMMAND));
      n->s = at().s;
      while (at().t != Tok::NL && at().t != Tok::END) ++i;
      return n;
    }
    P e = expr();
    if (op("=")) {
      if (e->t != Node::CHAIN) fail("assignment");
      ++i;
      P n(new Node(Node::ASSIGN));
      n->k.push_back(std::move(e));
      n->k.push_back(expr());
      finish();
      return n;
    }
    finish();
    P n(new Node(Node::EXPR));
    n->k.push_back(std::move(e));
    return n;
  }
  void finish() { if (at().t != Tok::NL && at().t != Tok::END) fail("end of statement"); }
  // the token after the block that begins here
  size_t skip(size_t j) const {
    int d = 0, br = 0;
    for (; v[j].t != Tok::END; ++j) {
      if (v[j].t == Tok::OP) { if (v[j].s == "(" || v[j].s == "[" || v[j].s == "{") ++br; if (v[j].s == ")" || v[j].s == "]" || v[j].s == "}") --br; continue; }
      if (v[j].t != Tok::ID || br) continue;
      bool start = j == 0 || v[j - 1].t == Tok::NL || (v[j - 1].t == Tok::ID);
      if (j && v[j - 1].t == Tok::OP && v[j - 1].s == ".") continue;
      static std::set<std::string> const open{"if", "for", "while", "switch", "try", "parfor", "function", "methods", "properties", "events", "enumeration", "classdef", "spmd"};
      if (start && open.count(v[j].s) && !((v[j].s == "methods" || v[j].s == "properties" || v[j].s == "events" || v[j].s == "enumeration") && d > 1)) ++d;
      else if (v[j].s == "end") { if (--d == 0) return j + 1; }
    }
    throw Unsupported{"unbalanced block"};
  }

public:
  explicit Parser(std::string const &src) : v(lex(src)) {}
  Func function() {
    size_t e = skip(i);
    Func f;
    ++i;
    auto names = [&](char const *close) { std::vector<std::string> r; while (!eat(close)) { if (at().t == Tok::ID) r.push_back(at().s); else if (op("~")) r.push_back("~"); else if (!op(",")) fail("argument list"); ++i; } return r; };
    if (eat("[")) { f.out = names("]"); need("="); }
    else if (at(1).t == Tok::OP && at(1).s == "=") { f.out.push_back(at().s); i += 2; }
    f.name = at().s;
    ++i;
    while (op(".")) { i += 1; f.name += "." + at().s; ++i; }
    if (eat("(")) f.in = names(")");
    try {
      f.body = block({"end"});
      if (i + 1 != e) fail("end of function");
    } catch (Unsupported const &u) { f.body.reset(); f.unsupported = u.what; }
    i = e;
    return f;
  }
  Class classdef(std::map<std::string, Func> &local) {
    Class c;
    newlines();
    if (!id("classdef")) fail("classdef");
    size_t e = skip(i);
    ++i;
    if (eat("(")) args(")");
    c.name = at().s;
    ++i;
    if (eat("<")) { c.base = at().s; ++i; }
    while (at().t != Tok::NL) ++i;
    for (;;) {
      newlines();
      if (i + 1 >= e) break;
      if (id("properties")) {
        size_t q = skip(i);
        ++i;
        if (eat("(")) { int d = 1; while (d) { if (op("(") || op("{")) ++d; if (op(")") || op("}")) --d; ++i; } }
        while (i + 1 < q) { newlines(); if (i + 1 >= q) break; if (at().t == Tok::ID) c.props.insert(at().s); while (at().t != Tok::NL && i + 1 < q) ++i; }
        i = q;
      } else if (id("methods")) {
        size_t q = skip(i);
        ++i;
        if (eat("(")) { int d = 1; while (d) { if (op("(") || op("{")) ++d; if (op(")") || op("}")) --d; ++i; } }
        for (;;) { newlines(); if (i + 1 >= q) break; if (!id("function")) fail("function"); Func f = function(); std::string nm = f.name; c.m[nm] = std::move(f); }
        i = q;
      } else i = skip(i);
    }
    i = e;
    for (;;) { newlines(); if (at().t == Tok::END) break; if (!id("function")) break; Func f = function(); std::string nm = f.name; local[nm] = std::move(f); }
    return c;
  }
};

// --- running --------------------------------------------------------------
struct Interp {
  std::map<std::string, Class> classes;
  std::map<std::string, Func> locals;
  // what is not MATLAB: gateways, foreign classes, drawing. False: not known here
  std::function<bool(std::string const &, int, Values &, Values &)> host = [](std::string const &, int, Values &, Values &) { return false; };
  std::function<bool(std::shared_ptr<Obj> const &, std::string const &, int, Values &, Values &)> host_method = [](std::shared_ptr<Obj> const &, std::string const &, int, Values &, Values &) { return false; };
  std::string shown; // what was printed
  long steps = 0;
  struct Frame { std::map<std::string, Value> v; int nargin = 0, nargout = 0; };
  struct EndOf { Value const *v; size_t i, n; };
  std::vector<EndOf> ends;
  enum Flow { NEXT, BRK, CONT, RET };

  void load(std::string const &path) {
    std::ifstream f(path);
    if (!f) throw Unsupported{"cannot read " + path};
    std::stringstream s;
    s << f.rdbuf();
    Class c = Parser(s.str()).classdef(locals);
    std::string n = c.name;
    classes[n] = std::move(c);
  }
  Func const *method(std::string const &cls, std::string const &name) const {
    auto c = classes.find(cls);
    if (c == classes.end()) return nullptr;
    auto m = c->second.m.find(name);
    if (m != c->second.m.end()) return &m->second;
    return method(c->second.base, name);
  }
  Value construct(std::string const &cls, Values args) {
    Value o;
    o.k = Value::OBJ;
    o.r = o.c = 1;
    o.o = std::make_shared<Obj>();
    o.o->cls = cls;
    if (Func const *f = method(cls, cls)) {
      Frame fr;
      if (f->out.size() != 1) throw Unsupported{"constructor without an output"};
      fr.v[f->out[0]] = o;
      Values r = run(*f, args, 1, fr);
    }
    o.o->end = [this, cls](Obj &q) {
      if (Func const *f = method(cls, "delete")) { // the object lives until its destructor is through
        std::shared_ptr<Obj> keep(new Obj);
        keep->cls = q.cls;
        keep->f = q.f;
        Value t;
        t.k = Value::OBJ;
        t.r = t.c = 1;
        t.o = keep;
        Values a{t};
        Frame fr;
        run(*f, a, 0, fr);
      }
    };
    return o;
  }
  Values call(Value const &obj, std::string const &name, Values args, int nargout) {
    args.insert(args.begin(), obj);
    Func const *f = method(obj.o->cls, name);
    if (!f) throw MError{"no method '" + name + "' for class '" + obj.o->cls + "'"};
    Frame fr;
    return run(*f, args, nargout, fr);
  }
  Values run(Func const &f, Values &args, int nargout, Frame &fr) {
    if (!f.body) throw Unsupported{f.name + ": " + f.unsupported};
    bool var = !f.in.empty() && f.in.back() == "varargin";
    if (args.size() > f.in.size() && !var) throw MError{f.name + ": too many inputs"};
    if (nargout > int(f.out.size()) && (f.out.empty() || f.out.back() != "varargout")) throw MError{f.name + ": too many outputs"};
    for (size_t i = 0; i < args.size() && i < f.in.size() - (var ? 1 : 0); ++i) if (f.in[i] != "~") fr.v[f.in[i]] = args[i];
    if (var) {
      Value c;
      c.k = Value::CELL;
      for (size_t i = f.in.size() - 1; i < args.size(); ++i) c.cells.push_back(args[i]);
      c.r = c.cells.empty() ? 0 : 1;
      c.c = c.cells.size();
      fr.v["varargin"] = c;
    }
    fr.nargin = int(args.size());
    fr.nargout = nargout;
    exec(*f.body, fr);
    Values out;
    for (int i = 0; i < std::max(nargout, 1) && i < int(f.out.size()); ++i) {
      auto q = fr.v.find(f.out[i]);
      if (q == fr.v.end()) { if (i < nargout) throw MError{f.name + ": output '" + f.out[i] + "' is not assigned"}; break; }
      out.push_back(q->second);
    }
    return out;
  }
  static bool truth(Value const &v) {
    if (v.k != Value::NUM) throw MError{"not a condition"};
    if (v.x.empty()) return false;
    for (double d : v.x) if (d == 0) return false;
    return true;
  }
  Flow exec(Node const &n, Frame &f) {
    if (++steps > 20000000) throw Unsupported{"too many steps"};
    switch (n.t) {
      case Node::BLOCK: for (auto const &s : n.k) { Flow r = exec(*s, f); if (r != NEXT) return r; } return NEXT;
      case Node::EXPR: { evals(*n.k[0], f, 0); return NEXT; }
      case Node::COMMAND: { Values a, o; if (!host(n.s, 0, a, o)) throw MError{"unknown command " + n.s}; return NEXT; }
      case Node::ASSIGN: {
        size_t m = n.k.size() - 1;
        if (m == 1) { Value v = eval(*n.k[1], f); assign(*n.k[0], f, v); return NEXT; }
        Values v = evals(*n.k[m], f, int(m));
        if (v.size() < m) throw MError{"too few outputs"};
        for (size_t i = 0; i < m; ++i) if (n.k[i]->s != "~") assign(*n.k[i], f, v[i]);
        return NEXT;
      }
      case Node::IF:
        for (size_t i = 0; i + 1 < n.k.size(); i += 2) if (truth(eval(*n.k[i], f))) return exec(*n.k[i + 1], f);
        return n.k.size() % 2 ? exec(*n.k.back(), f) : NEXT;
      case Node::WHILE:
        while (truth(eval(*n.k[0], f))) { Flow r = exec(*n.k[1], f); if (r == BRK) break; if (r == RET) return r; }
        return NEXT;
      case Node::FOR: {
        Value v = eval(*n.k[0], f);
        size_t cols = v.r ? v.c : 0;
        for (size_t j = 0; j < cols; ++j) {
          Value e;
          if (v.k == Value::NUM) e = Value::mat(v.r, 1, std::vector<double>(v.x.begin() + long(j * v.r), v.x.begin() + long((j + 1) * v.r)));
          else if (v.k == Value::CELL) { e.k = Value::CELL; e.r = v.r; e.c = 1; e.cells.assign(v.cells.begin() + long(j * v.r), v.cells.begin() + long((j + 1) * v.r)); }
          else throw Unsupported{"loop over this"};
          f.v[n.s] = e;
          Flow r = exec(*n.k[1], f);
          if (r == BRK) break;
          if (r == RET) return r;
        }
        return NEXT;
      }
      case Node::SWITCH: {
        Value v = eval(*n.k[0], f);
        auto eq = [&](Value const &w) { if (v.k == Value::STR || w.k == Value::STR) return v.k == w.k && v.s == w.s; return v.k == Value::NUM && w.k == Value::NUM && v.count() == 1 && w.count() == 1 && v.x[0] == w.x[0]; };
        size_t i = 1;
        for (; i + 1 < n.k.size(); i += 2) {
          Value w = eval(*n.k[i], f);
          bool hit = false;
          if (w.k == Value::CELL) { for (auto const &e : w.cells) hit |= eq(e); } else hit = eq(w);
          if (hit) return exec(*n.k[i + 1], f);
        }
        return i < n.k.size() ? exec(*n.k[i], f) : NEXT;
      }
      case Node::RETURN: return RET;
      case Node::BREAK: return BRK;
      case Node::CONTINUE: return CONT;
      default: throw Unsupported{"statement"};
    }
  }
  // --- places ---
  static void grow(Value &v, size_t r, size_t c) {
    if (r <= v.r && c <= v.c) return;
    size_t R = std::max(r, v.r), C = std::max(c, v.c);
    if (v.k == Value::CELL) {
      std::vector<Value> q(R * C);
      for (size_t j = 0; j < v.c; ++j) for (size_t i = 0; i < v.r; ++i) q[i + j * R] = v.cells[i + j * v.r];
      v.cells.swap(q);
    } else {
      std::vector<double> q(R * C);
      for (size_t j = 0; j < v.c; ++j) for (size_t i = 0; i < v.r; ++i) q[i + j * R] = v.x[i + j * v.r];
      v.x.swap(q);
    }
    v.r = R;
    v.c = C;
  }
  static std::vector<size_t> where(Value const &q, size_t n) {
    std::vector<size_t> r;
    if (q.k == Value::COLON || (q.k == Value::STR && q.s == ":")) { for (size_t i = 0; i < n; ++i) r.push_back(i); return r; }
    if (q.k != Value::NUM) throw MError{"bad index"};
    if (q.logical) { for (size_t i = 0; i < q.x.size(); ++i) if (q.x[i]) r.push_back(i); return r; }
    for (double d : q.x) { if (!(d >= 1) || d != std::floor(d)) throw MError{"index must be a positive integer"}; r.push_back(size_t(d) - 1); }
    return r;
  }
  Values index_args(std::vector<P> const &a, Frame &f, Value const *of) {
    Values r;
    for (size_t i = 0; i < a.size(); ++i) {
      if (a[i]->t == Node::ALL) { Value c; c.k = Value::COLON; r.push_back(c); continue; }
      if (of) ends.push_back({of, i, a.size()});
      struct Pop { std::vector<EndOf> &e; bool on; ~Pop() { if (on) e.pop_back(); } } pop{ends, of != nullptr};
      Values v = evals(*a[i], f, 1);
      r.insert(r.end(), v.begin(), v.end());
    }
    return r;
  }
  void assign(Node const &n, Frame &f, Value const &v) {
    if (n.links.empty()) { f.v[n.s] = v; return; }
    auto q = f.v.find(n.s);
    if (q == f.v.end()) { Value e; if (n.links[0].t == '.') e.k = Value::STRUCT, e.r = e.c = 1; else if (n.links[0].t == '{') e.k = Value::CELL; f.v[n.s] = e; q = f.v.find(n.s); }
    store(q->second, n, 0, f, v);
  }
  void store(Value &at, Node const &n, size_t l, Frame &f, Value const &v) {
    Node::Link const &k = n.links[l];
    bool last = l + 1 == n.links.size();
    if (k.t == '.') {
      if (at.k == Value::NUM && at.x.empty()) { at = Value(); at.k = Value::STRUCT; at.r = at.c = 1; }
      std::map<std::string, Value> *m = at.k == Value::STRUCT ? &at.fields : at.k == Value::OBJ ? &at.o->f : nullptr;
      if (!m) throw MError{"no fields here"};
      if (last) { (*m)[k.name] = v; return; }
      if (!m->count(k.name)) { Value e; if (n.links[l + 1].t == '.') e.k = Value::STRUCT, e.r = e.c = 1; (*m)[k.name] = e; }
      store((*m)[k.name], n, l + 1, f, v);
      return;
    }
    Values a = index_args(k.args, f, &at);
    if (at.k == Value::NUM && at.x.empty() && (k.t == '{' || v.k == Value::CELL)) { at = Value(); at.k = Value::CELL; }
    if (k.t == '{' && at.k != Value::CELL) throw MError{"not a cell array"};
    if (at.k != Value::CELL && at.k != Value::NUM) throw Unsupported{"indexed assignment"};
    if (!last && k.t == '{') {
      if (a.size() != 1 && a.size() != 2) throw Unsupported{"indices"};
      std::vector<size_t> i = where(a[0], at.count()), j = a.size() == 2 ? where(a[1], at.c) : std::vector<size_t>{0};
      if (i.size() != 1 || j.size() != 1) throw MError{"one element expected"};
      if (a.size() == 2) grow(at, i[0] + 1, j[0] + 1); else if (i[0] >= at.count()) grow(at, at.r == 0 ? 1 : at.r, i[0] + 1);
      store(at.cells[a.size() == 2 ? i[0] + j[0] * at.r : i[0]], n, l + 1, f, v);
      return;
    }
    if (!last) throw Unsupported{"nested assignment"};
    auto put = [&](size_t p, size_t s) {
      if (at.k == Value::CELL) at.cells[p] = k.t == '{' ? v : v.cells[v.count() == 1 ? 0 : s];
      else { if (v.k != Value::NUM) throw MError{"not a number"}; at.x[p] = v.x[v.count() == 1 ? 0 : s]; }
    };
    size_t have = k.t == '{' ? 1 : v.count();
    at.logical = false;
    at.u64 = false;
    if (a.size() == 1) {
      std::vector<size_t> i = where(a[0], at.count());
      if (have != 1 && have != i.size()) throw MError{"sizes do not match"};
      size_t top = 0;
      for (size_t q : i) top = std::max(top, q + 1);
      if (top > at.count()) { if (at.count() == 0) grow(at, 1, top); else if (at.r == 1) grow(at, 1, top); else if (at.c == 1) grow(at, top, 1); else throw MError{"cannot grow"}; }
      for (size_t q = 0; q < i.size(); ++q) put(i[q], q);
    } else if (a.size() == 2) {
      auto all = [](Value const &w) { return w.k == Value::COLON; };
      size_t R = all(a[0]) && at.r == 0 ? v.r : at.r, C = all(a[1]) && at.c == 0 ? v.c : at.c;
      std::vector<size_t> i = where(a[0], R), j = where(a[1], C);
      if (have != 1 && !(k.t == '(' && ((v.r == i.size() && v.c == j.size()) || (v.count() == i.size() * j.size() && (v.r == 1 || v.c == 1) && (i.size() == 1 || j.size() == 1))))) throw MError{"sizes do not match"};
      for (size_t p : i) R = std::max(R, p + 1);
      for (size_t p : j) C = std::max(C, p + 1);
      grow(at, R, C);
      for (size_t q = 0; q < j.size(); ++q) for (size_t p = 0; p < i.size(); ++p) put(i[p] + j[q] * at.r, p + q * i.size());
    } else throw Unsupported{"indices"};
  }
  // --- expressions ---
  Value eval(Node const &n, Frame &f) {
    Values v = evals(n, f, 1);
    if (v.empty()) throw MError{"no value"};
    return v[0];
  }
  static Value take(Value const &v, Values const &a) {
    if (a.empty()) return v;
    Value o;
    o.k = v.k;
    o.logical = v.logical;
    if (v.k != Value::NUM && v.k != Value::CELL && v.k != Value::STR) { if (a.size() <= 2) { for (auto const &q : a) for (size_t p : where(q, 1)) if (p) throw MError{"index exceeds the size"}; return v; } throw Unsupported{"index"}; }
    std::vector<size_t> at;
    if (v.k == Value::STR && v.quoted) throw Unsupported{"index of a string"};
    if (a.size() == 1) {
      std::vector<size_t> i = where(a[0], v.count());
      if (a[0].k == Value::COLON) { o.r = v.count(); o.c = 1; }
      else if (a[0].r == 1 || a[0].c == 1) { bool row = v.r == 1 && v.c != 1 ? true : v.c == 1 && v.r != 1 ? false : a[0].r == 1; o.r = row ? 1 : i.size(); o.c = row ? i.size() : 1; if (v.r != 1 && v.c != 1) { o.r = a[0].r == 1 ? 1 : i.size(); o.c = a[0].r == 1 ? i.size() : 1; } }
      else { o.r = a[0].r; o.c = a[0].c; }
      for (size_t p : i) { if (p >= v.count()) throw MError{"index exceeds the number of elements"}; at.push_back(p); }
    } else if (a.size() == 2) {
      std::vector<size_t> i = where(a[0], v.r), j = where(a[1], v.c);
      o.r = i.size();
      o.c = j.size();
      for (size_t q : j) for (size_t p : i) { if (p >= v.r || q >= v.c) throw MError{"index exceeds the size"}; at.push_back(p + q * v.r); }
    } else throw Unsupported{"indices"};
    for (size_t p : at) { if (v.k == Value::CELL) o.cells.push_back(v.cells[p]); else if (v.k == Value::STR) o.s += v.s[p]; else o.x.push_back(v.x[p]); }
    if (v.u64 && at.size() == 1) { o.u64 = true; o.h = v.h; }
    return o;
  }
  Values chain(Node const &n, Frame &f, int nargout) {
    Values cur;
    size_t l = 0;
    auto q = f.v.find(n.s);
    auto last = [&](size_t k) { return k >= n.links.size() ? nargout : 1; };
    if (n.s == "end" && !ends.empty() && n.links.empty()) {
      EndOf e = ends.back();
      return {Value::num(double(e.n == 1 ? e.v->count() : e.i == 0 ? e.v->r : e.v->c))};
    }
    if (q != f.v.end() && !n.links.empty() && n.links[0].t != '.' && q->second.k != Value::FUN) {
      Value const &v = q->second;
      if (n.links[0].t == '{' && v.k != Value::CELL) throw MError{"not a cell array"};
      Value t = take(v, index_args(n.links[0].args, f, &v));
      if (n.links[0].t == '{') cur = std::move(t.cells); else cur.push_back(std::move(t));
      ++l;
    } else if (q != f.v.end()) cur = {q->second};
    else if (n.s == "nargin") cur = {Value::num(f.nargin)};
    else if (n.s == "nargout") cur = {Value::num(f.nargout)};
    else {
      Values a;
      if (l < n.links.size() && n.links[l].t == '(') { a = index_args(n.links[l].args, f, nullptr); ++l; }
      cur = invoke(n.s, a, last(l), f);
    }
    for (; l < n.links.size(); ++l) {
      if (cur.size() != 1) throw MError{"one value expected before '" + n.links[l].name + "'"};
      Value v = std::move(cur[0]);
      Node::Link const &k = n.links[l];
      if (k.t == '.') {
        if (v.k == Value::STRUCT) { if (!v.fields.count(k.name)) throw MError{"no field " + k.name}; cur = {v.fields[k.name]}; }
        else if (v.k == Value::OBJ) {
          auto fld = v.o->f.find(k.name);
          if (fld != v.o->f.end() && !method(v.o->cls, k.name)) { cur = {fld->second}; continue; }
          Values a;
          if (l + 1 < n.links.size() && n.links[l + 1].t == '(') { a = index_args(n.links[l + 1].args, f, nullptr); ++l; }
          if (method(v.o->cls, k.name)) cur = call(v, k.name, a, last(l + 1));
          else { Values o; if (!host_method(v.o, k.name, last(l + 1), a, o)) throw MError{"no property or method '" + k.name + "' in class '" + v.o->cls + "'"}; cur = o; }
        } else throw MError{"no field " + k.name};
      } else if (k.t == '(') {
        if (v.k == Value::FUN) { Values a = index_args(k.args, f, nullptr); cur = apply(v, a, last(l + 1)); }
        else cur = {take(v, index_args(k.args, f, &v))};
      } else {
        if (v.k != Value::CELL) throw MError{"not a cell array"};
        cur = take(v, index_args(k.args, f, &v)).cells;
      }
    }
    return cur;
  }
  Values apply(Value const &v, Values &a, int nargout) {
    if (!v.s.empty()) { Frame fr; return invoke(v.s, a, nargout, fr); }
    Frame fr;
    fr.v = v.captured;
    for (size_t i = 0; i < a.size() && i < v.fn->first.size(); ++i) fr.v[v.fn->first[i]] = a[i];
    return evals(*v.fn->second, fr, nargout);
  }
  Values invoke(std::string const &name, Values &a, int nargout, Frame &) {
    for (auto const &x : a) if (x.k == Value::OBJ) {
      if (Func const *m = method(x.o->cls, name)) { Frame fr; return run(*m, a, nargout, fr); }
      Values rest(a.begin() + 1, a.end()), o;
      if (&x == &a[0] && host_method(x.o, name, nargout, rest, o)) return o;
    }
    Values o;
    if (host(name, nargout, a, o)) return o;
    if (classes.count(name)) return {construct(name, a)};
    auto l = locals.find(name);
    if (l != locals.end()) { Frame fr; return run(l->second, a, nargout, fr); }
    return builtin(name, a, nargout);
  }
  Values evals(Node const &n, Frame &f, int nargout) {
    if (++steps > 20000000) throw Unsupported{"too many steps"};
    switch (n.t) {
      case Node::NUM: return {Value::num(n.d)};
      case Node::STR: return {Value::str(n.s, n.quoted)};
      case Node::CHAIN: return chain(n, f, nargout);
      case Node::ALL: { Value c; c.k = Value::COLON; return {c}; }
      case Node::ANON: { Value v; v.k = Value::FUN; v.r = v.c = 1; v.fn = std::make_shared<std::pair<std::vector<std::string>, Node const *>>(n.names, n.k[0].get()); v.captured = f.v; return {v}; }
      case Node::NAMED: { Value v; v.k = Value::FUN; v.r = v.c = 1; v.s = n.s; return {v}; }
      case Node::UN: {
        Value v = eval(*n.k[0], f);
        if (v.k != Value::NUM) throw MError{"not a number"};
        v.u64 = false;
        for (double &d : v.x) d = n.s == "-" ? -d : n.s == "+" ? d : d == 0;
        v.logical = n.s == "~" || n.s == "!";
        return {v};
      }
      case Node::POST: return {transpose(eval(*n.k[0], f))};
      case Node::RANGE: {
        double a = scalar(eval(*n.k[0], f)), s = n.k.size() == 3 ? scalar(eval(*n.k[1], f)) : 1, b = scalar(eval(*n.k.back(), f));
        Value v;
        v.r = 1;
        if (s != 0 && (s > 0 ? a <= b : a >= b)) {
          double cnt = std::floor((b - a) / s * (1 + 2e-16) + 1e-10);
          if (!(cnt < 1e6)) throw Unsupported{"long range"};
          for (size_t i = 0; i <= size_t(cnt); ++i) v.x.push_back(s > 0 ? std::min(a + double(i) * s, b) : std::max(a + double(i) * s, b));
        }
        v.c = v.x.size();
        return {v};
      }
      case Node::MATRIX: return {matrix(n, f)};
      case Node::CELLS: {
        Value o;
        o.k = Value::CELL;
        std::vector<Values> rows;
        for (auto const &r : n.rows) { rows.emplace_back(); for (auto const &e : r) { Values v = evals(*e, f, 1); rows.back().insert(rows.back().end(), v.begin(), v.end()); } }
        o.r = rows.size();
        o.c = rows.empty() ? 0 : rows[0].size();
        for (auto const &r : rows) if (r.size() != o.c) throw MError{"rows of different lengths"};
        for (size_t j = 0; j < o.c; ++j) for (size_t i = 0; i < o.r; ++i) o.cells.push_back(rows[i][j]);
        return {o};
      }
      case Node::BIN: {
        Value a = eval(*n.k[0], f);
        if (n.s == "&&") return {Value::log(truth(a) && truth(eval(*n.k[1], f)))};
        if (n.s == "||") return {Value::log(truth(a) || truth(eval(*n.k[1], f)))};
        Value b = eval(*n.k[1], f);
        return {binary(n.s, a, b)};
      }
      default: throw Unsupported{"expression"};
    }
  }
  static double scalar(Value const &v) { if (v.k != Value::NUM || v.x.size() != 1) throw MError{"a scalar is expected"}; return v.x[0]; }
  static Value transpose(Value const &v) {
    Value o = v;
    o.r = v.c;
    o.c = v.r;
    if (v.k == Value::CELL) { for (size_t i = 0; i < v.r; ++i) for (size_t j = 0; j < v.c; ++j) o.cells[j + i * o.r] = v.cells[i + j * v.r]; }
    else if (v.k == Value::NUM) { for (size_t i = 0; i < v.r; ++i) for (size_t j = 0; j < v.c; ++j) o.x[j + i * o.r] = v.x[i + j * v.r]; }
    else throw Unsupported{"transpose"};
    return o;
  }
  Value matrix(Node const &n, Frame &f) {
    Value all;
    bool text = false;
    std::string s;
    bool cells = false;
    std::vector<Value> rows;
    for (auto const &r : n.rows) {
      Value row;
      for (auto const &e : r) for (Value const &v : evals(*e, f, 1)) {
        if (v.k == Value::STR) { if (v.quoted) throw Unsupported{"array of strings"}; text = true; s += v.s; continue; }
        if (v.k == Value::CELL) { cells = true; if (row.k != Value::CELL) { row = Value(); row.k = Value::CELL; row.r = 1; } if (v.r > 1) throw Unsupported{"joining cells"}; for (auto const &w : v.cells) row.cells.push_back(w); row.c = row.cells.size(); continue; }
        if (v.k != Value::NUM) { if (v.k == Value::OBJ && n.rows.size() == 1 && r.size() == 1) return v; throw Unsupported{"array of objects"}; }
        if (v.count() == 0) continue;
        if (row.c == 0) { row = v; row.u64 = false; continue; }
        if (row.r != v.r) throw MError{"the arrays joined have different heights"};
        row.x.insert(row.x.end(), v.x.begin(), v.x.end());
        row.c += v.c;
      }
      rows.push_back(row);
    }
    if (text) { if (n.rows.size() > 1) throw Unsupported{"char matrix"}; return Value::str(s); }
    if (cells) { if (rows.size() != 1) throw Unsupported{"joining cells"}; return rows[0]; }
    size_t R = 0, C = 0;
    for (auto const &r : rows) if (r.count()) { if (C && r.c != C) throw MError{"the arrays joined have different widths"}; C = r.c; R += r.r; }
    all = Value::mat(R, C);
    size_t at = 0;
    for (auto const &r : rows) if (r.count()) { for (size_t j = 0; j < C; ++j) for (size_t i = 0; i < r.r; ++i) all.x[at + i + j * R] = r.x[i + j * r.r]; at += r.r; }
    return all;
  }
  static Value binary(std::string const &o, Value const &a, Value const &b) {
    bool cmp = o == "==" || o == "~=" || o == "!=" || o == "<" || o == ">" || o == "<=" || o == ">=";
    if (a.k == Value::STR && b.k == Value::STR) {
      if (a.quoted || b.quoted) { if (o == "==") return Value::log(a.s == b.s); if (o == "~=" || o == "!=") return Value::log(a.s != b.s); if (o == "+") return Value::str(a.s + b.s, true); throw Unsupported{"operation on strings"}; }
      if (!cmp) throw Unsupported{"arithmetic on characters"};
      Value x = Value::mat(1, a.s.size()), y = Value::mat(1, b.s.size());
      for (size_t i = 0; i < a.s.size(); ++i) x.x[i] = a.s[i];
      for (size_t i = 0; i < b.s.size(); ++i) y.x[i] = b.s[i];
      return binary(o, x, y);
    }
    if (a.k == Value::OBJ && b.k == Value::OBJ && o == "==") return Value::log(a.o == b.o);
    if (a.k != Value::NUM || b.k != Value::NUM) throw MError{"operator " + o + " is not defined for these"};
    if ((o == "*") && a.count() != 1 && b.count() != 1) {
      if (a.c != b.r) throw MError{"inner dimensions differ"};
      Value v = Value::mat(a.r, b.c);
      for (size_t i = 0; i < a.r; ++i) for (size_t j = 0; j < b.c; ++j) { double s = 0; for (size_t k = 0; k < a.c; ++k) s += a.x[i + k * a.r] * b.x[k + j * b.r]; v.x[i + j * a.r] = s; }
      return v;
    }
    if ((o == "/" && b.count() != 1) || (o == "\\") || (o == "^" && (a.count() != 1 || b.count() != 1))) throw Unsupported{"operator " + o + " on matrices"};
    auto dim = [](size_t p, size_t q) { if (p != q && p != 1 && q != 1) throw MError{"sizes do not match"}; return p == 1 ? q : q == 1 ? p : p; };
    Value v = Value::mat(dim(a.r, b.r), dim(a.c, b.c));
    v.logical = cmp || o == "&" || o == "|";
    for (size_t j = 0; j < v.c; ++j) for (size_t i = 0; i < v.r; ++i) {
      double p = a.x[(a.r == 1 ? 0 : i) + (a.c == 1 ? 0 : j) * a.r], q = b.x[(b.r == 1 ? 0 : i) + (b.c == 1 ? 0 : j) * b.r];
      double &z = v.x[i + j * v.r];
      if (o == "+") z = p + q; else if (o == "-") z = p - q; else if (o == "*" || o == ".*") z = p * q; else if (o == "/" || o == "./") z = p / q;
      else if (o == "^" || o == ".^") z = std::pow(p, q);
      else if (o == "==") z = p == q; else if (o == "~=" || o == "!=") z = p != q; else if (o == "<") z = p < q; else if (o == ">") z = p > q; else if (o == "<=") z = p <= q; else if (o == ">=") z = p >= q;
      else if (o == "&") z = p != 0 && q != 0; else if (o == "|") z = p != 0 || q != 0;
      else throw Unsupported{"operator " + o};
    }
    return v;
  }
  static std::string text(Value const &v) {
    if (v.k == Value::STR) return v.s;
    std::ostringstream o;
    o.precision(17);
    for (size_t i = 0; i < v.x.size(); ++i) o << (i ? " " : "") << v.x[i];
    return o.str();
  }
  Values builtin(std::string const &n, Values &a, int nargout) {
    auto want = [&](size_t lo, size_t hi) { if (a.size() < lo || a.size() > hi) throw MError{n + ": wrong number of arguments"}; };
    auto shape = [&](size_t &r, size_t &c) {
      r = c = 1;
      if (a.empty()) return;
      if (a.size() == 1) { if (a[0].count() == 2) { r = size_t(a[0].x[0]); c = size_t(a[0].x[1]); } else r = c = size_t(scalar(a[0])); }
      else { r = size_t(scalar(a[0])); c = size_t(scalar(a[1])); }
    };
    auto fill = [&](double d) { size_t r, c; shape(r, c); return Values{Value::mat(r, c, std::vector<double>(r * c, d))}; };
    auto map = [&](double (*fn)(double)) { want(1, 1); Value v = a[0]; if (v.k != Value::NUM) throw MError{n + ": not a number"}; for (double &d : v.x) d = fn(d); v.logical = v.u64 = false; return Values{v}; };
    auto len = [](Value const &v) { return v.count() ? double(std::max(v.r, v.c)) : 0.0; };
    if (n == "zeros") return fill(0);
    if (n == "ones") return fill(1);
    if (n == "NaN" || n == "nan") return fill(std::numeric_limits<double>::quiet_NaN());
    if (n == "Inf" || n == "inf") return fill(std::numeric_limits<double>::infinity());
    if (n == "true" || n == "false") return {Value::log(n == "true")};
    if (n == "pi") return {Value::num(M_PI)};
    if (n == "eps") return {Value::num(std::numeric_limits<double>::epsilon())};
    if (n == "eye") { size_t r, c; shape(r, c); Value v = Value::mat(r, c); for (size_t i = 0; i < std::min(r, c); ++i) v.x[i + i * r] = 1; return {v}; }
    if (n == "cell") { size_t r, c; shape(r, c); Value v; v.k = Value::CELL; v.r = r; v.c = c; v.cells.resize(r * c); return {v}; }
    if (n == "struct") { Value v; v.k = Value::STRUCT; v.r = v.c = 1; for (size_t i = 0; i + 1 < a.size(); i += 2) v.fields[a[i].s] = a[i + 1]; return {v}; }
    if (n == "length") { want(1, 1); return {Value::num(len(a[0]))}; }
    if (n == "numel") { want(1, 1); return {Value::num(double(a[0].count()))}; }
    if (n == "height") { want(1, 1); return {Value::num(double(a[0].r))}; }
    if (n == "width") { want(1, 1); return {Value::num(double(a[0].c))}; }
    if (n == "size") { want(1, 2); if (a.size() == 2) return {Value::num(scalar(a[1]) == 1 ? double(a[0].r) : scalar(a[1]) == 2 ? double(a[0].c) : 1.0)}; if (nargout >= 2) return {Value::num(double(a[0].r)), Value::num(double(a[0].c))}; return {Value::mat(1, 2, {double(a[0].r), double(a[0].c)})}; }
    if (n == "isempty") { want(1, 1); return {Value::log(a[0].count() == 0)}; }
    if (n == "isscalar") { want(1, 1); return {Value::log(a[0].count() == 1)}; }
    if (n == "isvector") { want(1, 1); return {Value::log((a[0].r == 1 || a[0].c == 1) && a[0].count() > 0)}; }
    if (n == "ismatrix") { want(1, 1); return {Value::log(true)}; }
    if (n == "isnumeric") { want(1, 1); return {Value::log(a[0].k == Value::NUM && !a[0].logical)}; }
    if (n == "islogical") { want(1, 1); return {Value::log(a[0].k == Value::NUM && a[0].logical)}; }
    if (n == "ischar") { want(1, 1); return {Value::log(a[0].k == Value::STR && !a[0].quoted)}; }
    if (n == "isstring") { want(1, 1); return {Value::log(a[0].k == Value::STR && a[0].quoted)}; }
    if (n == "iscell") { want(1, 1); return {Value::log(a[0].k == Value::CELL)}; }
    if (n == "isobject") { want(1, 1); return {Value::log(a[0].k == Value::OBJ)}; }
    if (n == "isa") { want(2, 2); std::string c = a[0].k == Value::OBJ ? a[0].o->cls : a[0].k == Value::NUM ? "double" : a[0].k == Value::STR ? "char" : "cell"; for (;;) { if (c == a[1].s) return {Value::log(true)}; auto q = classes.find(c); if (q == classes.end()) return {Value::log(false)}; c = q->second.base; } }
    if (n == "class") { want(1, 1); return {Value::str(a[0].k == Value::OBJ ? a[0].o->cls : a[0].k == Value::STR ? a[0].quoted ? "string" : "char" : a[0].k == Value::CELL ? "cell" : a[0].k == Value::STRUCT ? "struct" : a[0].k == Value::FUN ? "function_handle" : a[0].logical ? "logical" : a[0].u64 ? "uint64" : "double")}; }
    if (n == "isnan") { Values r = map([](double d) { return double(std::isnan(d)); }); r[0].logical = true; return r; }
    if (n == "isfinite") { Values r = map([](double d) { return double(std::isfinite(d)); }); r[0].logical = true; return r; }
    if (n == "strcmp" || n == "strcmpi") { want(2, 2); std::string p = a[0].s, q = a[1].s; if (n == "strcmpi") for (std::string *s : {&p, &q}) for (char &ch : *s) ch = char(std::tolower((unsigned char)ch)); return {Value::log(a[0].k == Value::STR && a[1].k == Value::STR && p == q)}; }
    if (n == "lower" || n == "upper") { want(1, 1); Value v = a[0]; for (char &ch : v.s) ch = char(n == "lower" ? std::tolower((unsigned char)ch) : std::toupper((unsigned char)ch)); return {v}; }
    if (n == "endsWith") { want(2, 2); return {Value::log(a[0].s.size() >= a[1].s.size() && a[0].s.compare(a[0].s.size() - a[1].s.size(), std::string::npos, a[1].s) == 0)}; }
    if (n == "isfile") { want(1, 1); if (a[0].k != Value::STR) throw MError{"isfile: not a text"}; return {Value::log(std::ifstream(a[0].s).good())}; }
    if (n == "fileparts") {
      want(1, 1);
      std::string s = a[0].s, d, e;
      size_t p = s.rfind('/');
      if (p != std::string::npos) { d = s.substr(0, p); s = s.substr(p + 1); }
      p = s.rfind('.');
      if (p != std::string::npos) { e = s.substr(p); s = s.substr(0, p); }
      return {Value::str(d), Value::str(s), Value::str(e)};
    }
    if (n == "error") { want(1, 99); throw MError{a[0].k == Value::STR ? a[0].s : "error"}; }
    if (n == "assert") { want(1, 99); if (!truth(a[0])) throw MError{"assertion failed"}; return {}; }
    if (n == "disp" || n == "display" || n == "fprintf" || n == "warning") { for (auto const &v : a) shown += (v.k == Value::NUM ? "[" + std::to_string(v.r) + "x" + std::to_string(v.c) + "] " : "") + text(v) + "\n"; return {}; }
    if (n == "num2str" || n == "string" || n == "char" || n == "int2str") { want(1, 2); return {Value::str(text(a[0]), n == "string")}; }
    if (n == "strcat") { std::string s; for (auto const &v : a) { std::string t = text(v); if (v.k == Value::STR && !v.quoted) while (!t.empty() && std::isspace((unsigned char)t.back())) t.pop_back(); s += t; } return {Value::str(s)}; }
    if (n == "double" || n == "logical") { want(1, 1); Value v = a[0]; v.u64 = false; v.logical = n == "logical"; return {v}; }
    if (n == "sqrt") return map([](double d) { return std::sqrt(d); });
    if (n == "abs") return map([](double d) { return std::fabs(d); });
    if (n == "sin") return map([](double d) { return std::sin(d); });
    if (n == "cos") return map([](double d) { return std::cos(d); });
    if (n == "tan") return map([](double d) { return std::tan(d); });
    if (n == "atan") return map([](double d) { return std::atan(d); });
    if (n == "asin") return map([](double d) { return std::asin(d); });
    if (n == "acos") return map([](double d) { return std::acos(d); });
    if (n == "exp") return map([](double d) { return std::exp(d); });
    if (n == "log") return map([](double d) { return std::log(d); });
    if (n == "floor") return map([](double d) { return std::floor(d); });
    if (n == "ceil") return map([](double d) { return std::ceil(d); });
    if (n == "round") return map([](double d) { return std::round(d); });
    if (n == "atan2" || n == "mod" || n == "power" || n == "times" || n == "plus" || n == "minus" || n == "rdivide") {
      want(2, 2);
      if (n != "atan2" && n != "mod") return {binary(n == "power" ? ".^" : n == "times" ? ".*" : n == "plus" ? "+" : n == "minus" ? "-" : "./", a[0], a[1])};
      Value v = binary("+", a[0], a[1]);
      for (size_t i = 0; i < v.x.size(); ++i) { double p = a[0].x[a[0].count() == 1 ? 0 : i], q = a[1].x[a[1].count() == 1 ? 0 : i]; v.x[i] = n == "atan2" ? std::atan2(p, q) : q == 0 ? p : p - std::floor(p / q) * q; }
      return {v};
    }
    if (n == "mtimes") { want(2, 2); return {binary("*", a[0], a[1])}; }
    if (n == "not") { want(1, 1); Value v = a[0]; for (double &d : v.x) d = d == 0; v.logical = true; return {v}; }
    if (n == "transpose" || n == "ctranspose") { want(1, 1); return {transpose(a[0])}; }
    if (n == "max" || n == "min" || n == "sum" || n == "prod" || n == "mean" || n == "any" || n == "all") {
      if (a.size() == 2 && (n == "max" || n == "min")) { Value v = binary("+", a[0], a[1]); for (size_t i = 0; i < v.x.size(); ++i) { double p = a[0].x[a[0].count() == 1 ? 0 : i], q = a[1].x[a[1].count() == 1 ? 0 : i]; v.x[i] = n == "max" ? (p > q || q != q ? p : q) : (p < q || q != q ? p : q); } return {v}; }
      want(1, 1);
      Value v = a[0];
      if (v.r == 1) v = transpose(v);
      Value o = Value::mat(1, v.c);
      for (size_t j = 0; j < v.c; ++j) {
        double s = n == "prod" || n == "all" ? 1 : n == "max" || n == "min" ? v.x[j * v.r] : 0;
        for (size_t i = 0; i < v.r; ++i) { double d = v.x[i + j * v.r]; if (n == "max") s = std::max(s, d); else if (n == "min") s = std::min(s, d); else if (n == "prod") s *= d; else if (n == "any") s = s || d != 0; else if (n == "all") s = s && d != 0; else s += d; }
        o.x[j] = n == "mean" ? s / double(v.r) : s;
      }
      o.logical = n == "any" || n == "all";
      return {o};
    }
    if (n == "dot") { want(2, 2); double s = 0; if (a[0].count() != a[1].count()) throw MError{"sizes do not match"}; for (size_t i = 0; i < a[0].count(); ++i) s += a[0].x[i] * a[1].x[i]; return {Value::num(s)}; }
    if (n == "norm") { want(1, 1); double s = 0; if (a[0].r != 1 && a[0].c != 1) throw Unsupported{"matrix norm"}; for (double d : a[0].x) s += d * d; return {Value::num(std::sqrt(s))}; }
    if (n == "cross") { want(2, 2); auto const &p = a[0].x; auto const &q = a[1].x; if (p.size() != 3 || q.size() != 3) throw MError{"cross: three elements"}; return {Value::mat(a[0].r, a[0].c, {p[1] * q[2] - p[2] * q[1], p[2] * q[0] - p[0] * q[2], p[0] * q[1] - p[1] * q[0]})}; }
    if (n == "linspace") { want(2, 3); double p = scalar(a[0]), q = scalar(a[1]); size_t m = a.size() == 3 ? size_t(scalar(a[2])) : 100; Value v = Value::mat(1, m); for (size_t i = 0; i < m; ++i) v.x[i] = m == 1 ? q : p + (q - p) * double(i) / double(m - 1); return {v}; }
    if (n == "numel") { want(1, 1); return {Value::num(double(a[0].count()))}; }
    if (n == "horzcat" || n == "vertcat") {
      Value o;
      for (auto const &v : a) { if (v.k != Value::NUM) throw Unsupported{n}; if (!v.count()) continue; Value t = n == "vertcat" ? transpose(v) : v; if (!o.count()) { o = t; continue; } if (o.r != t.r) throw MError{"sizes do not match"}; o.x.insert(o.x.end(), t.x.begin(), t.x.end()); o.c += t.c; }
      return {n == "vertcat" ? transpose(o) : o};
    }
    if (n == "repmat") { want(2, 3); size_t p = size_t(scalar(a[1])), q = a.size() == 3 ? size_t(scalar(a[2])) : p; Value v = Value::mat(a[0].r * p, a[0].c * q); for (size_t j = 0; j < v.c; ++j) for (size_t i = 0; i < v.r; ++i) v.x[i + j * v.r] = a[0].x[i % a[0].r + (j % a[0].c) * a[0].r]; return {v}; }
    if (n == "reshape") { want(3, 3); Value v = a[0]; v.r = size_t(scalar(a[1])); v.c = size_t(scalar(a[2])); if (v.count() != a[0].count()) throw MError{"reshape"}; return {v}; }
    if (n == "feval") { want(1, 99); Value f = a[0]; a.erase(a.begin()); if (f.k == Value::STR) { Frame fr; return invoke(f.s, a, nargout, fr); } return apply(f, a, nargout); }
    if (n == "arrayfun" || n == "cellfun") {
      bool uniform = true;
      Values in;
      for (size_t i = 1; i < a.size(); ++i) { if (a[i].k == Value::STR && a[i].s == "UniformOutput") { uniform = i + 1 < a.size() && truth(a[i + 1]); break; } in.push_back(a[i]); }
      if (in.empty()) throw MError{n};
      Value o = Value::mat(in[0].r, in[0].c);
      if (!uniform) { o = Value(); o.k = Value::CELL; o.r = in[0].r; o.c = in[0].c; o.cells.resize(o.count()); }
      for (size_t i = 0; i < in[0].count(); ++i) {
        Values one;
        for (auto const &v : in) one.push_back(n == "cellfun" ? v.cells[i] : v.k == Value::NUM ? Value::num(v.x[i]) : v);
        Values r = apply(a[0], one, nargout ? 1 : 0);
        if (uniform) { if (nargout) o.x[i] = scalar(r.at(0)); } else if (!r.empty()) o.cells[i] = r[0];
      }
      return {o};
    }
    if (n == "cylinder") {
      want(1, 2);
      size_t m = a.size() == 2 ? size_t(scalar(a[1])) : 20;
      Value r = a[0];
      if (r.count() == 1) r = Value::mat(1, 2, {r.x[0], r.x[0]});
      size_t k = r.count();
      Value X = Value::mat(k, m + 1), Y = X, Z = X;
      for (size_t j = 0; j <= m; ++j) for (size_t i = 0; i < k; ++i) {
        double t = 2 * M_PI * double(j) / double(m);
        X.x[i + j * k] = r.x[i] * std::cos(t);
        Y.x[i + j * k] = j == m ? 0 : r.x[i] * std::sin(t);
        Z.x[i + j * k] = double(i) / double(k - 1);
      }
      return {X, Y, Z};
    }
    throw MError{"undefined function or variable '" + n + "'"};
  }
};
} // namespace ml
