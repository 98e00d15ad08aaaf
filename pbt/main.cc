// Runner: generates cases in forked workers, finds the lowest failing case, shrinks it,
// replays it three times and writes a result file.
#include "pbt.hh"
#include <algorithm>
#include <atomic>
#include <chrono>
#include <csignal>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <poll.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

namespace pbt {
std::vector<Test> &tests() { static std::vector<Test> t; return t; }
std::vector<Known> &knowns() { static std::vector<Known> t; return t; }
}
using namespace pbt;

static int const CASE_TIMEOUT = 30; // seconds; cases take milliseconds

static double now() {
  return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}
static uint64_t mix(uint64_t a, uint64_t b) {
  uint64_t z = a * 0x9e3779b97f4a7c15ULL + b + 0x632be59bd9b4e019ULL;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}
static uint64_t hstr(std::string const &s) {
  uint64_t h = 1469598103934665603ULL;
  for (unsigned char ch : s) { h ^= ch; h *= 1099511628211ULL; }
  return h;
}
static std::string jstr(std::string const &s) {
  std::string o = "\"";
  char b[8];
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') { o += '\\'; o += char(ch); }
    else if (ch == '\n') o += "\\n";
    else if (ch < 0x20 || ch >= 0x7f) { snprintf(b, sizeof b, "\\u%04x", ch); o += b; }
    else o += char(ch);
  }
  return o + "\"";
}

enum Status { OK = 0, FAIL = 1, DISCARD = 2, CRASH = 3 };
struct Eval {
  int                   status = OK;
  std::string           msg, log;
  std::vector<uint64_t> rec;
};

static void quiet() {
  int fd = open("/dev/null", O_WRONLY);
  dup2(fd, 1);
  close(fd);
}

// with the address sanitizer: live heap bytes
extern "C" size_t __sanitizer_get_current_allocated_bytes(void) __attribute__((weak));
static bool leaks = false; // repeat every case and look for memory that is never given back

// runs one case in this process
static int run_once(Test const &t, Case &c, std::string &msg) {
  try { t.fn(c); return OK; }
  catch (Failure const &f) { msg = f.msg; return FAIL; }
  catch (Discard const &d) { msg = d.why; return DISCARD; }
  catch (std::exception const &e) { msg = std::string("unexpected exception: ") + e.what(); return FAIL; }
  catch (...) { msg = "unexpected exception of unknown type"; return FAIL; }
}

static int run_case(Test const &t, Case &c, std::string &msg) {
  int st = run_once(t, c, msg);
  if (st != OK || !leaks || !__sanitizer_get_current_allocated_bytes) return st;
  std::vector<uint64_t> rec(c.rec);
  size_t live[4];
  for (int k = 0; k < 4; ++k) {
    {
      Case        d(&rec);
      std::string m;
      run_once(t, d, m);
    }
    live[k] = __sanitizer_get_current_allocated_bytes();
    if (k == 1 && live[1] <= live[0]) return st;
  }
  if (live[0] < live[1] && live[1] < live[2] && live[2] < live[3]) {
    msg = "every run of this case leaves memory behind that is never released: " + std::to_string(live[3] - live[2]) + " bytes";
    return FAIL;
  }
  return st;
}

static std::string slurp(std::string const &p, size_t max = 4000) {
  std::ifstream f(p);
  std::string s((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
  if (s.size() > max) s.resize(max);
  return s;
}

// runs one case in a child: a crash or hang becomes a verdict
static Eval eval_forked(Test const &t, std::vector<uint64_t> const *choices, uint64_t seed, bool verbose) {
  Eval r;
  int  p[2];
  if (pipe(p) != 0) { perror("pipe"); exit(4); }
  char errname[] = "/tmp/pbt_err_XXXXXX";
  int  efd = mkstemp(errname);
  fflush(stdout);
  pid_t pid = fork();
  if (pid == 0) {
    close(p[0]);
    quiet();
    dup2(efd, 2);
    alarm(CASE_TIMEOUT);
    Case *c = choices ? new Case(choices) : new Case(seed);
    c->verbose = verbose;
    std::string msg;
    int st = run_case(t, *c, msg);
    std::ostringstream os;
    os << st << "\n" << msg.size() << "\n" << msg << "\n";
    std::string lg = c->log.str();
    os << lg.size() << "\n" << lg << "\n" << c->rec.size() << "\n";
    for (uint64_t v : c->rec) os << v << " ";
    std::string s = os.str();
    size_t off = 0;
    while (off < s.size()) { ssize_t n = write(p[1], s.data() + off, s.size() - off); if (n <= 0) break; off += size_t(n); }
    _exit(0);
  }
  close(p[1]);
  std::string s;
  char buf[65536];
  ssize_t n;
  while ((n = read(p[0], buf, sizeof buf)) > 0) s.append(buf, size_t(n));
  close(p[0]);
  int ws = 0;
  waitpid(pid, &ws, 0);
  if (!(WIFEXITED(ws) && WEXITSTATUS(ws) == 0) || s.empty()) {
    r.status = CRASH;
    std::ostringstream os;
    if (WIFSIGNALED(ws) && WTERMSIG(ws) == SIGALRM) os << "no answer within " << CASE_TIMEOUT << " s";
    else if (WIFSIGNALED(ws)) os << "killed by signal " << WTERMSIG(ws);
    else os << "exit status " << WEXITSTATUS(ws);
    os << "\n" << slurp(errname);
    r.msg = os.str();
    if (choices) r.rec = *choices;
  } else {
    std::istringstream is(s);
    size_t k;
    std::string dummy;
    is >> r.status >> k; is.get();
    r.msg.resize(k); is.read(&r.msg[0], std::streamsize(k));
    is >> k; is.get();
    r.log.resize(k); is.read(&r.log[0], std::streamsize(k));
    is >> k;
    r.rec.resize(k);
    for (auto &v : r.rec) is >> v;
  }
  close(efd);
  unlink(errname);
  return r;
}

// runs the cases start, start+step, ..., last of one worker in one child
static Eval eval_batch(Test const &t, uint64_t base, uint64_t start, uint64_t step, uint64_t last) {
  Eval r;
  int  p[2];
  if (pipe(p) != 0) { perror("pipe"); exit(4); }
  fflush(stdout);
  pid_t pid = fork();
  if (pid == 0) {
    close(p[0]);
    quiet();
    std::string out = "0";
    for (uint64_t i = start; i <= last; i += step) {
      alarm(CASE_TIMEOUT);
      Case c(mix(base, i));
      std::string msg;
      if (run_case(t, c, msg) == FAIL) { out = "1case " + std::to_string(i) + " after its history: " + msg; break; }
    }
    alarm(0);
    ssize_t n = write(p[1], out.data(), out.size()); (void)n;
    _exit(0);
  }
  close(p[1]);
  std::string s;
  char buf[4096];
  ssize_t n;
  while ((n = read(p[0], buf, sizeof buf)) > 0) s.append(buf, size_t(n));
  close(p[0]);
  int ws = 0;
  waitpid(pid, &ws, 0);
  if (!(WIFEXITED(ws) && WEXITSTATUS(ws) == 0) || s.empty()) { r.status = CRASH; r.msg = "the batch crashes or hangs"; }
  else if (s[0] == '1') { r.status = FAIL; r.msg = s.substr(1); }
  return r;
}

static bool bad(int st) { return st == FAIL || st == CRASH; }

static std::vector<uint64_t> shrink(Test const &t, std::vector<uint64_t> best, double budget_s) {
  double t0 = now();
  int    evals = 0;
  auto   tryit = [&](std::vector<uint64_t> const &cand) {
    if (cand == best || now() - t0 > budget_s || ++evals > 4000) return false;
    Eval e = eval_forked(t, &cand, 0, false);
    if (bad(e.status)) {
      if (e.status == FAIL && e.rec.size() <= cand.size()) best = e.rec; else best = cand;
      return true;
    }
    return false;
  };
  bool improved = true;
  while (improved && now() - t0 < budget_s && evals < 4000) {
    improved = false;
    for (size_t blk = std::max<size_t>(1, best.size() / 2); blk >= 1; blk /= 2) {
      for (size_t i = 0; i + blk <= best.size();) {
        std::vector<uint64_t> c(best);
        c.erase(c.begin() + long(i), c.begin() + long(i + blk));
        if (tryit(c)) improved = true; else i += blk;
      }
      if (blk == 1) break;
    }
    for (size_t blk = 8; blk >= 1; blk /= 2) {
      for (size_t i = 0; i < best.size(); i += blk) {
        std::vector<uint64_t> c(best);
        bool any = false;
        for (size_t j = i; j < std::min(best.size(), i + blk); ++j) if (c[j]) { c[j] = 0; any = true; }
        if (any && tryit(c)) improved = true;
      }
      if (blk == 1) break;
    }
    for (size_t i = 0; i < best.size(); ++i) {
      uint64_t lo = 0;
      while (i < best.size() && best[i] > lo + 1) {
        std::vector<uint64_t> c(best);
        uint64_t mid = lo + (best[i] - lo) / 2;
        c[i] = mid;
        if (tryit(c)) improved = true; else lo = mid;
        if (now() - t0 > budget_s) break;
      }
      if (i < best.size() && best[i] > 0) {
        std::vector<uint64_t> c(best);
        c[i] -= 1;
        if (tryit(c)) improved = true;
      }
    }
  }
  return best;
}

struct Shared {
  std::atomic<uint64_t> minfail;
  std::atomic<uint64_t> evaluated, discarded, nontrivial, draws;
  std::atomic<uint64_t> current[64];
};

struct TestResult {
  uint64_t evaluated = 0, discarded = 0, distinct = 0, planned = 0;
  bool     budget_hit = false, failed = false;
  std::map<std::string, uint64_t> labels;
  std::vector<std::string> samples;
  uint64_t fail_index = 0;
  std::string fail_msg, fail_log, replay, unstable, batch;
  std::vector<uint64_t> fail_choices;
  double wall = 0;
};

static bool first_only = false, no_known = false;

static TestResult run_test(Test const &t, uint64_t seed, bool thorough, int W, double budget, double scale) {
  TestResult R;
  double   t0 = now();
  uint64_t N  = uint64_t(std::max(1.0, double(thorough ? t.thorough : t.quick) * scale));
  R.planned   = N;
  uint64_t base = mix(seed, hstr(t.id + "/" + t.name));
  Shared *sh = static_cast<Shared *>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  new (sh) Shared();
  sh->minfail = UINT64_MAX;
  uint64_t *hashes = static_cast<uint64_t *>(mmap(nullptr, sizeof(uint64_t) * N, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  struct Wk { pid_t pid; int fd; std::string buf; int w; uint64_t start; };
  std::vector<Wk> ws;
  std::string errdir = "/tmp/pbt_w_" + std::to_string(getpid());
  auto spawn = [&](int w, uint64_t start) {
    int p[2];
    if (pipe(p) != 0) { perror("pipe"); exit(4); }
    fflush(stdout);
    sh->current[w] = UINT64_MAX;
    pid_t pid = fork();
    if (pid == 0) {
      close(p[0]);
      for (auto &o : ws) close(o.fd);
      quiet();
      int efd = open((errdir + "_" + std::to_string(w)).c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
      dup2(efd, 2);
      std::map<std::string, uint64_t> labels;
      for (uint64_t i = start; i < N; i += uint64_t(W)) {
        if (i > sh->minfail.load()) break;
        if (now() - t0 > budget) { labels["!budget"] = 1; break; }
        sh->current[w] = i;
        alarm(CASE_TIMEOUT);
        Case c(mix(base, i));
        std::string msg;
        int st = run_case(t, c, msg);
        alarm(0);
        sh->current[w] = UINT64_MAX;
        sh->evaluated++;
        sh->draws += c.draws();
        if (st == DISCARD) { sh->discarded++; labels["discard:" + msg]++; continue; }
        for (auto &l : c.labels) labels[l]++;
        if (c.nontrivial) {
          uint64_t h = 0x1234567;
          for (uint64_t v : c.rec) h = mix(h, v);
          hashes[i] = h ? h : 1;
        }
        if (st == FAIL) {
          uint64_t cur = sh->minfail.load();
          while (i < cur && !sh->minfail.compare_exchange_weak(cur, i)) {}
          break;
        }
      }
      std::ostringstream os;
      for (auto &l : labels) os << l.second << " " << l.first << "\n";
      std::string s = os.str();
      if (!s.empty()) { ssize_t n = write(p[1], s.data(), s.size()); (void)n; }
      _exit(0);
    }
    close(p[1]);
    ws.push_back(Wk{pid, p[0], "", w, start});
  };
  for (int w = 0; w < W; ++w) spawn(w, uint64_t(w));
  for (size_t k = 0; k < ws.size(); ++k) {
    char buf[65536];
    ssize_t n;
    while ((n = read(ws[k].fd, buf, sizeof buf)) > 0) ws[k].buf.append(buf, size_t(n));
    close(ws[k].fd);
    ws[k].fd = -1;
    int st = 0;
    waitpid(ws[k].pid, &st, 0);
    if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
      uint64_t i = sh->current[ws[k].w].load();
      if (i == UINT64_MAX) { std::cerr << "worker died outside a case\n"; exit(4); }
      uint64_t cur = sh->minfail.load();
      while (i < cur && !sh->minfail.compare_exchange_weak(cur, i)) {}
    }
    std::istringstream is(ws[k].buf);
    uint64_t cnt;
    std::string l;
    while (is >> cnt) { is.get(); std::getline(is, l); if (l == "!budget") R.budget_hit = true; else R.labels[l] += cnt; }
    unlink((errdir + "_" + std::to_string(ws[k].w)).c_str());
  }
  R.evaluated = sh->evaluated; R.discarded = sh->discarded;
  std::vector<uint64_t> hs;
  std::vector<uint64_t> sample_idx;
  for (uint64_t i = 0; i < N; ++i) if (hashes[i]) { hs.push_back(hashes[i]); if (sample_idx.size() < 2 || (sample_idx.size() < 3 && i > N / 2)) sample_idx.push_back(i); }
  std::sort(hs.begin(), hs.end());
  R.distinct = uint64_t(std::unique(hs.begin(), hs.end()) - hs.begin());
  if (sh->minfail.load() != UINT64_MAX) {
    R.failed = true;
    R.fail_index = sh->minfail;
    if (first_only) { R.wall = now() - t0; return R; }
    // obtain the choices: a crashing case is regenerated through its seed by recording
    // into shared memory is not needed, since choices of a crash are the seed's stream
    Eval e = eval_forked(t, nullptr, mix(base, R.fail_index), true);
    std::vector<uint64_t> ch = e.rec;
    if (e.status == CRASH) {
      // re-draw the raw stream: enough values for any case
      Case c(mix(base, R.fail_index));
      ch.clear();
      for (int k = 0; k < 20000; ++k) ch.push_back(c.u(UINT64_MAX));
    }
    Eval last;
    bool alone = bad(e.status);
    if (alone) {
      ch = shrink(t, ch, thorough ? 120 : 45);
      for (int k = 0; k < 3; ++k) {
        last = eval_forked(t, &ch, 0, true);
        if (!bad(last.status)) { R.unstable = "shrunk case does not fail on every replay"; break; }
      }
    }
    if (!alone || !R.unstable.empty()) {
      // the failure may need the cases run before it in the same process: replay that history
      R.batch = std::to_string(base) + " " + std::to_string(R.fail_index % uint64_t(W)) + " " + std::to_string(W) + " " + std::to_string(R.fail_index);
      R.unstable.clear();
      for (int k = 0; k < 3; ++k) {
        last = eval_batch(t, base, R.fail_index % uint64_t(W), uint64_t(W), R.fail_index);
        if (!bad(last.status)) { R.unstable = "case " + std::to_string(R.fail_index) + " failed in a worker but neither alone nor after the same history"; break; }
      }
    }
    R.fail_choices = ch;
    R.fail_msg = last.msg;
    R.fail_log = last.log;
  }
  for (uint64_t i : sample_idx) {
    Eval e = eval_forked(t, nullptr, mix(base, i), true);
    std::string s = e.log;
    if (s.size() > 1500) s = s.substr(0, 1500) + "...";
    R.samples.push_back("case " + std::to_string(i) + ":\n" + s);
  }
  munmap(sh, sizeof(Shared));
  munmap(hashes, sizeof(uint64_t) * N);
  R.wall = now() - t0;
  return R;
}

int main(int argc, char **argv) {
  std::string prop, out, replaydir = ".", only, replay;
  uint64_t seed = 1;
  bool thorough = false, shrink_it = false;
  int  W = 8;
  double budget = 300, scale = 1;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--prop") prop = val();
    else if (a == "--seed") seed = std::stoull(val());
    else if (a == "--thorough") thorough = true;
    else if (a == "--out") out = val();
    else if (a == "--replaydir") replaydir = val();
    else if (a == "--only") only = val();
    else if (a == "--replay") replay = val();
    else if (a == "--shrink") { replay = val(); shrink_it = true; }
    else if (a == "--workers") W = std::min(64, std::stoi(val()));
    else if (a == "--budget") budget = std::stod(val());
    else if (a == "--scale") scale = std::stod(val());
    else if (a == "--leaks") leaks = true;
    else if (a == "--no-known") no_known = true;
    else if (a == "--first") first_only = true; // stop at the first failure, without shrinking
  }
  // one property, or several separated by commas
  auto wanted = [&](std::string const &id) { return ("," + prop + ",").find("," + id + ",") != std::string::npos; };
  signal(SIGPIPE, SIG_IGN);
  if (!replay.empty()) {
    std::ifstream f(replay);
    std::string line, id, name;
    std::vector<uint64_t> ch;
    uint64_t b0 = 0, b1 = 0, b2 = 1, b3 = 0;
    bool batch = false;
    while (std::getline(f, line)) {
      if (line.rfind("test: ", 0) == 0) { size_t s = line.find('/'); id = line.substr(6, s - 6); name = line.substr(s + 1); }
      if (line.rfind("batch: ", 0) == 0) { std::istringstream is(line.substr(7)); is >> b0 >> b1 >> b2 >> b3; batch = true; }
      if (line.rfind("choices:", 0) == 0) { std::istringstream is(line.substr(8)); uint64_t v; while (is >> v) ch.push_back(v); }
    }
    for (auto &t : tests()) if (t.id == id && t.name == name) {
      if (shrink_it) { // rewrites the file with a smaller failing case
        Eval e = eval_forked(t, &ch, 0, true);
        if (!bad(e.status)) { std::cout << "does not fail\n"; return 2; }
        ch = shrink(t, ch, 60);
        e = eval_forked(t, &ch, 0, true);
        std::ofstream o(replay);
        o << "test: " << id << "/" << name << "\nchoices:";
        for (uint64_t v : ch) o << " " << v;
        o << "\nmessage: " << e.msg << "\n" << e.log << "\n";
        std::cout << "shrunk to " << ch.size() << " choices: " << e.msg << "\n" << e.log << std::endl;
        return 1;
      }
      Eval e = batch ? eval_batch(t, b0, b1, b2, b3) : eval_forked(t, &ch, 0, true);
      std::cout << e.log << "--> " << (bad(e.status) ? "FAILS: " : e.status == DISCARD ? "discarded " : "passes ") << e.msg << std::endl;
      return bad(e.status) ? 1 : 0;
    }
    std::cerr << "no such test in this binary: " << id << "/" << name << "\n";
    return 3;
  }
  std::ostringstream js;
  js << "{\"tests\": [";
  bool first = true;
  int failures = 0;
  size_t ntests = 0;
  for (auto &t : tests()) if (wanted(t.id) && (only.empty() || only == t.name)) ++ntests;
  if (ntests == 0) { std::cerr << "no test for " << prop << "\n"; return 3; }
  for (auto &t : tests()) {
    if (!wanted(t.id) || (!only.empty() && only != t.name)) continue;
    TestResult R = run_test(t, seed, thorough, W, budget / double(ntests), scale);
    std::string rp;
    if (R.failed && first_only) { std::cout << "FIRST " << t.id << "/" << t.name << " " << R.fail_index << std::endl; return 1; }
    if (R.failed) {
      ++failures;
      rp = replaydir + "/" + t.id + "_" + t.name + ".replay";
      std::ofstream f(rp);
      f << "test: " << t.id << "/" << t.name << "\nseed: " << seed << " case " << R.fail_index << "\nchoices:";
      for (uint64_t v : R.fail_choices) f << " " << v;
      if (!R.batch.empty()) f << "\nbatch: " << R.batch;
      f << "\nmessage: " << R.fail_msg << "\n" << R.fail_log << "\n";
    }
    std::cout << t.id << "/" << t.name << ": " << R.evaluated << "/" << R.planned << " cases, " << R.discarded << " discarded, "
              << R.distinct << " distinct non-trivial, " << R.wall << " s" << (R.failed ? "  FAILED" : "") << (R.budget_hit ? " (budget hit)" : "") << std::endl;
    for (auto &l : R.labels) std::cout << "      " << l.first << ": " << l.second << "\n";
    if (R.failed) std::cout << "    case " << R.fail_index << " shrunk to " << R.fail_choices.size() << " choices: " << R.fail_msg << "\n" << R.fail_log << (R.unstable.empty() ? "" : "UNSTABLE: " + R.unstable) << std::endl;
    js << (first ? "" : ",") << "\n{\"name\": " << jstr(t.name) << ", \"rule\": " << jstr(t.rule) << ", \"evaluated\": " << R.evaluated << ", \"discarded\": " << R.discarded
       << ", \"distinct\": " << R.distinct << ", \"budget_hit\": " << (R.budget_hit ? "true" : "false") << ", \"wall\": " << R.wall << ", \"labels\": {";
    bool f2 = true;
    for (auto &l : R.labels) { js << (f2 ? "" : ", ") << jstr(l.first) << ": " << l.second; f2 = false; }
    js << "}, \"samples\": [";
    f2 = true;
    for (auto &s : R.samples) { js << (f2 ? "" : ", ") << jstr(s); f2 = false; }
    js << "], \"failed\": " << (R.failed ? "true" : "false") << ", \"unstable\": " << jstr(R.unstable) << ", \"replay\": " << jstr(rp) << ", \"message\": " << jstr(R.fail_msg) << "}";
    first = false;
  }
  js << "],\n\"known\": [";
  first = true;
  for (auto &k : knowns()) {
    if (no_known || !wanted(k.id)) continue;
    int p[2];
    if (pipe(p) != 0) return 4;
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0) {
      quiet();
      alarm(CASE_TIMEOUT);
      std::string s;
      try { s = k.fn(); } catch (std::exception const &e) { s = std::string("exception: ") + e.what(); }
      ssize_t n = write(p[1], s.data(), s.size()); (void)n;
      _exit(0);
    }
    close(p[1]);
    std::string s;
    char buf[4096];
    ssize_t n;
    while ((n = read(p[0], buf, sizeof buf)) > 0) s.append(buf, size_t(n));
    close(p[0]);
    int st;
    waitpid(pid, &st, 0);
    if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) s = "crashes";
    js << (first ? "" : ",") << "{\"key\": " << jstr(k.key) << ", \"still\": " << jstr(s) << "}";
    first = false;
  }
  js << "]}\n";
  if (!out.empty()) { std::ofstream f(out); f << js.str(); }
  return failures ? 1 : 0;
}
