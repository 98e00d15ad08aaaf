// Coverage-guided search over a test's choices: libFuzzer mutates the sequence of integers
// a case is drawn from (8 bytes each) instead of file contents.
//   PBT_TEST  property/test     PBT_REPLAY  where a failing case is written
#include "pbt.hh"
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <unistd.h>

namespace pbt {
std::vector<Test> &tests() { static std::vector<Test> t; return t; }
std::vector<Known> &knowns() { static std::vector<Known> t; return t; }
}
using namespace pbt;

static Test const *test = nullptr;
static size_t const MAXC = 4096; // choices

static void select() {
  char const *n = getenv("PBT_TEST");
  for (auto &t : tests()) if (n && t.id + "/" + t.name == n) test = &t;
  if (!test) { std::cerr << "PBT_TEST names no test\n"; exit(3); }
  int fd = open("/dev/null", O_WRONLY);
  dup2(fd, 1);
  close(fd);
}

static std::vector<uint64_t> decode(uint8_t const *p, size_t n) {
  std::vector<uint64_t> c(std::min(n / 8, MAXC));
  if (!c.empty()) memcpy(c.data(), p, c.size() * 8);
  return c;
}

static std::string verdict(Case &c) {
  try { test->fn(c); }
  catch (Failure const &f) { return f.msg.empty() ? "failed" : f.msg; }
  catch (Discard const &) {}
  catch (std::exception const &e) { return std::string("unexpected exception: ") + e.what(); }
  catch (...) { return "unexpected exception of unknown type"; }
  return "";
}

extern "C" int LLVMFuzzerTestOneInput(uint8_t const *p, size_t n) {
  if (!test) select();
  std::vector<uint64_t> ch = decode(p, n);
  Case c(&ch);
  std::string m = verdict(c);
  if (!m.empty()) {
    int fd = open(getenv("PBT_REPLAY"), O_CREAT | O_EXCL | O_WRONLY, 0600);
    if (fd >= 0) {
      std::string s = "test: " + test->id + "/" + test->name + "\nguided search\nchoices:";
      for (uint64_t v : c.rec) s += " " + std::to_string(v);
      s += "\nmessage: " + m + "\n";
      ssize_t w = write(fd, s.data(), s.size()); (void)w;
      close(fd);
    }
    _exit(77);
  }
  return 0;
}

extern "C" size_t LLVMFuzzerCustomMutator(uint8_t *p, size_t n, size_t max, unsigned seed) {
  uint64_t z = seed * 0x9e3779b97f4a7c15ULL + 1;
  auto rnd = [&](uint64_t b) { z ^= z << 13; z ^= z >> 7; z ^= z << 17; return b ? (z >> 11) % b : 0; };
  for (int k = 0; k < 4; ++k) rnd(2);
  auto value = [&]() -> uint64_t {
    switch (rnd(4)) {
      case 0: return rnd(4);
      case 1: return rnd(24);
      case 2: return uint64_t(1) << rnd(41);
      default: return rnd(1ULL << 40);
    }
  };
  size_t cap = std::min(max / 8, MAXC);
  std::vector<uint64_t> c = decode(p, n);
  int steps = 1 + int(rnd(4));
  for (int s = 0; s < steps; ++s) {
    if (c.empty() || (rnd(12) == 0 && c.size() < cap)) { // fresh tail
      size_t k = 1 + rnd(64);
      while (k-- && c.size() < cap) c.push_back(value());
      continue;
    }
    size_t i = rnd(c.size());
    switch (rnd(10)) {
      case 0: case 1: case 2: case 3: c[i] = value(); break;
      case 4: c[i] = c[rnd(c.size())]; break;
      case 5: c[i] += rnd(2) ? 1 : uint64_t(-1); break;
      case 6: c[i] ^= 1ULL << rnd(40); break;
      case 7: { size_t k = std::min(c.size() - i, size_t(1 + rnd(8))); c.erase(c.begin() + long(i), c.begin() + long(i + k)); break; }
      case 8: { size_t k = 1 + rnd(8); while (k-- && c.size() < cap) c.insert(c.begin() + long(i), value()); break; }
      default: { // repeat a part, as a history does
        size_t k = std::min(c.size() - i, size_t(1 + rnd(24)));
        std::vector<uint64_t> part(c.begin() + long(i), c.begin() + long(i + k));
        size_t j = rnd(c.size() + 1);
        if (c.size() + k <= cap) c.insert(c.begin() + long(j), part.begin(), part.end());
      }
    }
  }
  if (c.size() > cap) c.resize(cap);
  memcpy(p, c.data(), c.size() * 8);
  return c.size() * 8;
}

extern "C" size_t LLVMFuzzerCustomCrossOver(uint8_t const *a, size_t na, uint8_t const *b, size_t nb, uint8_t *o, size_t max, unsigned seed) {
  std::vector<uint64_t> x = decode(a, na), y = decode(b, nb);
  size_t i = x.empty() ? 0 : seed % (x.size() + 1), j = y.empty() ? 0 : (seed / 7) % (y.size() + 1);
  x.resize(i);
  x.insert(x.end(), y.begin() + long(j), y.end());
  x.resize(std::min(x.size(), std::min(max / 8, MAXC)));
  memcpy(o, x.data(), x.size() * 8);
  return x.size() * 8;
}

extern "C" int LLVMFuzzerRunDriver(int *, char ***, int (*)(uint8_t const *, size_t));
// --seeds N DIR: writes the choices of N random cases of the test as a starting corpus
int main(int argc, char **argv) {
  if (argc == 4 && std::string(argv[1]) == "--seeds") {
    select();
    for (int i = 0; i < atoi(argv[2]); ++i) {
      Case c(uint64_t(i) * 7919 + 17);
      verdict(c);
      if (c.rec.size() > MAXC) continue;
      std::ofstream f(std::string(argv[3]) + "/seed" + std::to_string(i), std::ios::binary);
      f.write(reinterpret_cast<char const *>(c.rec.data()), std::streamsize(c.rec.size() * 8));
    }
    return 0;
  }
  return LLVMFuzzerRunDriver(&argc, &argv, LLVMFuzzerTestOneInput);
}
