// Run context of one monitor process: shard of a case range, progress file for crash
// attribution, counters, distinct-case signatures, samples, violations.
#pragma once
#include "common.hpp"
#include <fcntl.h>
#include <iostream>
#include <sys/mman.h>
#include <ctime>
#include <unistd.h>

inline std::string jesc(const std::string &s) {
  std::string o; char b[8];
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += char(c); }
    else if (c == '\n') o += "\\n";
    else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += char(c);
  }
  return o;
}

struct Ctx {
  std::string prop; uint64_t seed = 1; bool thorough = false; double scale = 1;
  int shard = 0, nshards = 1; long only = -1; std::string only_group, out, in;
  std::map<std::string, long> cnt; std::map<std::string, double> mx;
  std::unordered_set<uint64_t> sig; std::vector<std::string> samples;
  long evals = 0, viols = 0; std::string cur_group; long cur_idx = -1; std::string cur_dump;
  char *prog = nullptr; static const size_t PSZ = 65536;
  std::streambuf *realout = nullptr;

  void open_progress(const std::string &f) {
    int fd = open(f.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
    if (fd < 0 || ftruncate(fd, PSZ) != 0) { perror("progress"); exit(2); }
    prog = (char *)mmap(nullptr, PSZ, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    if (prog == (char *)MAP_FAILED) { perror("mmap"); exit(2); }
    close(fd);
  }
  void note(const std::string &d) { // what is being executed right now
    cur_dump = d;
    if (prog) { size_t n = std::min(d.size(), PSZ - 256); memcpy(prog + 128, d.data(), n); prog[128 + n] = 0; }
  }
  void emit(const std::string &line) { fprintf(stdout, "%s\n", line.c_str()); fflush(stdout); }
  void viol(const std::string &msg, const std::string &key = "") {
    viols++; cnt["violations"]++;
    emit("{\"viol\":{\"group\":\"" + cur_group + "\",\"case\":" + std::to_string(cur_idx) + ",\"key\":\"" + jesc(key) + "\",\"msg\":\"" + jesc(msg) + "\",\"dump\":\"" + jesc(cur_dump) + "\"}}");
  }
  void seen(const std::string &what, bool nontrivial, const std::string &sample_extra = "") {
    evals++;
    if (!nontrivial) return;
    bool fresh = sig.insert(fnv(what)).second;
    if (fresh && samples.size() < 3) samples.push_back(cur_group + "#" + std::to_string(cur_idx) + ": " + what.substr(0, 700) + (sample_extra.empty() ? "" : " => " + sample_extra));
  }
  // run n cases of a group; each case has its own PRNG, so it can be replayed alone
  void run(const char *group, long n, const std::function<void(Rng &)> &fn) {
    cur_group = group;
    if (!only_group.empty() && only_group != group) return;
    n = long(n * scale + 0.5); if (n < 1) n = 1;
    for (long i = 0; i < n; i++) {
      if (only >= 0) { if (i != only) continue; }
      else if (i % nshards != shard) continue;
      cur_idx = i; cur_dump = "(generating)";
      if (prog) { snprintf(prog, 128, "%s %ld", group, i); prog[128] = 0; }
      Rng r(mix(mix(seed, fnv(prop + "/" + group)), uint64_t(i)));
      clock_t t0 = clock(); fn(r); mx["longest case, cpu seconds"] = std::max(mx["longest case, cpu seconds"], double(clock() - t0) / CLOCKS_PER_SEC);
      cnt["cases:" + cur_group]++;
      if (viols >= 8) return;
    }
  }
  void finish() {
    std::string s = "{\"stats\":{\"evals\":" + std::to_string(evals) + ",\"counters\":{";
    bool f = true;
    for (auto &c : cnt) { s += std::string(f ? "" : ",") + "\"" + jesc(c.first) + "\":" + std::to_string(c.second); f = false; }
    s += "},\"max\":{"; f = true;
    for (auto &c : mx) { char b[64]; snprintf(b, sizeof b, "%.6g", std::isfinite(c.second) ? c.second : 1e300); s += std::string(f ? "" : ",") + "\"" + jesc(c.first) + "\":" + b; f = false; }
    s += "},\"samples\":["; f = true;
    for (auto &c : samples) { s += std::string(f ? "" : ",") + "\"" + jesc(c) + "\""; f = false; }
    s += "],\"sig\":["; f = true;
    for (auto h : sig) { s += std::string(f ? "" : ",") + "\"" + std::to_string(h) + "\""; f = false; }
    s += "]}}";
    emit(s);
  }
};

inline int ctx_main(int argc, char **argv, const std::map<std::string, std::function<void(Ctx &)>> &table) {
  Ctx c; std::string progf;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i]; auto nx = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--prop") c.prop = nx();
    else if (a == "--seed") c.seed = strtoull(nx().c_str(), 0, 10);
    else if (a == "--thorough") c.thorough = true;
    else if (a == "--scale") c.scale = atof(nx().c_str());
    else if (a == "--shard") c.shard = atoi(nx().c_str());
    else if (a == "--nshards") c.nshards = atoi(nx().c_str());
    else if (a == "--case") c.only = atol(nx().c_str());
    else if (a == "--group") c.only_group = nx();
    else if (a == "--progress") progf = nx();
    else if (a == "--out") c.out = nx();
    else if (a == "--in") c.in = nx();
    else { fprintf(stderr, "bad argument %s\n", a.c_str()); return 2; }
  }
  auto it = table.find(c.prop);
  if (it == table.end()) { fprintf(stderr, "unknown property %s\n", c.prop.c_str()); return 2; }
  if (!progf.empty()) c.open_progress(progf);
  it->second(c);
  c.finish();
  return 0;
}

// swallow what the library prints to std::cout/cerr while it is being observed, and count it
struct CountBuf : std::streambuf {
  long n = 0;
  int overflow(int ch) override { n++; return ch == EOF ? 0 : ch; }
  std::streamsize xsputn(const char *, std::streamsize k) override { n += k; return k; }
};
struct Mute {
  CountBuf b; std::streambuf *o, *e;
  Mute() { o = std::cout.rdbuf(&b); e = std::cerr.rdbuf(&b); }
  ~Mute() { std::cout.rdbuf(o); std::cerr.rdbuf(e); }
  long bytes() const { return b.n; }
};
