// C26: what the printers write, parsed back. C27: calls leave no trace outside their results
// (heap, output, stream formatting, floating-point environment, random generators, files).
#include "lib.hpp"
#include <atomic>
#include <cfenv>
#include <clocale>
#include <csignal>
#include <dirent.h>
#include <iomanip>
#include <locale>
#include <sstream>
#include <sys/stat.h>
#include <thread>
#include <xmmintrin.h>

// Live bytes on the heap as requested by the program, counted at the allocator. (The usable size
// of a block varies by up to 24 bytes with the history of the heap, so it is not used.)
extern "C" { void *__libc_malloc(size_t); void __libc_free(void *); void *__libc_memalign(size_t, size_t); }
static std::atomic<long> live{0}, calls{0};
struct Head { size_t n, off; };
static inline void *put(char *base, size_t off, size_t n) { if (!base) return nullptr; Head *h = (Head *)(base + off - sizeof(Head)); h->n = n; h->off = off; live += long(n); calls++; return base + off; }
extern "C" {
void *malloc(size_t n) { return n > (size_t(1) << 48) ? nullptr : put((char *)__libc_malloc(n + 16), 16, n); }
void free(void *p) { if (!p) return; Head *h = (Head *)((char *)p - sizeof(Head)); live -= long(h->n); __libc_free((char *)p - h->off); }
void *calloc(size_t a, size_t b) { if (b && a > (size_t(1) << 48) / b) return nullptr; void *p = malloc(a * b); if (p) memset(p, 0, a * b); return p; }
void *realloc(void *p, size_t n) { if (!p) return malloc(n); if (!n) { free(p); return nullptr; } Head *h = (Head *)((char *)p - sizeof(Head)); void *q = malloc(n); if (q) { memcpy(q, p, std::min(n, h->n)); free(p); } return q; }
void *reallocarray(void *p, size_t a, size_t b) { return b && a > (size_t(1) << 48) / b ? nullptr : realloc(p, a * b); }
void *memalign(size_t a, size_t n) { if (a < 16) a = 16; return put((char *)__libc_memalign(a, n + a), a, n); }
void *aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void **p, size_t a, size_t n) { *p = memalign(a, n); return *p ? 0 : 12; }
void *valloc(size_t n) { return memalign(4096, n); }
void *pvalloc(size_t n) { return memalign(4096, (n + 4095) & ~size_t(4095)); }
size_t malloc_usable_size(void *p) { return p ? ((Head *)((char *)p - sizeof(Head)))->n : 0; }
}

typedef AmiBase A;
// ------------------------------------------------------------------ C26
struct Tok { std::vector<std::string> t; };
static std::string tokens(const std::string &s) { // numbers and brackets only
  std::string o; size_t i = 0, n = s.size();
  while (i < n) {
    char ch = s[i];
    if (strchr("(){}[]", ch)) { o += ch; o += ' '; i++; continue; }
    bool neg = ch == '-' && i + 1 < n && (isdigit((unsigned char)s[i + 1]) || s[i + 1] == '.') && (i == 0 || !(s[i - 1] == '-' || isalnum((unsigned char)s[i - 1])));
    if (isdigit((unsigned char)ch) || neg) {
      char *e; double d = strtod(s.c_str() + i, &e); size_t k = e - s.c_str(); if (k <= i) { i++; continue; }
      char b[40]; snprintf(b, sizeof b, std::fabs(d) >= 1e6 ? "%.10e " : "%.4e ", d); o += b; i = k; continue;
    }
    i++;
  }
  return o;
}
static std::string num(double d) { char b[40]; snprintf(b, sizeof b, std::fabs(d) >= 1e6 ? "%.10e " : "%.4e ", d); return b; }
static std::string ints(const std::vector<int> &v) { std::string s; for (int x : v) s += num(x); return s; }
static std::string want(const A::g_struct &g) { return num(g.species_) + "( " + ints(g.eps_) + ") ( " + ints(g.alpha_) + ") "; }
static std::string want(const A::pole_struct &p) { return "( " + ints(p.eps_) + ") ( " + ints(p.alpha_) + ") ( " + ints(p.x_alpha_) + ") " + num(p.der_); }
template <class T> static std::string want(const std::vector<T> &v) { std::string s; for (auto &x : v) s += want(x); return s; }
static std::string want_S(const A::S_t &S) { std::string s; for (size_t i = 0; i < S.size(); i++) { s += "[ " + num(i) + "] ( "; for (auto &v : S[i]) { s += "{ "; for (double d : v) s += num(d); s += "} "; } s += ") "; } return s; }
static std::string want_Pi(const A::Pi_t &P) { std::string s; for (auto &v : P) s += "[ " + want(v) + "] "; return s; }
static std::string want_P(const A::P_t &P) { std::string s; for (size_t i = 0; i < P.size(); i++) s += "[ " + num(i) + "] " + want_Pi(P[i]); return s; }
static std::string want_R(const A::R_t &R) { std::string s; for (size_t i = 0; i < R.size(); i++) s += "[ " + num(i) + "] " + want(R[i]); return s; }
static std::string want_term(const A::term &t) { return num(t.g_list.size()) + want(t.g_list) + want(t.p_list) + num(t.sign); }
static std::string near(const std::string &a, const std::string &b) { size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) i++; size_t f = i > 60 ? i - 60 : 0; return "wrote ..." + a.substr(f, 160) + "... for ..." + b.substr(f, 160) + "..."; }
struct Grab { std::ostringstream o; std::streambuf *old; Grab() { old = std::cout.rdbuf(o.rdbuf()); } ~Grab() { std::cout.rdbuf(old); } };

static void c26(Ctx &c) {
  A keep;
  c.run("printed", c.thorough ? 30000 : 3000, [&](Rng &r) {
    Want w; w.cap = 250; w.dup = r.chance(0.4); w.next_min = 0; w.next_max = 3; w.no_zero_pole = false; Problem p; RefSol rs; if (!draw(r, w, p, rs)) { c.cnt["no problem drawn"]++; return; }
    if (r.chance(0.3)) for (auto &g : p.R0) g.species_ = r.range(-1, 12);
    A fresh; A &a = r.chance(0.5) ? fresh : keep; Sol s; c.note(dump(p)); build(a, p, s);
    if (r.chance(0.3)) { // entries no construction produces, but printers are for looking at anything
      for (auto &Si : s.S) for (auto &v : Si) for (double &d : v) if (r.chance(0.1)) d = r.range(-9999, 9999) / 64.0;
      for (auto &t : s.T) { if (r.chance(0.2)) t.sign = r.range(-9999, 9999) / 64.0; for (auto &q : t.p_list) { if (r.chance(0.2)) q.der_ = r.range(0, 15); if (r.chance(0.3)) { q.x_alpha_.clear(); for (int k = r.below(4); k > 0; k--) q.x_alpha_.push_back(r.range(-2, 2)); } } }
      for (auto &R : s.R) for (auto &g : R) for (auto &l : g) if (r.chance(0.1)) for (int &v : l.eps_) v = r.range(-200, 200);
      for (auto &P : s.P) for (auto &v : P) for (auto &q : v) if (r.chance(0.2)) { q.der_ = r.range(0, 15); for (int &x : q.eps_) x = r.range(-30, 30); }
      if (r.chance(0.5)) { // long lists
        auto grow = [&](auto &v, int n) { if (v.empty()) return; while (int(v.size()) < n) v.push_back(v[r.below(v.size())]); };
        if (!s.S.empty()) { auto &Si = s.S[r.below(s.S.size())]; if (!Si.empty()) { grow(Si[r.below(Si.size())], r.range(10, 300)); if (r.chance(0.3)) grow(Si, r.range(50, 300)); } }
        if (!s.P.empty()) { auto &Pi = s.P[r.below(s.P.size())]; if (!Pi.empty()) grow(Pi[r.below(Pi.size())], r.range(10, 150)); }
        auto &Rl = s.R[r.below(s.R.size())]; if (!Rl.empty()) { auto &g = Rl[r.below(Rl.size())]; grow(g, r.range(10, 150)); if (!g.empty()) { auto &q = g[r.below(g.size())]; grow(q.eps_, r.range(10, 80)); grow(q.alpha_, r.range(10, 80)); for (int &v : q.eps_) if (r.chance(0.2)) v = r.range(-2000000000, 2000000000); } }
        if (!s.T.empty()) { auto &t = s.T[r.below(s.T.size())]; grow(t.g_list, r.range(10, 100)); grow(t.p_list, r.range(10, 100)); if (r.chance(0.1)) grow(s.T, 300); }
        c.cnt["solutions with long lists"]++;
      }
      c.cnt["edited solutions"]++;
    }
    std::string before = ser_spr(s) + ser(s.T);
    auto look = [&](const char *what, const std::string &w, const std::function<void()> &f) {
      Grab g; f(); std::string t = tokens(g.o.str());
      c.cnt["printed entries read back"] += std::count(w.begin(), w.end(), ' '); c.cnt[std::string("calls: ") + what]++;
      if (t == w) return true;
      c.viol(std::string(what) + " does not show what it was given: " + near(t, w)); return false;
    };
    int n = p.n;
    if (!look("print_final", want_S(s.S) + want_P(s.P) + want_R(s.R), [&] { a.print_final(n, s.R, s.P, s.S); })) return;
    if (!look("print_S", want_S(s.S), [&] { a.print_S(n, s.S); }) || !look("print_P", want_P(s.P), [&] { a.print_P(n, s.P); }) || !look("print_R", want_R(s.R), [&] { a.print_R(n, s.R); })) return;
    std::string wt; for (size_t i = 0; i < s.T.size(); i++) wt += num(i) + want_term(s.T[i]);
    if (!look("print_terms", wt, [&] { a.print_terms(s.T); })) return;
    for (int k = 0; k < 3 && !s.T.empty(); k++) { auto &t = s.T[r.below(s.T.size())]; if (!look("print_term", want_term(t), [&] { a.print_term(t); })) return; }
    for (auto &Pi : s.P) { if (!look("print_Pi", want_Pi(Pi), [&] { a.print_Pi(n, Pi); })) return; if (!Pi.empty()) { auto &pa = Pi[r.below(Pi.size())]; if (!look("print_pole_array", want(pa), [&] { a.print_pole_array(pa); })) return; if (!pa.empty() && !look("print_pole_struct_info", want(pa[0]), [&] { a.print_pole_struct_info(pa[0]); })) return; } }
    for (auto &Ri : s.R) { if (!look("print_g_prod_array", want(Ri), [&] { a.print_g_prod_array(Ri); })) return; if (!Ri.empty() && !look("print_g_prod_info", want(Ri.back()), [&] { a.print_g_prod_info(Ri.back()); })) return; }
    for (auto &g : p.R0) { if (!look("print_g_struct_info", want(g), [&] { a.print_g_struct_info(g); }) || !look("print_epsilon_info", ints(g.eps_), [&] { a.print_epsilon_info(g.eps_); }) || !look("print_alpha_info", ints(g.alpha_), [&] { a.print_alpha_info(g.alpha_); })) return; }
    if (ser_spr(s) + ser(s.T) != before) { c.viol("printing changed the structures"); return; }
    c.seen(dump(p), s.T.size() > 1, std::to_string(wt.size()) + " bytes expected from print_terms");
  });
}

// ------------------------------------------------------------------ C27
static std::string fmt(std::ostream &o) { return std::to_string(long(o.flags())) + " precision " + std::to_string(o.precision()) + " width " + std::to_string(o.width()) + " fill " + std::to_string(int(o.fill())) + " exceptions " + std::to_string(int(o.exceptions())) + " state " + std::to_string(int(o.rdstate())); }
static std::string process_state() {
  unsigned short cw = 0; asm volatile("fnstcw %0" : "=m"(cw));
  std::string s = "rounding " + std::to_string(fegetround()) + " mxcsr " + std::to_string(_mm_getcsr() & ~0x3fu) + " x87 " + std::to_string(cw) + " | locale " + setlocale(LC_ALL, nullptr) + " " + std::locale().name() + " | cout " + fmt(std::cout) + " | cerr " + fmt(std::cerr);
  for (int sg : {SIGFPE, SIGSEGV, SIGABRT, SIGINT, SIGTERM, SIGALRM, SIGPIPE}) { struct sigaction sa; sigaction(sg, nullptr, &sa); s += " " + std::to_string((long)(void *)sa.sa_handler); }
  char cwd[4096]; s += std::string(" | cwd ") + (getcwd(cwd, sizeof cwd) ? cwd : "?"); mode_t m = umask(0); umask(m); s += " umask " + std::to_string(m);
  std::set_terminate(std::get_terminate()); s += " terminate " + std::to_string((long)(void *)std::get_terminate()) + " new " + std::to_string((long)(void *)std::get_new_handler());
  extern char **environ; uint64_t h = 0; for (char **e = environ; *e; e++) h = mix(h, fnv(*e)); s += " environment " + std::to_string(h);
  return s;
}
static int open_files() { DIR *d = opendir("/proc/self/fd"); if (!d) return -1; int n = 0; while (readdir(d)) n++; closedir(d); return n; }
// everything written to the descriptors 1 and 2 while this lives; nothing is forwarded
struct Fds {
  int s1, s2, t; std::streambuf *o = nullptr; static int sink() { static int fd = -1; if (fd < 0) { char n[] = "/tmp/libami-out-XXXXXX"; fd = mkstemp(n); if (fd < 0) exit(2); unlink(n); } return fd; }
  Fds() { fflush(stdout); fflush(stderr); std::cout.flush(); t = sink(); if (ftruncate(t, 0)) exit(2); lseek(t, 0, SEEK_SET); s1 = dup(1); s2 = dup(2); dup2(t, 1); dup2(t, 2); }
  long bytes() { fflush(stdout); fflush(stderr); std::cout.flush(); std::cerr.flush(); std::clog.flush(); return long(lseek(t, 0, SEEK_END)); }
  ~Fds() { bytes(); dup2(s1, 1); dup2(s2, 2); ::close(s1); ::close(s2); }
};
// all the calculations of a user, serialised
static std::string work(Rng &r, A &a, Problem &p, const std::vector<Point> &pts, bool otf, std::string *structs = nullptr) {
  Sol s; A::ami_parms pr(p.n, 0, p.type); build(a, p, s); std::string o;
  if (structs) *structs = ser_spr(s) + ser(s.T) + ser(s.f) + ser(s.ft);
  for (auto &x : pts) { for (int k = 0; k < 4; k++) { auto e = x.vars(); o += hexc(eval_route(a, pr, s, e, k)); o += a.overflow_detected ? "!" : " "; } if (otf) { auto e = x.vars(); o += hexc(a.evaluate_otf(pr, s.R, s.P, s.S, e)) + " "; } }
  A::Ri_t Ri; a.convert_terms_to_ri(s.T, Ri);
  if (!s.f.u.empty() && p.nalpha() > p.n) { a.derivative_opt(s.f.u, s.f.r, s.f.e); for (auto &x : pts) { auto e = x.vars(); o += hexc(a.evaluate(pr, s.R, s.P, s.S, e, s.f.u, s.f.r, s.f.e)); } }
  return o;
}
static void c27(Ctx &c) {
  auto gen = [&](Rng &r, Problem &p, RefSol &s, long cap) { Want w; w.cap = cap; w.dup = r.chance(0.4); w.next_min = 0; w.next_max = 3; w.no_zero_pole = false; if (!draw(r, w, p, s)) { c.cnt["no problem drawn"]++; return false; } if (r.chance(0.3) && p.nalpha() > p.n) set_type(p, bose_types[r.below(5)]); return true; };
  auto hard = [&](Rng &r, Point &x) { switch (r.below(5)) { case 4: for (auto &e : x.energy) e = 0; break; case 0: for (auto &e : x.energy) e = 0.5; break; case 1: x.beta = 1e6; break; case 2: for (auto &f : x.freq) f = 0; break; default: x.prefactor = 1e-200; } };
  c.run("process", c.thorough ? 20000 : 2000, [&](Rng &r) {
    Problem p; RefSol rs; if (!gen(r, p, rs, 200)) return; c.note(dump(p));
    std::vector<Point> pts; for (int k = 0; k < 3; k++) { pts.push_back(gen_point(r, p)); if (r.chance(0.2)) hard(r, pts.back()); }
    bool otf = !bosonic_type(p.type) && p.R0.size() <= 7 && rs.terms.size() < 100; A a; std::string first, second, s1, s2;
    { Mute m; first = work(r, a, p, pts, otf, &s1); }
    // a process in a state of its own
    std::ostringstream sink; auto *o1 = std::cout.rdbuf(sink.rdbuf()); auto f1 = std::cout.flags(); auto p1 = std::cout.precision(); char c1 = std::cout.fill();
    int prec = r.range(1, 25); std::cout.precision(prec); std::cout.fill(char(r.range(33, 90))); if (r.chance(0.5)) std::cout << std::hex << std::showpos << std::scientific; if (r.chance(0.3)) std::cerr << std::boolalpha;
    unsigned sd = unsigned(r.next()); srand(sd); int r1 = rand(); srand(sd); long l48; srand48(long(sd)); l48 = lrand48(); srand48(long(sd)); srandom(sd);
    Fds::sink(); std::string st; int nf = open_files(); bool live_fd; long written = 0;
    { Fds f; std::cout.rdbuf(o1); auto *e1 = std::cerr.rdbuf(); st = process_state(); second = work(r, a, p, pts, otf, &s2); std::string st2 = process_state(); written = f.bytes(); live_fd = std::cerr.rdbuf() == e1 && std::cout.rdbuf() == o1;
      std::cout.rdbuf(o1); if (st2 != st) { c.cur_dump += " before " + st + " after " + st2; st = ""; } }
    std::cout.flags(f1); std::cout.precision(p1); std::cout.fill(c1); std::cerr.unsetf(std::ios::boolalpha); int r2 = rand(); long l2 = lrand48(); (void)r1;
    srandom(sd); int r3 = rand(); // rand() and random() share their state in glibc
    c.cnt["process states compared"]++; c.seen(dump(p), true, "process unchanged");
    if (st.empty()) { c.viol("calls changed the state of the process"); return; }
    if (!live_fd) { c.viol("calls redirected a standard stream"); return; }
    if (written) { c.viol("construction or evaluation wrote " + std::to_string(written) + " bytes to the terminal"); return; }
    if (r2 != r3 || l2 != l48) { c.viol("calls consumed or reseeded the random generators of the C library"); return; }
    if (open_files() != nf) { c.viol("calls left files open"); return; }
    if (first != second || s1 != s2) { c.viol("results depend on stream formatting or random seeds: " + (s1 != s2 ? near(s1, s2) : near(first, second))); return; }
    { // a process with another rounding mode and flushing of denormals: values may differ, the modes stay
      static const int modes[] = {FE_TONEAREST, FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO}; int md = r.below(4); unsigned keep = _mm_getcsr(); fesetround(modes[md]); if (r.chance(0.5)) _mm_setcsr(_mm_getcsr() | 0x8040); std::string b = process_state(), t; { Mute m; t = work(r, a, p, pts, otf); } std::string d = process_state(); fesetround(FE_TONEAREST); _mm_setcsr(keep);
      c.cnt["other floating-point modes"]++; if (b != d) { c.cur_dump += " before " + b + " after " + d; c.viol("calls changed the floating-point control or other state of the process"); return; }
    }
    if (r.chance(0.5)) { // printing and diagnostics write, but leave the formatting alone
      Sol s; build(a, p, s); std::ostringstream o; auto *old = std::cout.rdbuf(o.rdbuf()); std::string b = process_state(); a.print_final(p.n, s.R, s.P, s.S); a.print_terms(s.T); std::string d = process_state(); std::cout.rdbuf(old);
      c.cnt["printers observed"]++; if (b != d) { c.cur_dump += " before " + b + " after " + d; c.viol("printing changed the state of the process"); return; }
    }
  });
  // heap: evaluating at ever new points keeps nothing
  c.run("evaluations", c.thorough ? 2400 : 320, [&](Rng &r) {
    Problem p; RefSol rs; if (!gen(r, p, rs, 60)) return; c.note(dump(p)); Mute m;
    A a; Sol s; A::ami_parms pr(p.n, r.chance(0.3) ? 0.05 : 0, p.type); build(a, p, s); if (r.chance(0.4)) { a.drop_der = r.chance(0.5); a.drop_bosonic_diverge = r.chance(0.5); a.precision_cutoff = r.chance(0.5) ? 1e-2 : 1e15; a.verbose = r.chance(0.08); c.cnt["series with evaluation options"]++; } bool otf = !bosonic_type(p.type) && p.R0.size() <= 5 && rs.terms.size() < 30;
    auto burst0 = [&](int n, double ph) { for (int k = 0; k < n; k++) { Point x = gen_point(r, p); if (r.chance(ph)) hard(r, x); for (int rt = 0; rt < 4; rt++) { auto e = x.vars(); eval_route(a, pr, s, e, rt); } if (otf && k % 8 == 0) { auto e = x.vars(); a.evaluate_otf(pr, s.R, s.P, s.S, e); } if (k % 8 == 1 && !s.T.empty()) { auto e = x.vars(); a.evaluate_term(pr, s.T[r.below(s.T.size())], e); } } };
    double ph = r.chance(0.5) ? 0.1 : r.chance(0.5) ? 0 : 0.9; auto burst = [&](int n) { burst0(n, ph); };
    burst(150); long l0 = live, c0 = calls; int n = 1200; burst(n); long grown = live - l0; c.cnt["evaluations whose heap was watched"] += 4 * n; c.cnt["heap allocations observed"] += calls - c0; c.mx["heap growth over one series, bytes"] = std::max(c.mx["heap growth over one series, bytes"], double(grown));
    c.seen(dump(p), true, std::to_string(grown) + " bytes kept after " + std::to_string(4 * n) + " evaluations");
    if (grown > 2 * n) { c.viol("evaluating keeps memory: the heap grew by " + std::to_string(grown) + " bytes in " + std::to_string(4 * n) + " evaluations"); return; }
    // evaluations in short-lived threads
    auto par = [&](int k) { while (k--) { Point x = gen_point(r, p); std::thread t([&] { A b; for (int rt = 0; rt < 4; rt++) { auto e = x.vars(); eval_route(b, pr, s, e, rt); } }); t.join(); } };
    if (r.chance(0.3)) { par(20); l0 = live; par(120); grown = live - l0; c.cnt["short-lived threads"] += 120; c.mx["heap growth over short-lived threads, bytes"] = std::max(c.mx["heap growth over short-lived threads, bytes"], double(grown)); if (grown > 8 * 120) { c.viol("threads that evaluated and ended keep memory: the heap grew by " + std::to_string(grown) + " bytes over 120 threads"); return; } }
  });
  // heap: solving problem after problem, with fresh or with reused objects and containers
  c.run("constructions", c.thorough ? 300 : 48, [&](Rng &r) {
    int mode = r.below(3); A shared; Mute m; std::string d;
    auto one = [&](A &a, Problem &p) { std::vector<Point> pts(1, gen_point(r, p)); work(r, a, p, pts, !bosonic_type(p.type) && p.R0.size() <= 5 && p.n <= 2); };
    auto batch = [&](int n) { for (int k = 0; k < n;) { Problem p; RefSol rs; if (!gen(r, p, rs, 40)) return; k++; c.cnt["constructions whose heap was watched"]++; if (mode == 0) { A a; one(a, p); } else { shared.drop_der = r.chance(0.3); shared.drop_bosonic_diverge = r.chance(0.3); one(shared, p); } } };
    if (mode < 2) {
      batch(60); long l0 = live; batch(300); long grown = live - l0; c.mx["heap growth over 300 problems, bytes"] = std::max(c.mx["heap growth over 300 problems, bytes"], double(grown)); c.note(std::string("series of problems with ") + (mode ? "one object" : "fresh objects")); c.seen(std::to_string(r.next()), true, std::to_string(grown) + " bytes kept");
      if (grown > 16 * 300) c.viol("solving keeps memory: the heap grew by " + std::to_string(grown) + " bytes over 300 problems");
    } else {
      Problem p; RefSol rs; if (!gen(r, p, rs, 120)) return; c.note(dump(p) + " solved again and again into the same containers"); Sol s; for (int k = 0; k < 4; k++) build(shared, p, s);
      long l0 = live; for (int k = 0; k < 60; k++) build(shared, p, s); long grown = live - l0; c.cnt["constructions whose heap was watched"] += 60; c.seen(c.cur_dump, true, std::to_string(grown) + " bytes kept");
      if (grown > 16 * 60) c.viol("solving into used containers keeps memory: the heap grew by " + std::to_string(grown) + " bytes over 60 repetitions");
    }
  });
  if (c.shard == 0 && c.only < 0) { // a directory of its own: nothing may be left in it
    c.run("files", 1, [&](Rng &r) {
      char was[4096], dir[] = "/tmp/libami-cwd-XXXXXX"; if (!getcwd(was, sizeof was) || !mkdtemp(dir) || chdir(dir)) exit(2); setenv("HOME", dir, 1); setenv("TMPDIR", dir, 1); std::string left;
      for (int k = 0; k < 60; k++) { Problem p; RefSol rs; if (!gen(r, p, rs, 60)) continue; Mute m; A a; std::vector<Point> pts(1, gen_point(r, p)); work(r, a, p, pts, !bosonic_type(p.type) && p.R0.size() <= 5); }
      DIR *d = opendir(dir); while (auto *e = readdir(d)) if (e->d_name[0] != '.' || strlen(e->d_name) > 2) { left += std::string(" ") + e->d_name; unlink((std::string(dir) + "/" + e->d_name).c_str()); } closedir(d);
      if (chdir(was)) exit(2); rmdir(dir); c.cnt["directories inspected"]++; c.note("working directory"); c.seen("directory", true);
      if (!left.empty()) c.viol("calls left files behind:" + left);
    });
  }
}
int main(int argc, char **argv) { return ctx_main(argc, argv, {{"C26", c26}, {"C27", c27}}); }
