// End-to-end monitors over the public API: construct / factorise / evaluate.
#include "lib.hpp"
#include <sstream>
#include <sys/wait.h>
#include <unistd.h>

static std::string cd_dump(const Problem &p, const Point &x) { return dump(p) + " | " + dump(x); }
// the cost of factorising grows with the square of the number of terms: work is bounded by counts
static long cap_for(Ctx &c, Rng &r) { return c.thorough ? (r.chance(0.03) ? 4000 : 1500) : (r.chance(0.01) ? 2500 : 1200); }

// plain double-precision sum over |m| < N of every summed frequency (the last one bosonic if asked)
static cd box_sum(const Problem &p, const Point &x, int N) {
  std::vector<cd> f(x.freq.begin(), x.freq.end()); cd tot = 0; int V = p.nalpha();
  // per line: constant part, then the loop over frequencies adds +-i nu
  std::vector<cd> base(p.R0.size());
  for (size_t g = 0; g < p.R0.size(); g++) { cd d = 0; for (int i = p.n; i < V; i++) d += double(p.R0[g].alpha_[i]) * f[i]; for (size_t j = 0; j < p.R0[g].eps_.size(); j++) d += double(p.R0[g].eps_[j]) * x.energy[j]; base[g] = d; }
  std::function<void(int, std::vector<cd>)> rec = [&](int k, std::vector<cd> d) {
    int off = p.fermi[k] ? 1 : 0;
    std::vector<int> dep; cd inert = 1; bool last = k == p.n - 1;
    for (size_t g = 0; g < d.size(); g++) { if (p.R0[g].alpha_[k]) dep.push_back(g); else if (last) inert *= d[g]; }
    cd s = 0;
    for (int m = -N; m < N + (off ? 0 : 1); m++) {
      double w = (2 * m + off) * M_PI / x.beta;
      if (last) { cd pr = 1; for (int g : dep) pr *= d[g] + cd(0, p.R0[g].alpha_[k] * w); s += 1.0 / pr; }
      else { std::vector<cd> e = d; for (int g : dep) e[g] += cd(0, p.R0[g].alpha_[k] * w); rec(k + 1, e); }
    }
    if (last) tot += s / inert;
  };
  rec(0, base);
  return x.prefactor * tot / std::pow(x.beta, p.n);
}
struct BoxSum { cd v; double tol; };
static BoxSum box_limit(const Problem &p, const Point &x, int N) { // cut-offs N/2, N, 2N; the tail decays at least like 1/N
  cd a = box_sum(p, x, N / 2), b = box_sum(p, x, N), d = box_sum(p, x, 2 * N);
  return {d, 2 * (std::abs(a - b) + std::abs(d - b)) + 1e-9 * std::abs(d)};
}
// Recorded inputs with a pole of zero symbolic energy on a Matsubara frequency, judged by the plain sum.
struct Recorded { const char *key; int n; std::vector<AmiBase::g_struct> R0; AmiBase::graph_type t; std::vector<double> e; double beta, w; bool otf; };
static void recorded(Ctx &c, std::vector<Recorded> ks) {
  for (size_t i = 0; i < ks.size(); i++) c.run(ks[i].key, 1, [&](Rng &) {
    if (c.shard != 0 && c.only < 0) return;
    Recorded &k = ks[i]; Problem p; p.n = k.n; p.R0 = k.R0; int ne = k.e.size(); for (auto &g : p.R0) g.eps_.resize(ne, 0);
    p.fermi.assign(p.nalpha(), 1); set_type(p, k.t);
    Point x; for (double e : k.e) x.energy.push_back(e); x.freq.assign(p.nalpha(), 0.0); x.freq.back() = cd(0, k.w); x.beta = k.beta;
    c.note(cd_dump(p, x));
    BoxSum b = box_limit(p, x, 400);
    AmiBase a; Sol so; build(a, p, so); AmiBase::ami_parms pr(p.n, 0, p.type); auto e = x.vars();
    cd g = k.otf ? a.evaluate_otf(pr, so.R, so.P, so.S, e) : a.evaluate(pr, so.R, so.P, so.S, e);
    c.cnt["recorded zero-energy-pole inputs observed"]++;
    if (!(std::abs(g - b.v) <= b.tol)) c.viol(std::string("pole of zero symbolic energy on a Matsubara frequency: ") + (k.otf ? "the on-the-fly evaluation" : "evaluate") + " gave " + cstr(g) + " but the plain sum is " + cstr(b.v), k.key);
  });
}
// ------------------------------------------------------------------ C01
// brute-force Matsubara sum (n = 1): validates the symbolic reference itself and the library
static void brute1(Ctx &c, Rng &r) {
  Problem p; GenOpt o; o.nmin = o.nmax = 1; o.max_g = 6; o.next_max = 2; o.p_dup = 0.4; o.max_mult = 3; o.p_nointernal = 0.1;
  int t = 0; do { if (++t > 300) return; } while (!gen_problem(r, o, p) || [&] { int k = 0; for (auto &g : p.R0) k += g.alpha_[0] != 0; return k < 4; }());
  PointOpt po; po.wild = false; Point x = gen_point(r, p, po); x.beta = r.uni(0.5, 6); x.prefactor = 1;
  for (int i = p.n; i < p.nalpha(); i++) x.freq[i] = cd(0, (2 * r.range(-3, 3) + 1) * M_PI / x.beta);
  for (int i = 0; i < p.n; i++) x.freq[i] = 0;
  c.note(cd_dump(p, x));
  RefSol s = ref_solve(p, nullptr, true, 2000); if (!s.ok) return;
  RefVal v = ref_eval(s, x); if (!usable(v, c)) return;
  const int M = 6000; cq sum;
  for (int m = M - 1; m >= 0; m--) for (int sg = 0; sg < 2; sg++) {
    q w = (2 * q(m) + 1) * M_PIq / q(x.beta); if (sg) w = -w;
    cq pr(1);
    for (auto &g : p.R0) {
      cq d(0, q(g.alpha_[0]) * w);
      for (size_t i = 1; i < g.alpha_.size(); i++) d = d + q(g.alpha_[i]) * cq(x.freq[i]);
      for (size_t i = 0; i < g.eps_.size(); i++) d = d + q(g.eps_[i]) * cq(x.energy[i]);
      pr = pr / d;
    }
    sum = sum + pr;
  }
  sum = (q(1) / q(x.beta)) * sum;
  // the tail of |h| ~ w^-k, k >= 4
  double wm = 2 * M * M_PI / x.beta, tail = 4.0 / std::pow(wm / 2, 3) * 10;
  double rest = 1; for (auto &g : p.R0) if (!g.alpha_[0]) { cq d; for (size_t i = 1; i < g.alpha_.size(); i++) d = d + q(g.alpha_[i]) * cq(x.freq[i]); for (size_t i = 0; i < g.eps_.size(); i++) d = d + q(g.eps_[i]) * cq(x.energy[i]); rest /= std::max(1e-3, double(qabs(d))); }
  tail *= std::max(1.0, rest);
  double e = double(qabs(sum - v.v));
  c.cnt["brute-force Matsubara sums compared with the reference"]++;
  if (!(e <= tail + 1e-18 * v.A)) { fprintf(stderr, "reference model disagrees with the brute-force sum: %g > %g: %s\n", e, tail, c.cur_dump.c_str()); exit(3); }
  AmiBase a; Sol so; build(a, p, so); AmiBase::ami_parms pr(p.n, 0); auto ev = x.vars();
  cd g = a.evaluate(pr, so.R, so.P, so.S, ev);
  double err = std::abs(g - tod(sum));
  c.seen(dump(p), true, cstr(g) + " vs direct sum " + cstr(tod(sum)));
  if (!(err <= tail + ref_tol(v))) c.viol("evaluate gave " + cstr(g) + ", the direct Matsubara sum over 12000 frequencies is " + cstr(tod(sum)));
}
// brute-force double and triple sums judge the library without the symbolic reference
static void brute2(Ctx &c, Rng &r) {
  int n = r.chance(0.8) ? 2 : 3; if (r.chance(0.1)) n = 1;
  GenOpt o; o.nmin = o.nmax = n; o.max_g = n == 3 ? 8 : 7; o.next_max = 2; o.p_dup = 0.4; o.max_mult = 3; o.p_nointernal = 0.05; o.p_share = r.chance(0.3) ? 0.5 : 0.1; o.p_combo = 0.2;
  Problem p; RefSol s; int t = 0;
  for (;;) { if (++t > 200) { c.cnt["no problem drawn"]++; return; } if (!gen_problem(r, o, p)) continue; bool slow = false; for (int k = 0; k < n; k++) { int d = 0; for (auto &g : p.R0) d += g.alpha_[k] != 0; slow |= d < 3; } if (slow) continue; s = ref_solve(p, nullptr, true, 2000); if (s.ok && !s.zero_pole) break; }
  set_type(p, r.chance(0.6) ? fermi_types[r.below(7)] : bose_types[r.below(5)]);
  if (bosonic_type(p.type)) { s = ref_solve(p, nullptr, true, 2000); if (!s.ok || s.zero_pole) { set_type(p, AmiBase::Sigma); s = ref_solve(p, nullptr, true, 2000); } }
  PointOpt po; po.wild = false; Point x = gen_point(r, p, po); x.beta = r.uni(0.5, 4); x.prefactor = r.chance(0.5) ? 1 : -2.5;
  for (int i = p.n; i < p.nalpha(); i++) x.freq[i] = cd(0, (2 * r.range(-3, 3) + (p.fermi[i] ? 1 : 0)) * M_PI / x.beta);
  for (int i = 0; i < p.n; i++) x.freq[i] = 0;
  c.note(cd_dump(p, x));
  RefVal v = ref_eval(s, x); if (!usable(v, c)) return;
  BoxSum b = box_limit(p, x, n == 1 ? 20000 : n == 2 ? (c.thorough ? 400 : 200) : 24);
  if (!(b.tol < 0.05 * std::abs(b.v))) { c.cnt["skipped: direct sum converges too slowly"]++; return; }
  AmiBase a; Sol so; build(a, p, so); AmiBase::ami_parms pr(p.n, 0, p.type); auto ev = x.vars();
  int route = r.below(4); cd g = eval_route(a, pr, so, ev, route);
  c.cnt["direct sums compared, sums=" + std::to_string(n)]++; c.seen(dump(p) + dump(x), true, cstr(g) + " vs direct sum " + cstr(b.v));
  if (!(std::abs(tod(v.v) - b.v) <= b.tol + ref_tol(v))) { fprintf(stderr, "reference model disagrees with the direct sum %s +- %g: %s: %s\n", cstr(b.v).c_str(), b.tol, cstr(tod(v.v)).c_str(), c.cur_dump.c_str()); exit(3); }
  if (!(std::abs(g - b.v) <= b.tol + ref_tol(v))) c.viol(std::string("evaluate(") + route_name[route] + ") gave " + cstr(g) + ", the direct Matsubara sum is " + cstr(b.v) + " +- " + std::to_string(b.tol));
}
static void c01_known(Ctx &c) {
  recorded(c, {
    {"zero-transfer-1", 2, {{{1, 0, 0}, {1, 0, 0}}, {{0, 1, 0}, {0, 1, 0}}, {{1, 0, 0}, {1, 1, -1}}, {{0, 0, 1}, {0, 1, 0}}}, AmiBase::Sigma, {-0.3, 0.4, 0.7}, 4.0, M_PI / 4, false},
    {"zero-transfer-2", 2, {{{1, 0}, {1, 0, 0}}, {{0, 1}, {0, 1, 0}}, {{1, 0}, {1, 1, -1}}}, AmiBase::Sigma, {0.6, -0.9}, 2.0, 3 * M_PI / 2, false}});
}
static void c15_known(Ctx &c) {
  recorded(c, {{"otf-zero-transfer-1", 2, {{{1, 0, 0, 0}, {1, 0, 0}}, {{0, 1, 0, 0}, {0, 1, 0}}, {{0, 0, 1, 0}, {1, 1, -1}}, {{0, 0, 0, 1}, {0, 1, 0}}}, AmiBase::Sigma, {-0.3, 0.4, -0.3, 0.41}, 4.0, M_PI / 4, true}});
}
// Very many terms: a product of independent sums, whose exact value is the product of the
// exact values of the single sums.
static void separable(Ctx &c, long n, const std::vector<int> &routes, long most) {
  c.run("separable", n, [&](Rng &r) {
    bool fac = std::find(routes.begin(), routes.end(), int(FSPR)) != routes.end() || std::find(routes.begin(), routes.end(), int(FTERMS)) != routes.end();
    bool big = r.chance(0.4); long lim = big ? most : fac ? 800 : 4000, N = 1; std::vector<int> k; bool few = big && fac; // factorising takes a time quadratic in the number of different products
    int like = few ? r.range(2, 3) : r.range(2, 6); if (few && like == 3) lim = 7000; while (true) { int x = few || r.chance(0.6) ? like : r.range(2, 6); if (N * x > lim) { if (x == 2) break; like = 2; continue; } k.push_back(x); N *= x; if (k.size() == 16) break; }
    int n = k.size(), E = std::max(*std::max_element(k.begin(), k.end()), 3), V = n + 1;
    Problem p; p.n = n; p.fermi.assign(V, 1); p.type = AmiBase::Sigma; std::vector<Problem> blocks;
    for (int i = 0; i < n; i++) {
      std::vector<int> es(E); for (int j = 0; j < E; j++) es[j] = j; for (int j = E - 1; j > 0; j--) std::swap(es[j], es[r.below(j + 1)]);
      Problem b; b.n = 1; b.fermi = {1, 1}; b.type = AmiBase::Sigma; int ext = !few && r.chance(0.5) ? int(r.below(k[i])) : -1;
      for (int j = 0; j < k[i]; j++) {
        AmiBase::g_struct g, h; g.alpha_.assign(V, 0); h.alpha_.assign(2, 0); g.alpha_[i] = h.alpha_[0] = r.chance(0.8) ? 1 : -1;
        if (j == ext) g.alpha_[n] = h.alpha_[1] = r.chance(0.5) ? 1 : -1;
        g.eps_.assign(E, 0); g.eps_[es[j]] = r.chance(0.8) ? 1 : -1; h.eps_ = g.eps_; b.R0.push_back(h); p.R0.push_back(g);
      }
      blocks.push_back(b);
    }
    for (int i = int(p.R0.size()) - 1; i > 0; i--) std::swap(p.R0[i], p.R0[r.below(i + 1)]);
    std::string d = "independent sums with"; for (int x : k) d += " " + std::to_string(x); c.note(d + " lines: " + dump(p));
    AmiBase a; Sol so; AmiBase::ami_parms pr(n, 0, p.type); bool spr = false, ter = false;
    for (int q : routes) (q == SPR || q == FSPR ? spr : ter) = true;
    if (spr) a.construct(pr, p.R0, so.R, so.P, so.S);
    if (ter) a.construct(pr, p.R0, so.T);
    for (int q : routes) { if (q == FSPR) a.factorize_Rn(so.R.back(), so.f.u, so.f.r, so.f.e); if (q == FTERMS) a.factorize_terms(so.T, so.ft.u, so.ft.r, so.ft.e); }
    if (N > 32767) c.cnt["solutions with more than 32767 terms"]++;
    c.mx["largest solution (terms)"] = std::max(c.mx["largest solution (terms)"], double(N));
    if ((spr && long(so.R.back().size()) != N) || (ter && long(so.T.size()) != N)) { c.viol("a product of independent simple sums has a wrong number of terms"); return; }
    for (int z = 0; z < 2; z++) {
      Point x; x.beta = r.uni(0.5, 2); x.prefactor = r.chance(0.5) ? 1 : r.uni(-3, 3); for (int j = 0; j < E; j++) x.energy.push_back(cd((0.5 + j + r.uni(-0.2, 0.2)) * (r.chance(0.5) ? 1 : -1), 0));
      x.freq.assign(V, cd(0, 0)); x.freq[n] = r.chance(0.5) ? cd(0, (2 * r.range(-3, 3) + 1) * M_PI / x.beta) : cd(r.uni(-3, 3), r.uni(0.2, 1));
      c.note(d + cd_dump(p, x)); RefVal v; v.v = cq(x.prefactor, 0); v.pf = std::fabs(x.prefactor); double M = v.pf, rel = 1; bool ok = true;
      for (int i = 0; i < n && ok; i++) {
        RefSol s = ref_solve(blocks[i]); Point y = x; y.freq = {cd(0, 0), x.freq[n]}; y.prefactor = 1; RefVal b = ref_eval(s, y); if (!s.ok || !usable(b, c)) { ok = false; break; }
        v.v = v.v * b.v; M *= b.maxterm * k[i]; rel += b.A / (b.maxterm * k[i]);
      }
      if (!ok) continue;
      v.A = M * (rel + 4 * n); if (!(2.4e-15 * v.A < 1e-3 * double(qabs(v.v)))) { c.cnt["skipped: separable sum too ill-conditioned"]++; continue; }
      auto e = x.vars();
      for (int q : routes) { cd g = eval_route(a, pr, so, e, q); c.seen(d + dump(p) + dump(x) + route_name[q], true, cstr(g)); c.cnt["separable sums compared"]++; if (!close(c, g, v, route_name[q])) return; }
    }
  });
}
static void c01(Ctx &c) {
  c01_known(c);
  separable(c, c.thorough ? 12 : 3, {SPR}, 70000);
  c.run("direct-sum", c.thorough ? 1200 : 160, [&](Rng &r) { brute2(c, r); });
  c.run("brute-force", c.thorough ? 1500 : 160, [&](Rng &r) { brute1(c, r); });
  c.run("exact-sum", c.thorough ? 40000 : 4000, [&](Rng &r) {
    Want w; w.cap = cap_for(c, r); w.next_min = r.chance(0.1) ? 0 : 1; w.next_max = r.chance(0.3) ? 3 : 1;
    Problem p; RefSol s; std::string fl;
    if (!draw(r, w, p, s, &fl)) { c.cnt["no problem drawn"]++; return; }
    set_type(p, fermi_types[r.below(7)]);
    AmiBase a; Sol so; AmiBase::ami_parms pr(p.n, 0, p.type);
    c.note(dump(p));
    a.construct(pr, p.R0, so.R, so.P, so.S);
    c.cnt["flavour " + fl]++; c.cnt["sums=" + std::to_string(p.n)]++;
    c.mx["largest solution (terms)"] = std::max(c.mx["largest solution (terms)"], double(so.R.back().size()));
    for (int k = 0; k < 3; k++) {
      Point x = gen_point(r, p); c.note(cd_dump(p, x));
      RefVal v = ref_eval(s, x); if (!usable(v, c)) continue;
      auto e = x.vars(); cd g = a.evaluate(pr, so.R, so.P, so.S, e);
      c.seen(dump(p) + dump(x), true, cstr(g));
      if (!close(c, g, v, "evaluate")) return;
    }
  });
}
// ------------------------------------------------------------------ C02
static void c02(Ctx &c) {
  c.run("multipoles", c.thorough ? 30000 : 3500, [&](Rng &r) {
    Want w; w.dup = true; w.cap = cap_for(c, r); w.next_max = r.chance(0.15) ? 2 : 1;
    Problem p; RefSol s; std::string fl;
    if (!draw(r, w, p, s, &fl)) { c.cnt["no problem drawn"]++; return; }
    if (fl == "mirror") for (auto &g : p.R0) if (r.chance(0.5)) { for (int &v : g.alpha_) v = -v; for (int &v : g.eps_) v = -v; }
    s = ref_solve(p, nullptr, true, w.cap);
    if (!s.ok) return;
    AmiBase a; Sol so; AmiBase::ami_parms pr(p.n, 0, p.type);
    c.note(dump(p)); a.construct(pr, p.R0, so.R, so.P, so.S); a.construct(pr, p.R0, so.T);
    int md = 0, mm = 1; for (auto &a1 : so.P) for (auto &b : a1) for (auto &q1 : b) { md = std::max(md, q1.der_); mm = std::max(mm, q1.multiplicity_); }
    c.cnt["flavour " + fl]++; c.cnt["highest pole multiplicity " + std::to_string(mm)]++; c.cnt["sums=" + std::to_string(p.n)]++;
    for (int k = 0; k < 3; k++) {
      Point x = gen_point(r, p);
      if (r.chance(0.5)) x.beta = r.uni(0.3, 3); // keeps high derivatives well conditioned
      for (int i = p.n; i < p.nalpha(); i++) if (x.freq[i].real() == 0) x.freq[i] = cd(0, (2 * r.range(-3, 3) + 1) * M_PI / x.beta);
      c.note(cd_dump(p, x));
      RefVal v = ref_eval(s, x); if (!usable(v, c)) continue;
      auto e = x.vars(); cd g = a.evaluate(pr, so.R, so.P, so.S, e), h = a.evaluate(pr, so.T, e);
      c.seen(dump(p) + dump(x), mm > 1, cstr(g));
      if (!close(c, g, v, "evaluate(SPR)")) return;
      if (!close(c, h, v, "evaluate(terms)")) return;
    }
  });
  // one line repeated M times: the single multipole of order M, with spectator lines
  c.run("single-multipole", c.thorough ? 3000 : 400, [&](Rng &r) {
    int M = r.range(1, 18), sp = r.below(3); Problem p; p.n = 1; p.fermi = {1, 1}; p.type = fermi_types[r.below(7)];
    for (int i = 0; i < M; i++) { int f = r.chance(0.3) ? -1 : 1; p.R0.push_back(AmiBase::g_struct({f, 0, f}, {f, 0})); }
    for (int i = 0; i < sp; i++) p.R0.push_back(AmiBase::g_struct({0, 1, 0}, {0, 1}));
    if (M == 1) return; // not absolutely convergent
    RefSol s = ref_solve(p); AmiBase a; Sol so; AmiBase::ami_parms pr(1, 0, p.type); c.note(dump(p)); a.construct(pr, p.R0, so.R, so.P, so.S); a.construct(pr, p.R0, so.T);
    for (int k = 0; k < 3; k++) {
      Point x = gen_point(r, p); x.beta = r.uni(0.3, 3); x.freq[1] = cd(0, M_PI / x.beta); c.note(cd_dump(p, x)); RefVal v = ref_eval(s, x); if (!usable(v, c)) continue;
      auto e = x.vars(); cd g = a.evaluate(pr, so.R, so.P, so.S, e), h = a.evaluate(pr, so.T, e);
      c.cnt["single multipole of order " + std::to_string(M)]++; c.seen(dump(p) + dump(x), true, cstr(g));
      if (!close(c, g, v, "evaluate(SPR)") || !close(c, h, v, "evaluate(terms)")) return;
    }
  });
}
// ------------------------------------------------------------------ C03
static void c03_known(Ctx &c) {
  recorded(c, {
    {"pi-zero-pole-1", 2, {{{1}, {0, 1, 0}}, {{1}, {-1, 1, 0}}, {{1}, {1, -1, -1}}, {{1}, {1, 0, 0}}}, AmiBase::Pi_phuu, {0.7}, 2.0, M_PI, false},
    {"pi-zero-pole-2", 2, {{{1}, {1, 1, -1}}, {{1}, {1, 0, 0}}, {{1}, {0, 1, 0}}}, AmiBase::Pi_phuu, {-0.25}, 0.6364818665059353, 19.743485675945788, false},
    {"pi-zero-pole-3", 2, {{{0, 1, 0, 0}, {1, 0, 0}}, {{1, 0, 0, 0}, {0, 1, 0}}, {{0, 1, 0, 0}, {1, 1, -1}}}, AmiBase::Pi_ppuu, {0.5, 1.25}, 5.0, 2 * M_PI / 5.0, false}});
}
static void c03(Ctx &c) {
  c03_known(c);
  c.run("types", c.thorough ? 30000 : 3500, [&](Rng &r) {
    bool bose = r.chance(0.75);
    AmiBase::graph_type t = bose ? bose_types[r.below(5)] : fermi_types[r.below(7)];
    Want w; w.cap = cap_for(c, r); w.dup = r.chance(0.25); w.next_max = r.chance(0.2) ? 2 : 1; w.no_zero_pole = true;
    w.post = [&](Rng &, Problem &p) { set_type(p, t); };
    Problem p; RefSol s; std::string fl;
    if (!draw(r, w, p, s, &fl)) { c.cnt["no problem drawn"]++; return; }
    AmiBase a; Sol so; c.note(dump(p)); build(a, p, so); AmiBase::ami_parms pr(p.n, 0, p.type);
    bool bosef = false; for (auto &t1 : s.terms) for (auto &f : t1.f) bosef |= f.sigma < 0;
    for (int k = 0; k < 2; k++) {
      Point x = gen_point(r, p); c.note(cd_dump(p, x));
      RefVal v = ref_eval(s, x); if (!usable(v, c)) continue;
      auto e = x.vars(); int route = r.below(4);
      cd g = eval_route(a, pr, so, e, route);
      c.cnt["type " + std::to_string(int(t))]++; if (bosef) c.cnt["solutions with Bose factors"]++;
      if (p.nalpha() > p.n && std::abs(x.freq.back()) == 0) c.cnt["static bosonic external"]++;
      c.seen(dump(p) + dump(x), bose || bosef, cstr(g));
      if (!close(c, g, v, std::string("evaluate(") + route_name[route] + ")")) return;
    }
  });
}
// ------------------------------------------------------------------ C04
static void c04(Ctx &c) {
  c.run("docc", c.thorough ? 20000 : 2500, [&](Rng &r) {
    Want w; w.cap = cap_for(c, r); w.dup = r.chance(0.3); w.next_min = w.next_max = 0; w.no_zero_pole = true;
    bool flag = r.chance(0.3);
    w.post = [&](Rng &, Problem &p) { p.type = flag ? bose_types[r.below(5)] : AmiBase::doubleocc; if (p.fermi.size()) p.fermi.back() = 0; };
    Problem p; RefSol s; std::string fl;
    w.keep = [&](const Problem &p) { // lines that are bosonic would be singular on the bosonic axis only at zero energy
      return p.nalpha() == p.n; };
    if (!draw(r, w, p, s, &fl)) { c.cnt["no problem drawn"]++; return; }
    AmiBase a; a.bosonic_external = flag; Sol so; c.note(dump(p) + (flag ? " bosonic_external" : "")); build(a, p, so); AmiBase::ami_parms pr(p.n, 0, p.type);
    bool bosef = false; for (auto &t1 : s.terms) for (auto &f : t1.f) bosef |= f.sigma < 0;
    for (int k = 0; k < 2; k++) {
      Point x = gen_point(r, p); c.note(cd_dump(p, x) + (flag ? " bosonic_external" : ""));
      RefVal v = ref_eval(s, x); if (!usable(v, c)) continue;
      auto e = x.vars(); int route = r.below(4);
      cd g = eval_route(a, pr, so, e, route);
      v.v = q(-1) * v.v; // the library returns minus the sum (see the property)
      if (bosef) c.cnt["solutions with Bose factors"]++;
      c.cnt[flag ? "via bosonic_external option" : "via double-occupancy type"]++;
      c.seen(dump(p) + dump(x), true, cstr(g));
      if (!close(c, g, v, std::string("double occupancy, evaluate(") + route_name[route] + ")")) return;
    }
  });
  c.run("not-summed", c.thorough ? 5000 : 600, [&](Rng &r) { // the last frequency stays external: neither the type nor the option may change a distribution
    Want w; w.cap = cap_for(c, r); w.dup = r.chance(0.3); w.next_min = 1; w.next_max = 2; w.no_zero_pole = true; bool flag = r.chance(0.7);
    w.post = [&](Rng &, Problem &p) { if (!flag) { p.type = AmiBase::doubleocc; p.fermi.back() = 0; } else if (r.chance(0.8)) set_type(p, bose_types[r.below(5)]); else set_type(p, fermi_types[r.below(7)]); };
    Problem p; RefSol s; if (!draw(r, w, p, s)) { c.cnt["no problem drawn"]++; return; }
    AmiBase a; a.bosonic_external = flag; Sol so; c.note(dump(p) + (flag ? " bosonic_external" : "")); build(a, p, so); AmiBase::ami_parms pr(p.n, 0, p.type);
    for (int k = 0; k < 2; k++) {
      Point x = gen_point(r, p); c.note(cd_dump(p, x) + (flag ? " bosonic_external" : "")); RefVal v = ref_eval(s, x); if (!usable(v, c)) continue;
      auto e = x.vars(); int route = r.below(4); cd g = eval_route(a, pr, so, e, route); c.cnt["last frequency not summed"]++; c.seen(dump(p) + dump(x), true, cstr(g));
      if (!close(c, g, v, std::string("last frequency not summed, evaluate(") + route_name[route] + ")")) return;
    }
  });
}
// ------------------------------------------------------------------ C05 .. C07
static double sum_abs_terms(AmiBase &a, AmiBase::ami_parms &pr, AmiBase::terms &T, AmiBase::ami_vars &e, cd *sum = nullptr) {
  double s = 0; cd t = 0; for (auto &x : T) { cd v = a.evaluate_term(pr, x, e); s += std::abs(v); t += v; } if (sum) *sum = t; return s;
}
static void random_type(Rng &r, Problem &p) {
  double u = r.uni();
  if (u < 0.55 || p.nalpha() == p.n) set_type(p, fermi_types[r.below(7)]);
  else set_type(p, bose_types[r.below(5)]);
}
static std::string canon(const AmiBase::term &t) {
  std::vector<std::string> g, f; for (auto &x : t.g_list) g.push_back(ser(x)); for (auto &x : t.p_list) f.push_back(ser(x));
  std::sort(g.begin(), g.end()); std::sort(f.begin(), f.end());
  std::string s = hexd(t.sign); for (auto &x : f) s += x; for (auto &x : g) s += x; return s;
}
static std::vector<std::string> canon(const AmiBase::terms &T) { std::vector<std::string> v; for (auto &t : T) v.push_back(canon(t)); std::sort(v.begin(), v.end()); return v; }
static void c05(Ctx &c) {
  separable(c, c.thorough ? 12 : 3, {SPR, TERMS}, 70000);
  c.run("terms", c.thorough ? 25000 : 3000, [&](Rng &r) {
    Want w; w.cap = cap_for(c, r); w.dup = r.chance(0.4); w.next_max = r.chance(0.2) ? 2 : 1;
    w.post = [&](Rng &r, Problem &p) { random_type(r, p); };
    w.keep = nullptr; w.no_zero_pole = r.chance(0.5);
    Problem p; RefSol s; if (!draw(r, w, p, s)) { c.cnt["no problem drawn"]++; return; }
    if (!w.no_zero_pole && bosonic_type(p.type) && s.zero_pole) set_type(p, AmiBase::Sigma), s = ref_solve(p, nullptr, true, w.cap);
    if (!s.ok) return;
    AmiBase a; Sol so; c.note(dump(p)); AmiBase::ami_parms pr(p.n, 0, p.type);
    a.construct(pr, p.R0, so.R, so.P, so.S); a.construct(pr, p.R0, so.T);
    if (so.T.size() != so.R.back().size()) { c.viol("terms form has " + std::to_string(so.T.size()) + " terms, SPR form " + std::to_string(so.R.back().size())); return; }
    AmiBase::terms T2; a.construct(p.n, p.R0, T2);
    AmiBase::terms st, nx; { AmiBase::pole_array_t none; st.push_back(AmiBase::term(1.0, none, p.R0)); for (int k = 0; k < p.n; k++) { a.integrate_step(k, st, nx); st = nx; } }
    auto cT = canon(so.T);
    if (canon(T2) != cT) { c.viol("the two construct overloads for terms disagree"); return; }
    if (canon(st) != cT) { c.viol("integrating one frequency at a time gives a different list than constructing at once"); return; }
    for (int k = 0; k < 2; k++) {
      Point x = gen_point(r, p); c.note(cd_dump(p, x));
      RefVal v = ref_eval(s, x); if (!usable(v, c)) continue;
      auto e = x.vars(); cd g = a.evaluate(pr, so.R, so.P, so.S, e), h = a.evaluate(pr, so.T, e);
      c.seen(dump(p) + dump(x), so.T.size() > 1, cstr(h));
      if (!s.zero_pole && !close(c, h, v, "evaluate(terms)")) return;
      if (!(std::abs(g - h) <= 2 * ref_tol(v))) { c.viol("terms gave " + cstr(h) + " but SPR " + cstr(g)); return; }
      cd sm; double sa = sum_abs_terms(a, pr, so.T, e, &sm);
      if (!(std::abs(sm - h) <= (1e-14 + 3e-16 * double(so.T.size())) * sa + 1e-240 * (1 + std::fabs(x.prefactor)))) { c.viol("sum of the single terms " + cstr(sm) + " differs from the list " + cstr(h)); return; }
      // permutation, split, concatenation
      AmiBase::terms A, B, Cc = so.T; r.shuffle(Cc); for (auto &t : Cc) (r.chance(0.5) ? A : B).push_back(t);
      cd va = a.evaluate(pr, A, e), vb = a.evaluate(pr, B, e), vc = a.evaluate(pr, Cc, e);
      AmiBase::terms D = A; D.insert(D.end(), so.T.begin(), so.T.end()); cd vd = a.evaluate(pr, D, e);
      double t13 = (1e-14 + 3e-16 * double(so.T.size())) * sa + 1e-240 * (1 + std::fabs(x.prefactor));
      c.cnt["list rearrangements compared"] += 3;
      if (!(std::abs(vc - h) <= t13)) { char bb[200]; snprintf(bb, sizeof bb, " (sum of magnitudes %.3g)", sa); c.viol("permuting the terms changes the value: " + cstr(h) + " -> " + cstr(vc) + bb); return; }
      if (!(std::abs(va + vb - h) <= t13)) { c.viol("splitting the list changes the value"); return; }
      if (!(std::abs(vd - va - h) <= 2 * t13)) { c.viol("concatenating lists does not add their values"); return; }
    }
  });
}
static double rand_pf(Rng &r) {
  static const double v[] = {1, -1, 2, -3.5, 0.5, 1e-8, -1e-3, 1e7, 4096, -1e12, 0, 1e80, -1e-80};
  return r.chance(0.7) ? v[r.below(13)] : r.uni(-9, 9);
}
// Assembled expressions with hundreds of different propagators: factorised against plain.
static AmiBase::g_struct rnd_g(Rng &r, int V, int E, int lim, int nsp);
static void wide_pool(Ctx &c, long n, bool terms) {
  c.run("many-propagators", n, [&](Rng &r) {
    int V = r.range(2, 5), E = r.range(3, 7), pool = r.chance(0.2) ? r.range(600, 2500) : r.range(120, 600); std::vector<AmiBase::g_struct> G;
    while (int(G.size()) < pool) { auto g = rnd_g(r, V, E, 3, 1); int z = 0; for (int v : g.eps_) z |= v; for (size_t i = 1; i < g.alpha_.size(); i++) z |= g.alpha_[i]; if (z) { g.alpha_[0] = 0; bool live = false; for (int v : g.eps_) live |= v != 0; if (live) G.push_back(g); } }
    AmiBase::terms T; int len = r.range(pool, 2 * pool);
    for (int i = 0; i < len; i++) {
      AmiBase::term t; t.sign = r.chance(0.8) ? (r.chance(0.5) ? 1 : -1) : r.uni(-2, 2);
      if (i && r.chance(0.3)) { t.g_list = T[r.below(T.size())].g_list; r.shuffle(t.g_list); } else for (int k = r.range(1, 4); k > 0; k--) t.g_list.push_back(G[r.below(pool)]);
      for (auto &g : t.g_list) if (r.chance(0.3)) { for (int &v : g.alpha_) v = -v; for (int &v : g.eps_) v = -v; }
      AmiBase::pole_struct p; p.index_ = 0; p.alpha_.assign(V, 0); p.eps_.assign(E, 0); p.eps_[r.below(E)] = r.chance(0.5) ? 1 : -1; if (r.chance(0.1)) p.der_ = 1; p.which_g_ = {0}; t.p_list.push_back(p); T.push_back(t);
    }
    AmiBase a; Fac f; Sol so; AmiBase::ami_parms pr(1, 0);
    if (terms) a.factorize_terms(T, f.u, f.r, f.e);
    else { so.R.resize(2); so.R[0].push_back(T[0].g_list); so.P.assign(1, AmiBase::Pi_t(1)); so.S.assign(1, AmiBase::Si_t(1)); for (auto &t : T) { so.R[1].push_back(t.g_list); so.P[0][0].push_back(t.p_list[0]); so.S[0][0].push_back(t.sign); } a.factorize_Rn(so.R[1], f.u, f.r, f.e); }
    c.mx["most different propagators"] = std::max(c.mx["most different propagators"], double(f.u.size()));
    for (int k = 0; k < 2; k++) {
      Point x; x.beta = r.uni(0.5, 4); x.prefactor = r.chance(0.5) ? 1 : r.uni(-3, 3); for (int i = 0; i < E; i++) x.energy.push_back(cd(r.uni(-4, 4), 0)); for (int i = 0; i < V; i++) x.freq.push_back(i ? cd(0, (2 * r.range(-4, 4) + 1) * M_PI / x.beta) : cd(0, 0));
      std::string d = std::to_string(len) + " products of " + std::to_string(pool) + " propagators, first line " + ser(T[0].g_list) + " | " + dump(x); c.note(d);
      auto e = x.vars(); cd h = terms ? a.evaluate(pr, T, e) : a.evaluate(pr, so.R, so.P, so.S, e), g = terms ? a.evaluate(pr, T, e, f.u, f.r, f.e) : a.evaluate(pr, so.R, so.P, so.S, e, f.u, f.r, f.e);
      double sa = sum_abs_terms(a, pr, T, e); if (!std::isfinite(sa) || !std::isfinite(std::abs(h))) { c.cnt["skipped: singular point"]++; continue; }
      c.seen(d, true, cstr(g)); c.cnt["comparisons"]++;
      if (!(std::abs(g - h) <= (2e-13 + 6e-16 * double(len)) * sa)) { c.viol("factorised evaluation of an assembled list gave " + cstr(g) + ", plain evaluation " + cstr(h) + ", sum of magnitudes " + std::to_string(sa)); return; }
    }
  });
}
static void c06(Ctx &c) {
  wide_pool(c, c.thorough ? 300 : 24, false);
  separable(c, c.thorough ? 12 : 3, {SPR, FSPR}, 70000);
  c.run("factorised-spr", c.thorough ? 30000 : 3500, [&](Rng &r) {
    Want w; w.no_zero_pole = r.chance(0.8); w.cap = cap_for(c, r); w.dup = r.chance(0.4); w.next_max = r.chance(0.2) ? 2 : 1;
    w.post = [&](Rng &r, Problem &p) { random_type(r, p); if (r.chance(0.15)) for (auto &g : p.R0) g.species_ = r.below(3); };
    Problem p; RefSol s; if (!draw(r, w, p, s)) { c.cnt["no problem drawn"]++; return; }
    if (bosonic_type(p.type) && s.zero_pole) { set_type(p, AmiBase::Sigma); s = ref_solve(p, nullptr, true, w.cap); if (!s.ok) return; }
    AmiBase a; Sol so; c.note(dump(p)); AmiBase::ami_parms pr(p.n, 0, p.type);
    a.construct(pr, p.R0, so.R, so.P, so.S); a.factorize_Rn(so.R.back(), so.f.u, so.f.r, so.f.e);
    long merged = long(so.R.back().size()) - long(so.f.e.size());
    c.cnt["products merged away"] += merged; c.cnt["products"] += so.R.back().size();
    for (int k = 0; k < 3; k++) {
      Point x = gen_point(r, p); x.prefactor = rand_pf(r); c.note(cd_dump(p, x));
      RefVal v = ref_eval(s, x); if (!usable(v, c)) continue;
      auto e = x.vars(); cd g = a.evaluate(pr, so.R, so.P, so.S, e, so.f.u, so.f.r, so.f.e), h = a.evaluate(pr, so.R, so.P, so.S, e);
      c.seen(dump(p) + dump(x), merged > 0 || x.prefactor != 1, cstr(g));
      if (!(std::abs(g - h) <= 2 * ref_tol(v))) { c.viol("factorised evaluation gave " + cstr(g) + ", plain evaluation " + cstr(h)); return; }
      if (!s.zero_pole && !close(c, g, v, "factorised evaluation")) return;
      Fac none; cd z = a.evaluate(pr, so.R, so.P, so.S, e, none.u, none.r, none.e);
      c.cnt["empty factorisation lists"]++;
      if (!(std::abs(z - h) <= 2 * ref_tol(v))) { c.viol("with empty factorisation lists " + cstr(z) + " instead of " + cstr(h)); return; }
    }
  });
}
static void c07(Ctx &c) {
  wide_pool(c, c.thorough ? 300 : 24, true);
  separable(c, c.thorough ? 12 : 3, {TERMS, FTERMS}, 70000);
  c.run("factorised-terms", c.thorough ? 25000 : 3000, [&](Rng &r) {
    Want w; w.no_zero_pole = false; w.cap = r.chance(0.05) ? 1500 : 400; w.next_max = r.chance(0.2) ? 2 : 1;
    Problem p; RefSol s; int lists = r.range(1, 3); AmiBase::terms T; AmiBase a; std::string d; int V = -1, E = -1;
    AmiBase::graph_type ty = r.chance(0.6) ? AmiBase::Sigma : r.chance(0.5) ? AmiBase::doubleocc : bose_types[r.below(5)];
    for (int l = 0; l < lists; l++) {
      w.dup = r.chance(0.4);
      if (!draw(r, w, p, s)) { c.cnt["no problem drawn"]++; return; }
      if (V < 0) { V = p.nalpha(); E = p.neps(); }
      for (auto &g : p.R0) { g.alpha_.resize(V, 0); g.eps_.resize(E, 0); }
      bool bad = false; for (auto &g : p.R0) { bool z = true; for (int v : g.alpha_) z &= v == 0; for (int v : g.eps_) z &= v == 0; bad |= z; }
      if (!bad) { s = ref_solve(p, nullptr, true, w.cap); bad = s.capped; } // truncation may have made lines equal
      if (bad) { l--; if (r.chance(0.02)) return; V = l < 0 ? -1 : V; continue; }
      AmiBase::terms t1; int n = std::min(p.n, V); c.note("list part " + dump(p)); a.construct(n, p.R0, t1);
      T.insert(T.end(), t1.begin(), t1.end()); d += dump(p);
    }
    if (r.chance(0.3)) { // a term without propagators: T sum G over the first frequency
      AmiBase::g_struct g(AmiBase::epsilon_t(E, 0), AmiBase::alpha_t(V, 0)); g.alpha_[0] = 1; g.eps_[r.below(E)] = 1;
      AmiBase::terms t1; a.construct(1, AmiBase::g_prod_t(1, g), t1); for (auto &t : t1) T.insert(T.begin() + r.below(T.size() + 1), t);
      d += " +tadpole"; c.cnt["lists with a term without propagators"]++;
    }
    if (r.chance(0.5)) r.shuffle(T);
    if (r.chance(0.3)) { AmiBase::terms t2; for (auto &t : T) if (r.chance(0.7)) t2.push_back(t); T = t2; }
    if (r.chance(0.3)) for (auto &t : T) if (r.chance(0.3)) t.sign *= r.uni(-2, 2);
    if (T.empty()) return;
    if (long(T.size()) > (r.chance(0.03) ? 6000 : 1500)) { c.cnt["list too long"]++; return; }
    Problem sh; sh.n = std::min(p.n, V); sh.R0 = AmiBase::g_prod_t(1, AmiBase::g_struct(AmiBase::epsilon_t(E, 0), AmiBase::alpha_t(V, 0))); sh.fermi.assign(V, 1); sh.type = ty; if (bosonic_type(ty)) sh.fermi.back() = 0;
    Fac f; c.note("factorise " + std::to_string(T.size()) + " terms of " + d); a.factorize_terms(T, f.u, f.r, f.e);
    long merged = long(T.size()) - long(f.e.size()); c.cnt["products merged away"] += merged; c.cnt["products"] += T.size(); c.cnt["lists joined: " + std::to_string(lists)]++;
    AmiBase::ami_parms pr(sh.n, 0, ty);
    for (int k = 0; k < 3; k++) {
      Point x = gen_point(r, sh); x.prefactor = rand_pf(r); c.note("terms=" + std::to_string(T.size()) + " type=" + std::to_string(int(ty)) + " of " + d + " | " + dump(x));
      auto e = x.vars(); cd h = a.evaluate(pr, T, e), g = a.evaluate(pr, T, e, f.u, f.r, f.e);
      double sa = sum_abs_terms(a, pr, T, e);
      if (!std::isfinite(sa) || !std::isfinite(std::abs(h))) { c.cnt["skipped: singular point"]++; continue; }
      c.seen(d + dump(x), merged > 0 || x.prefactor != 1, cstr(g));
      c.cnt["comparisons"]++;
      if (!(std::abs(g - h) <= (2e-13 + 6e-16 * double(T.size())) * sa + 1e-240 * (1 + std::fabs(x.prefactor)))) { c.viol("factorised evaluation of the terms gave " + cstr(g) + ", plain evaluation " + cstr(h) + ", sum of magnitudes " + std::to_string(sa)); return; }
    }
  });
}
// ------------------------------------------------------------------ C08
struct CG { std::vector<int> a, e; int sp; bool operator<(const CG &o) const { return std::tie(a, e, sp) < std::tie(o.a, o.e, o.sp); } bool operator==(const CG &o) const { return a == o.a && e == o.e && sp == o.sp; } };
static CG cg(const AmiBase::g_struct &g, int &sign) {
  Lin l; l.a.assign(g.alpha_.begin(), g.alpha_.end()); l.e.assign(g.eps_.begin(), g.eps_.end());
  int s = lin_lead(l); if (s < 0) l = lin_neg(l); sign = s < 0 ? -1 : 1; CG c; c.a = l.a; c.e = l.e; c.sp = g.species_; return c;
}
static bool check_fac(Ctx &c, const AmiBase::Ri_t &Rn, const Fac &f, const char *what) {
  auto bad = [&](const std::string &m) { c.viol(std::string(what) + ": " + m); return false; };
  std::set<CG> us; std::vector<std::pair<CG, int>> u;
  for (auto &g : f.u) { int s; CG k = cg(g, s); u.push_back({k, s}); if (!us.insert(k).second) return bad("two unique propagators are the same up to sign: " + ser(g)); }
  if (f.r.size() != f.e.size()) return bad("product list and evaluation list differ in length");
  std::vector<int> used(Rn.size(), 0); std::set<std::vector<CG>> groups; std::set<int> refd;
  for (size_t i = 0; i < f.e.size(); i++) {
    std::vector<CG> gm; int gs = 1;
    for (auto &pr : f.r[i]) { if (pr.first < 0 || pr.first >= int(u.size())) return bad("reference to a propagator that does not exist"); if (pr.second != 1 && pr.second != -1) return bad("a reference to a propagator carries " + std::to_string(pr.second) + " instead of a sign"); gm.push_back(u[pr.first].first); gs *= u[pr.first].second; refd.insert(pr.first); }
    std::sort(gm.begin(), gm.end());
    if (!groups.insert(gm).second) return bad("two groups are the same product (group " + std::to_string(i) + " repeats an earlier one)");
    if (f.e[i].empty()) return bad("empty group");
    for (auto &er : f.e[i]) {
      if (er.first < 0 || er.first >= int(Rn.size())) return bad("reference to a product that does not exist");
      if (used[er.first]++) return bad("product " + std::to_string(er.first) + " is referenced twice");
      std::vector<CG> m; int s = 1; for (auto &g : Rn[er.first]) { int t; m.push_back(cg(g, t)); s *= t; }
      std::sort(m.begin(), m.end());
      if (m != gm) return bad("product " + std::to_string(er.first) + " is put in the group of a different product");
      if (er.second != s * gs) return bad("product " + std::to_string(er.first) + " has recorded sign " + std::to_string(er.second) + " instead of " + std::to_string(s * gs));
    }
    c.cnt["groups checked"]++;
    if (f.e[i].size() > 1) c.cnt["groups with merged products"]++;
  }
  for (size_t i = 0; i < used.size(); i++) if (!used[i]) return bad("product " + std::to_string(i) + " is never referenced");
  c.cnt["products checked"] += Rn.size();
  return true;
}
static AmiBase::g_struct rnd_g(Rng &r, int V, int E, int lim, int nsp) {
  AmiBase::g_struct g(AmiBase::epsilon_t(E, 0), AmiBase::alpha_t(V, 0));
  for (int &v : g.alpha_) if (r.chance(0.6)) v = r.range(-1, 1);
  for (int &v : g.eps_) if (r.chance(0.6)) v = r.range(-lim, lim);
  g.species_ = r.below(nsp); return g;
}
static void c08(Ctx &c) {
  Fac dirty; AmiBase keep;
  c.run("symbolic", c.thorough ? 8000 : 1000, [&](Rng &r) {
    Problem p; std::string fl; if (!gen_rich(r, p, r.chance(0.5), 0, 2, &fl)) return;
    if (r.chance(0.2)) for (auto &g : p.R0) g.species_ = r.below(3);
    RefSol s = ref_solve(p, nullptr, true, r.chance(0.03) ? 6000 : 1200); if (!s.ok) return;
    c.note(dump(p)); AmiBase a; Sol so; AmiBase::ami_parms pr(p.n, 0); a.construct(pr, p.R0, so.R, so.P, so.S); a.construct(pr, p.R0, so.T);
    if (so.R.back().size() > 12000) { c.cnt["too long"]++; return; }
    Fac f1, f2; if (r.chance(0.5)) { f1 = dirty; f2 = dirty; c.cnt["dirty output lists"]++; }
    keep.factorize_Rn(so.R.back(), f1.u, f1.r, f1.e);
    keep.factorize_terms(so.T, f2.u, f2.r, f2.e);
    c.seen(dump(p), so.R.back().size() > 1, std::to_string(so.R.back().size()) + " products, " + std::to_string(f1.u.size()) + " unique propagators, " + std::to_string(f1.e.size()) + " groups");
    if (!check_fac(c, so.R.back(), f1, "factorize_Rn")) return;
    AmiBase::Ri_t Ri; for (auto &t : so.T) Ri.push_back(t.g_list);
    if (!check_fac(c, Ri, f2, "factorize_terms")) return;
    c.mx["longest list"] = std::max(c.mx["longest list"], double(Ri.size()));
    dirty = f1;
  });
  c.run("adversarial", c.thorough ? 30000 : 4000, [&](Rng &r) {
    bool many = r.chance(0.012); int V = many ? r.range(3, 6) : r.range(1, 5), E = many ? r.range(4, 8) : r.range(1, 6), pool = many ? r.range(260, r.chance(0.3) ? 2500 : 800) : r.range(1, 6), nsp = r.chance(0.4) ? 3 : 1, lim = r.range(1, 3);
    std::vector<AmiBase::g_struct> G; for (int i = 0; i < pool; i++) {
      if (i && r.chance(0.4)) { auto g = G[r.below(i)]; int w = r.below(V + E); if (w < V) g.alpha_[w] = -g.alpha_[w]; else g.eps_[w - V] = -g.eps_[w - V]; if (r.chance(0.3)) g.species_ = r.below(nsp); G.push_back(g); } // near miss
      else G.push_back(rnd_g(r, V, E, lim, nsp));
    }
    bool zero_ok = r.chance(0.2);
    AmiBase::Ri_t Rn; bool wide = r.chance(0.04); int len = many ? pool : wide ? r.range(2, 8) : r.chance(0.05) ? r.range(40, 400) : r.range(0, 14), maxg = wide ? r.range(20, 90) : r.range(0, 6);
    for (int i = 0; i < len; i++) {
      AmiBase::g_prod_t g;
      if (!Rn.empty() && r.chance(0.35)) { g = Rn[r.below(Rn.size())]; r.shuffle(g); }
      else { int k = r.chance(0.1) ? 0 : r.range(0, maxg); for (int j = 0; j < k; j++) g.push_back(G[r.below(pool)]); }
      for (auto &x : g) if (r.chance(0.4)) { for (int &v : x.alpha_) v = -v; for (int &v : x.eps_) v = -v; }
      if (!zero_ok) { AmiBase::g_prod_t h; for (auto &x : g) { int z = 0; for (int v : x.alpha_) z |= v; for (int v : x.eps_) z |= v; if (z) h.push_back(x); } g = h; }
      Rn.push_back(g);
    }
    std::string d; for (auto &g : Rn) d += dump(g); c.note(d); if (wide) c.cnt["lists of long products"]++; if (many) c.cnt["lists with hundreds of different propagators"]++;
    Fac f; if (r.chance(0.5)) { f = dirty; c.cnt["dirty output lists"]++; }
    auto before = ser(Rn); keep.factorize_Rn(Rn, f.u, f.r, f.e);
    c.seen(d, Rn.size() > 1, std::to_string(f.u.size()) + " unique, " + std::to_string(f.e.size()) + " groups");
    if (ser(Rn) != before) { c.viol("factorize_Rn modified its input"); return; }
    if (!check_fac(c, Rn, f, "factorize_Rn")) return;
    dirty = f;
  });
}
// ------------------------------------------------------------------ C10
static void c10(Ctx &c) {
  c.run("symmetries", c.thorough ? 20000 : 2500, [&](Rng &r) {
    Want w; w.cap = cap_for(c, r); w.dup = r.chance(0.35); w.next_max = r.chance(0.2) ? 2 : 1; w.no_zero_pole = true;
    w.post = [&](Rng &r, Problem &p) { random_type(r, p); };
    Problem p; RefSol s; if (!draw(r, w, p, s)) { c.cnt["no problem drawn"]++; return; }
    AmiBase a; Sol so; c.note(dump(p)); build(a, p, so); AmiBase::ami_parms pr(p.n, 0, p.type); int N = p.R0.size();
    for (int k = 0; k < 2; k++) {
      Point x = gen_point(r, p); x.prefactor = 1; RefVal v = ref_eval(s, x); c.note(cd_dump(p, x)); if (!usable(v, c)) continue;
      double tol = 2 * ref_tol(v), pf = r.chance(0.5) ? rand_pf(r) : std::ldexp(r.uni(-2, 2), r.range(-60, 60)); int sh = r.range(-20, 20); if (r.chance(0.3) && v.A > 1e-30 && v.A < 1e30) { sh = r.range(-100, 100); int lim = 900 / std::max(1, N); if (r.chance(0.4)) sh *= 3; sh = std::max(-lim, std::min(lim, sh)); }
      c.seen(dump(p) + dump(x), true, "prefactor " + std::to_string(pf) + ", scale 2^" + std::to_string(sh));
      for (int route = 0; route < 4; route++) {
        auto e = x.vars(); cd b = eval_route(a, pr, so, e, route);
        std::string rn = route_name[route];
        Point y = x; y.prefactor = pf; auto e1 = y.vars(); cd g = eval_route(a, pr, so, e1, route);
        c.cnt["symmetry comparisons"] += 3;
        if (!(std::abs(g - pf * b) <= std::fabs(pf) * tol + 1e-240)) { c.viol(rn + ": prefactor " + std::to_string(pf) + " turns " + cstr(b) + " into " + cstr(g)); return; }
        y = x; for (auto &z : y.energy) z = std::conj(z); for (auto &z : y.freq) z = std::conj(z); auto e2 = y.vars(); g = eval_route(a, pr, so, e2, route);
        if (!(std::abs(g - std::conj(b)) <= tol)) { c.viol(rn + ": conjugated input turns " + cstr(b) + " into " + cstr(g)); return; }
        y = x; for (auto &z : y.energy) z = cd(std::ldexp(z.real(), sh), std::ldexp(z.imag(), sh)); for (auto &z : y.freq) z = cd(std::ldexp(z.real(), sh), std::ldexp(z.imag(), sh)); y.beta = std::ldexp(x.beta, -sh);
        auto e3 = y.vars(); g = eval_route(a, pr, so, e3, route); double f = std::ldexp(1.0, sh * (p.n - N));
        if (!(std::abs(g / f - b) <= tol)) { c.viol(rn + ": scaling by 2^" + std::to_string(sh) + " gives " + cstr(g / f) + " instead of " + cstr(b)); return; }
      }
    }
  });
}
// ------------------------------------------------------------------ C11
static void c11(Ctx &c) {
  c.run("rewritings", c.thorough ? 25000 : 3000, [&](Rng &r) {
    Want w; w.cap = r.chance(0.02) ? 1500 : 600; w.dup = r.chance(0.35); w.next_max = r.chance(0.3) ? 2 : 1;
    Problem p; RefSol s; if (!draw(r, w, p, s)) { c.cnt["no problem drawn"]++; return; }
    AmiBase a; Sol so; c.note(dump(p)); build(a, p, so); AmiBase::ami_parms pr(p.n, 0, p.type);
    Problem t = p; double sign = 1; std::vector<int> epos(p.neps()); for (int i = 0; i < p.neps(); i++) epos[i] = i;
    std::vector<int> esg(p.neps(), 1); std::vector<std::pair<int, std::vector<int>>> subs; std::string ops; int extra = 0;
    std::vector<int> order(p.n); for (int i = 0; i < p.n; i++) order[i] = i; bool reorder = false;
    int V = p.nalpha();
    int nops = r.range(1, 4);
    for (int o = 0; o < nops; o++) switch (r.below(7)) {
      case 0: r.shuffle(t.R0); ops += " reorder-lines"; break;
      case 1: { std::vector<int> pm(p.n); for (int i = 0; i < p.n; i++) pm[i] = i; r.shuffle(pm); for (auto &g : t.R0) { auto al = g.alpha_; for (int i = 0; i < p.n; i++) g.alpha_[pm[i]] = al[i]; } ops += " relabel-frequencies"; break; }
      case 2: { // linear rerouting that keeps nu_i fermionic: nu_i -> +-nu_i + nu_j - nu_k (j,k other frequencies, external allowed)
        int i = r.below(p.n); std::vector<int> sub(V, 0); int sg = r.chance(0.5) ? 1 : -1;
        if (V >= 3 && r.chance(0.8)) { int j, k; do j = r.below(V); while (j == i); do k = r.below(V); while (k == i || k == j); sub[j] = 1; sub[k] = r.chance(0.8) ? -1 : 1; }
        Problem u = t; bool ok = true;
        for (auto &g : u.R0) { int ai = g.alpha_[i]; if (!ai) continue; for (int j = 0; j < V; j++) if (j != i) g.alpha_[j] += ai * sub[j]; g.alpha_[i] = ai * sg; for (int v : g.alpha_) if (v > 1 || v < -1) ok = false; }
        if (ok && absolutely_convergent(u.R0, u.n)) { t = u; ops += " reroute"; } break; }
      case 3: { // relabel and pad the energy symbols
        int E = t.neps(), pad = r.below(3); std::vector<int> pm(E + pad); for (size_t i = 0; i < pm.size(); i++) pm[i] = i; r.shuffle(pm);
        for (auto &g : t.R0) { std::vector<int> e(E + pad, 0); for (int i = 0; i < E; i++) e[pm[i]] = g.eps_[i]; g.eps_ = e; }
        for (int &v : epos) v = pm[v]; extra += pad; ops += " relabel-energies"; break; }
      case 4: { int i = r.below(t.R0.size()); for (int &v : t.R0[i].alpha_) v = -v; for (int &v : t.R0[i].eps_) v = -v; sign = -sign; ops += " flip-line"; break; }
      case 5: { int i = r.below(int(epos.size())); int col = epos[i]; for (auto &g : t.R0) g.eps_[col] = -g.eps_[col]; esg[i] = -esg[i]; ops += " negate-symbol"; break; }
      default: r.shuffle(order); reorder = true; ops += " sum-order"; break;
    }
    RefSol s2 = ref_solve(t, &order, true, 2 * w.cap); if (!s2.ok) { c.cnt["rewriting not representable"]++; return; }
    Sol st; AmiBase b; c.note(dump(p) + " -> " + ops + " -> " + dump(t) + " order " + vstr(order));
    if (!reorder) build(b, t, st); // (the natural order may be far more expensive)
    else {
      st.R.clear(); st.P.clear(); st.S.clear(); st.R.push_back(AmiBase::Ri_t(1, t.R0));
      for (int k = 0; k < t.n; k++) b.update_gprod_general(order[k], k, st.R, st.P, st.S);
      AmiBase::pole_array_t none; AmiBase::terms in(1, AmiBase::term(1.0, none, t.R0)), nx; for (int k = 0; k < t.n; k++) { b.integrate_step(order[k], in, nx); in = nx; } st.T = in;
      st.f = Fac(); st.ft = Fac(); b.factorize_Rn(st.R.back(), st.f.u, st.f.r, st.f.e); b.factorize_terms(st.T, st.ft.u, st.ft.r, st.ft.e);
    }
    for (int k = 0; k < 2; k++) {
      PointOpt po; po.junk_internal = false; Point x = gen_point(r, p, po), y = x; y.energy.assign(t.neps(), cd(0, 0)); for (auto &z : y.energy) z = r.uni(-3, 3);
      for (size_t i = 0; i < epos.size(); i++) y.energy[epos[i]] = double(esg[i]) * x.energy[i];
      c.note(dump(p) + " ->" + ops + " -> " + cd_dump(t, y) + " order " + vstr(order));
      RefVal v = ref_eval(s, x), v2 = ref_eval(s2, y); if (!usable(v, c) || !usable(v2, c)) continue;
      double cons = double(qabs(v.v - q(sign) * v2.v));
      c.mx["largest reference invariance defect / tolerance"] = std::max(c.mx["largest reference invariance defect / tolerance"], cons / (ref_tol(v) + ref_tol(v2)));
      if (!(cons <= 0.2 * (ref_tol(v) + ref_tol(v2)))) { c.cnt["skipped: reference not invariant within a fifth of the tolerance"]++; continue; }
      int route = r.below(4); auto e1 = x.vars(), e2 = y.vars();
      cd g = eval_route(a, pr, so, e1, route), h = sign * eval_route(b, pr, st, e2, route);
      c.seen(c.cur_dump, true, cstr(h)); c.cnt["rewritten integrands compared"]++;
      { size_t q0 = 0; std::string o2 = ops; while ((q0 = o2.find(' ')) != std::string::npos) { size_t e = o2.find(' ', q0 + 1); c.cnt["rewriting:" + o2.substr(q0, e == std::string::npos ? e : e - q0)]++; o2 = e == std::string::npos ? "" : o2.substr(e); } }
      if (!(std::abs(g - h) <= ref_tol(v) + ref_tol(v2))) { c.viol(std::string(route_name[route]) + ": the rewritten integrand gives " + cstr(h) + " instead of " + cstr(g) + " (exact " + cstr(tod(v.v)) + " and " + cstr(sign * tod(v2.v)) + ")"); return; }
    }
  });
}
// ------------------------------------------------------------------ C12
// The same jobs in two processes that have not called the library before, in two orders.
struct Job { int what; int prob, pt, route; AmiBase::graph_type type; double ereg; int nint; int m = 0, k = 0; };
static std::vector<std::string> in_child(std::function<std::vector<std::string>()> fn, bool &ok) {
  int fd[2]; ok = false; std::vector<std::string> out; if (pipe(fd)) return out;
  pid_t pid = fork(); if (pid < 0) { close(fd[0]); close(fd[1]); return out; }
  if (!pid) {
    close(fd[0]); std::string s; for (auto &x : fn()) s += x + "\n"; size_t o = 0; while (o < s.size()) { ssize_t k = write(fd[1], s.data() + o, s.size() - o); if (k <= 0) break; o += k; }
    close(fd[1]); _exit(0);
  }
  close(fd[1]); std::string s; char b[65536]; ssize_t k; while ((k = read(fd[0], b, sizeof b)) > 0) s.append(b, k); close(fd[0]);
  int st = 0; waitpid(pid, &st, 0); ok = WIFEXITED(st) && WEXITSTATUS(st) == 0; std::stringstream ss(s); std::string l; while (std::getline(ss, l)) out.push_back(l); return out;
}
static void c12_orders(Ctx &c) {
  c.run("orders", c.thorough ? 2500 : 300, [&](Rng &r) {
    std::vector<Problem> ps; std::vector<Point> xs; Problem p; RefSol s;
    for (int t = 0;; t++) { if (t > 50) return; if (!gen_rich(r, p, r.chance(0.5), 1, 2)) continue; s = ref_solve(p, nullptr, true, 150); if (s.ok && p.R0.size() <= 8) break; }
    ps.push_back(p);
    for (int k = r.range(1, 4); k > 0; k--) { // relatives: the same lines but for one detail
      Problem q1 = ps[r.below(ps.size())]; switch (r.below(6)) {
        case 0: r.shuffle(q1.R0); break;
        case 1: { auto &g = q1.R0[r.below(q1.R0.size())]; g.eps_[r.below(g.eps_.size())] += r.range(-1, 1); break; }
        case 2: { auto &g = q1.R0[r.below(q1.R0.size())]; for (int &v : g.eps_) v = -v; break; }
        case 3: if (q1.R0.size() < 8) q1.R0.push_back(q1.R0[r.below(q1.R0.size())]); break;
        case 4: q1.R0[r.below(q1.R0.size())].species_ = r.range(1, 3); break;
        default: { auto &g = q1.R0[r.below(q1.R0.size())]; for (int &v : g.alpha_) v = -v; } }
      bool bad = false; for (auto &g : q1.R0) { int z = 0; for (int v : g.eps_) z |= v; for (int v : g.alpha_) z |= v; bad |= !z; }
      if (bad) continue; RefSol s1 = ref_solve(q1, nullptr, true, 200); if (!s1.ok) continue; ps.push_back(q1);
    }
    Point x = gen_point(r, p); xs.push_back(x);
    for (int k = r.range(2, 5); k > 0; k--) {
      Point y = xs[r.below(xs.size())]; switch (r.below(6)) {
        case 0: y.beta *= r.chance(0.5) ? 2 : r.uni(0.5, 2); break;
        case 1: r.shuffle(y.energy); break;
        case 2: { auto &e = y.energy[r.below(y.energy.size())]; e = -e; break; }
        case 3: if (!y.freq.empty()) y.freq.back() *= r.chance(0.5) ? -1.0 : 3.0; break;
        case 4: y.prefactor *= -2; break;
        default: { auto &e = y.energy[r.below(y.energy.size())]; e = r.uni(-2, 2); } }
      xs.push_back(y);
    }
    std::vector<Job> js; int nj = r.range(8, 24);
    for (int k = 0; k < nj; k++) {
      Job j; j.what = r.below(8); j.prob = r.below(ps.size()); j.pt = r.below(xs.size()); j.route = r.below(5); j.type = r.chance(0.6) ? p.type : r.chance(0.5) ? bose_types[r.below(5)] : AmiBase::doubleocc; j.ereg = r.chance(0.2) ? 0.03 : 0; j.nint = r.chance(0.85) ? p.n : r.below(p.n + 1); j.m = r.chance(0.5) ? r.below(5) : r.below(21); j.k = r.below(j.m + 1);
      if (j.route == 4 && (bosonic_type(j.type) || j.type == AmiBase::doubleocc || p.R0.size() > 6)) j.route = r.below(4);
      js.push_back(j);
    }
    std::string d; for (auto &q1 : ps) d += dump(q1) + " "; for (auto &y : xs) d += " @ " + dump(y); c.note(d);
    std::vector<int> o1(nj), o2; for (int i = 0; i < nj; i++) o1[i] = i; o2 = o1; std::reverse(o2.begin(), o2.end()); if (r.chance(0.5)) r.shuffle(o2);
    bool share = r.chance(0.5);
    auto work = [&](const std::vector<int> &ord) { return [&, ord] {
      Mute m; std::vector<std::string> res(nj); AmiBase one;
      for (int i : ord) {
        Job &j = js[i]; AmiBase own; AmiBase &a = share ? one : own; Problem &q1 = ps[j.prob]; Sol so; AmiBase::ami_parms pr(j.nint, j.ereg, j.type); auto e = xs[j.pt].vars();
        if (j.what == 0 || j.what == 1) { cd z = a.fermi_bose(j.m, j.what ? 1 : -1, xs[j.pt].beta, xs[j.pt].energy[i % xs[j.pt].energy.size()]); res[i] = hexc(z) + hexd(a.frk(j.m, j.k)) + hexd(a.factorial(j.m)) + std::to_string(a.binomialCoeff(j.m, j.k)); continue; }
        a.construct(pr, q1.R0, so.R, so.P, so.S); a.construct(pr, q1.R0, so.T);
        if (j.route == 2) a.factorize_Rn(so.R.back(), so.f.u, so.f.r, so.f.e); if (j.route == 3) a.factorize_terms(so.T, so.ft.u, so.ft.r, so.ft.e);
        if (j.what == 2) { uint64_t h = 1469598103934665603ull; for (char ch : ser_spr(so) + ser(so.T) + ser(so.f) + ser(so.ft)) h = (h ^ (unsigned char)ch) * 1099511628211ull; res[i] = std::to_string(h); continue; }
        cd z = j.route == 4 ? a.evaluate_otf(pr, so.R, so.P, so.S, e) : eval_route(a, pr, so, e, j.route);
        res[i] = (std::isnan(z.real()) || std::isnan(z.imag()) ? std::string("nan") : hexc(z)) + (a.overflow_detected ? "!" : "");
      }
      return res; }; };
    bool k1, k2; auto r1 = in_child(work(o1), k1), r2 = in_child(work(o2), k2);
    if (!k1 || !k2 || int(r1.size()) != nj || int(r2.size()) != nj) { // let the failing order run here, where a crash is reported with its case
      work(o1)(); work(o2)(); c.cnt["child processes lost"]++; return; }
    c.cnt["jobs compared between processes"] += nj; c.seen(d, true);
    for (int i = 0; i < nj; i++) if (r1[i] != r2[i]) { c.viol("job " + std::to_string(i) + " (" + (js[i].what < 2 ? "distribution function" : js[i].what == 2 ? "construction" : js[i].route == 4 ? "otf" : route_name[js[i].route]) + " of problem " + std::to_string(js[i].prob) + " at point " + std::to_string(js[i].pt) + ") gives " + r1[i] + " in one order of calls and " + r2[i] + " in another"); return; }
  });
}
static void c12(Ctx &c) {
  c12_orders(c);
  c.run("histories", c.thorough ? 4000 : 600, [&](Rng &r) {
    // a long-lived object with long-lived containers against fresh ones
    AmiBase old; Sol keep; std::string d; Mute mute;
    struct Item { Problem p; std::vector<Point> x; Sol so; bool more; };
    std::vector<Item> items; int steps = r.range(4, 9);
    for (int t = 0; t < steps; t++) {
      Item it; if (!gen_rich(r, it.p, r.chance(0.4), 0, 2)) continue;
      if (r.chance(0.5)) random_type(r, it.p);
      RefSol rs = ref_solve(it.p, nullptr, true, r.chance(0.05) ? 400 : 120); if (!rs.ok) { t--; if (r.chance(0.02)) break; continue; }
      { RefSol all = ref_solve(it.p, nullptr, false, 1500); if (all.ok && it.p.nalpha() > it.p.n) all = ref_step(all, it.p.n, it.p.fermi); it.more = all.ok; }
      for (int k = 0; k < 3; k++) it.x.push_back(gen_point(r, it.p));
      if (r.chance(0.3)) { for (auto &e : it.x[0].energy) e = 0.5; } // a singular point in the history
      { AmiBase fresh; Sol f; build(fresh, it.p, f); it.so = f; }
      items.push_back(it);
    }
    if (items.empty()) return;
    for (auto &it : items) {
      c.note("history of " + std::to_string(items.size()) + " problems, now " + dump(it.p));
      bool verb = r.chance(0.3); AmiBase::ami_parms pr(it.p.n, 0, it.p.type);
      AmiBase::g_prod_t R0 = it.p.R0; std::string r0 = ser(R0);
      if (verb) old.verbose = true;
      // reuse containers in random order of construction
      if (r.chance(0.5)) { old.construct(pr, R0, keep.R, keep.P, keep.S); old.construct(pr, R0, keep.T); } else { old.construct(pr.N_INT_, R0, keep.T); old.construct(pr, R0, keep.R, keep.P, keep.S); }
      if (r.chance(0.3)) old.construct(pr, R0, keep.R, keep.P, keep.S); // twice into the same containers
      if (r.chance(0.3)) old.construct(pr, R0, keep.T);
      old.factorize_Rn(keep.R.back(), keep.f.u, keep.f.r, keep.f.e); old.factorize_terms(keep.T, keep.ft.u, keep.ft.r, keep.ft.e);
      if (r.chance(0.3)) old.factorize_Rn(keep.R.back(), keep.f.u, keep.f.r, keep.f.e);
      if (r.chance(0.3)) old.factorize_terms(keep.T, keep.ft.u, keep.ft.r, keep.ft.e);
      if (ser(R0) != r0) { c.viol("construction modified the integrand"); return; }
      if (ser_spr(keep) != ser_spr(it.so)) { c.viol("SPR solution built by a used object into used containers differs from a fresh one"); return; }
      if (ser(keep.T) != ser(it.so.T)) { c.viol("terms built by a used object into used containers differ from fresh ones"); return; }
      if (ser(keep.f) != ser(it.so.f) || ser(keep.ft) != ser(it.so.ft)) { c.viol("factorisation into used lists differs from a fresh one"); return; }
      std::string s0 = ser_spr(keep), t0 = ser(keep.T), f0 = ser(keep.f) + ser(keep.ft);
      { AmiBase::terms in = keep.T, cp = in; AmiBase::terms o1; // the output list may hold anything, from nothing to far more than the result
        for (int k = r.below(4); k > 0; k--) { auto &z = items[r.below(items.size())].so.T; o1.insert(o1.end(), z.begin(), z.end()); }
        if (!in.empty() && in[0].g_list.size() && it.p.nalpha() > it.p.n && it.more) { c.cnt[o1.size() > in.size() ? "steps into longer lists" : "steps into shorter lists"]++; old.integrate_step(it.p.n, in, o1); AmiBase fr; AmiBase::terms o2; fr.integrate_step(it.p.n, cp, o2); if (ser(o1) != ser(o2)) { c.viol("integrate_step into a used list differs"); return; } if (ser(in) != ser(keep.T)) { c.viol("integrate_step modified its input"); return; } } }
      { // the building blocks: used object and used outputs against fresh ones, inputs untouched
        AmiBase fr; auto &oth = items[r.below(items.size())].so; int lv = r.below(keep.R.size()); if (!keep.R[lv].empty()) {
          AmiBase::g_prod_t g = keep.R[lv][r.below(keep.R[lv].size())]; std::string g0 = ser(g); int idx = lv < it.p.n ? lv : r.below(it.p.nalpha());
          bool big = false; for (auto &z : g) if (z.alpha_[idx] > 1 || z.alpha_[idx] < -1) big = true;
          if (!big) {
            auto pl = old.find_poles(idx, g), pl2 = fr.find_poles(idx, g); if (ser(pl) != ser(pl2)) { c.viol("find_poles depends on the history of the object"); return; }
            for (auto &q1 : pl) {
              double ex = 1; for (int m = 1; m < q1.multiplicity_; m++) ex *= double(g.size()) + m; if (ex > 500) continue;
              AmiBase::Ri_t r1, r2; AmiBase::pole_array_t p1, p2; AmiBase::sign_t s1, s2; if (r.chance(0.7)) { r1 = oth.R[r.below(oth.R.size())]; if (!oth.P.empty() && !oth.P[0].empty()) { p1 = oth.P[0][0]; s1 = oth.S[0][0]; } }
              std::string q0 = ser(q1); old.evaluate_general_residue(g, q1, r1, p1, s1); fr.evaluate_general_residue(g, q1, r2, p2, s2);
              if (ser(r1) != ser(r2) || ser(p1) != ser(p2) || ser(s1) != ser(s2)) { c.viol("evaluate_general_residue into used outputs differs"); return; }
              AmiBase::term tm(1.5, p2, g); AmiBase::terms t1, t2; if (r.chance(0.7)) t1 = oth.T; std::string tm0 = ser(tm); old.terms_general_residue(tm, q1, t1); fr.terms_general_residue(tm, q1, t2);
              if (ser(t1) != ser(t2)) { c.viol("terms_general_residue into a used list differs"); return; } if (ser(tm) != tm0 || ser(q1) != q0) { c.viol("a residue modified its input"); return; }
              c.cnt["building blocks compared"]++;
            }
            if (ser(g) != g0) { c.viol("a building block modified its input"); return; }
          }
        }
        AmiBase::Ri_t ra = oth.R.back(), rb; old.convert_terms_to_ri(keep.T, ra); fr.convert_terms_to_ri(keep.T, rb); if (ser(ra) != ser(rb)) { c.viol("convert_terms_to_ri into a used list differs"); return; }
        auto e = it.x[0].vars(); std::string e0 = ser(e); AmiBase::ami_parms pp = pr; std::vector<std::vector<int>> v1, v2; for (int k = r.below(6); k > 0; k--) v1.push_back({k, k, k, k, k});
        auto v3 = v1, v4 = v2; old.get_triggers(pp, keep.R, keep.P, keep.S, e, v1); fr.get_triggers(pp, keep.R, keep.P, keep.S, e, v2); old.find_equal_values(pp, keep.R, e, v3); fr.find_equal_values(pp, keep.R, e, v4);
        if (v1 != v2 || v3 != v4) { c.viol("the search for degenerate energies depends on what the output held before"); return; } if (ser(e) != e0) { c.viol("the search for degenerate energies modified the point"); return; }
      }
      std::vector<int> seq; for (size_t i = 0; i < it.x.size(); i++) for (int rt = 0; rt < 5; rt++) seq.push_back(int(i) * 5 + rt);
      r.shuffle(seq); if (r.chance(0.5)) { auto s2 = seq; seq.insert(seq.end(), s2.begin(), s2.end()); }
      for (int q1 : seq) {
        Point &x = it.x[q1 / 5]; int rt = q1 % 5; auto e = x.vars(); e.gamma_ = 0.25; std::string e0 = ser(e);
        AmiBase::ami_parms pp = pr; if (r.chance(0.2)) old.verbose = !old.verbose;
        // what describes the model but does not enter the expression, and entries of the point that no symbol of the problem names
        if (r.chance(0.3)) { pp.N_EXT_ = r.range(0, 4); pp.int_type_ = r.chance(0.5) ? AmiBase::coulomb : AmiBase::hubbard; pp.dispersion_ = static_cast<AmiBase::disp_type>(r.below(3)); c.cnt["evaluations with other descriptive parameters"]++; }
        if (r.chance(0.3)) { double nan = std::nan(""); for (int k = r.range(1, 3); k > 0; k--) e.energy_.push_back(cd(nan, nan)); for (int k = r.range(0, 2); k > 0; k--) e.frequency_.push_back(cd(nan, nan)); e0 = ser(e); c.cnt["evaluations at points with surplus entries"]++; }
        AmiBase::ami_parms p0 = pp;
        if (r.chance(0.1)) { // something else in between: other options, other type, other temperature, then back to normal
          old.drop_der = r.chance(0.5); old.drop_bosonic_diverge = r.chance(0.5); old.bosonic_external = r.chance(0.5); old.precision_cutoff = 1e-3; auto e9 = x.vars(); e9.BETA_ *= 1.5; AmiBase::ami_parms p9(it.p.n, 0.1, r.chance(0.5) ? AmiBase::Pi_ppuu : AmiBase::doubleocc);
          bool q1 = old.drop_der, q2 = old.drop_bosonic_diverge, q3 = old.bosonic_external; double pc = r.chance(0.5) ? 1e-3 : 1e-12; old.precision_cutoff = pc; bool q4 = old.drop_matsubara_poles, q5 = old.verbose; eval_route(old, p9, keep, e9, r.below(4)); if (old.overflow_detected) c.cnt["detours that overflowed"]++;
          if (old.drop_der != q1 || old.drop_bosonic_diverge != q2 || bool(old.bosonic_external) != q3 || old.precision_cutoff != pc || old.drop_matsubara_poles != q4 || old.verbose != q5) { c.viol("evaluation changed an option of the object"); return; }
          old.drop_der = old.drop_bosonic_diverge = old.bosonic_external = false; old.precision_cutoff = AmiBase().precision_cutoff; c.cnt["detours with other options"]++;
        }
        AmiBase fresh; auto ef = x.vars(); AmiBase::ami_parms pf = pr; Sol &so = it.so;
        if (rt == 4 && (bosonic_type(it.p.type) || it.p.R0.size() > 7)) continue; // full degeneracy of many lines expands into too many terms
        cd g = rt == 4 ? old.evaluate_otf(pp, keep.R, keep.P, keep.S, e) : eval_route(old, pp, keep, e, rt);
        cd h = rt == 4 ? fresh.evaluate_otf(pf, so.R, so.P, so.S, ef) : eval_route(fresh, pf, so, ef, rt);
        c.cnt["evaluations compared bit by bit"]++;
        std::string rn = rt == 4 ? "otf" : route_name[rt];
        c.note("history of " + std::to_string(items.size()) + " problems, now " + rn + " " + cd_dump(it.p, x) + (old.verbose ? " verbose" : ""));
        if (!same_bits(g, h)) { c.viol(rn + ": a used object gives " + cstr(g) + ", a fresh one " + cstr(h)); return; }
        if (old.overflow_detected != fresh.overflow_detected) { c.viol(rn + ": overflow flag depends on the history"); return; }
        if (ser(e) != e0) { c.viol(rn + ": evaluation modified the external point"); return; }
        if (pp.N_INT_ != p0.N_INT_ || pp.E_REG_ != p0.E_REG_ || pp.TYPE_ != p0.TYPE_ || pp.tol_ != p0.tol_ || pp.N_EXT_ != p0.N_EXT_) { c.viol(rn + ": evaluation modified the parameters"); return; }
      }
      if (r.chance(0.3)) { old.print_final(it.p.n, keep.R, keep.P, keep.S); old.print_terms(keep.T); c.cnt["printed solutions"]++; }
      if (ser_spr(keep) != s0 || ser(keep.T) != t0 || ser(keep.f) + ser(keep.ft) != f0) { c.viol("evaluation or printing modified the stored solution"); return; }
      old.verbose = false;
      c.seen(dump(it.p), true, std::to_string(seq.size()) + " evaluations");
    }
    c.cnt["bytes of diagnostics swallowed"] += mute.bytes();
  });
}
// ------------------------------------------------------------------ C15
static void c15(Ctx &c) {
  c15_known(c);
  c.run("degenerate", c.thorough ? 25000 : 3000, [&](Rng &r) {
    Want w; w.next_max = 1; w.dup = r.chance(0.2); w.cap = 1500; w.tweak = [](GenOpt &o) { o.max_g = std::min(o.max_g, 7); o.max_mult = std::min(o.max_mult, 3); o.nmax = std::min(o.nmax, 3); o.nmin = std::min(o.nmin, 3); o.p_combo = std::min(o.p_combo, 0.2); }; if (r.chance(0.4)) w.post = [&](Rng &r, Problem &p) { random_type(r, p); };
    Problem p; RefSol s0; if (!draw(r, w, p, s0)) { c.cnt["no problem drawn"]++; return; }
    Point x = gen_point(r, p); std::vector<int> k; int kind = r.below(7); double unit = kind == 6 ? (r.chance(0.5) ? 0.1 : r.uni(0.1, 0.4)) : 0.25; std::vector<int> sh(p.neps(), 0); double dl = 0;
    for (auto &e : x.energy) { int v = r.range(1, kind == 0 ? 1 : kind == 1 ? 3 : kind == 2 ? 6 : kind == 6 ? r.range(1, 5) : 40); if (r.chance(0.5)) v = -v; if (kind == 3 && r.chance(0.15)) v = 0; k.push_back(v); e = unit * v; }
    if (kind == 4) {
      k.clear(); x = gen_point(r, p); c.cnt["generic points"]++;
      for (size_t i = 0; i < x.energy.size(); i++) { bool co = x.energy[i] == cd(0, 0); for (size_t j = 0; j < i; j++) co |= x.energy[i] == x.energy[j] || x.energy[i] == -x.energy[j]; if (co) { c.cnt["skipped: coincident energies that are no multiples of 1/4"]++; return; } }
    }
    if (kind == 5) { dl = std::ldexp(1.0, -r.range(8, 30)); for (size_t j = 0; j < sh.size(); j++) { if (r.chance(0.6)) sh[j] = r.range(-2, 2); x.energy[j] += dl * sh[j]; } }
    Problem pm = p; Point xm = x; RefSol s;
    if (kind == 4) s = s0;
    else {
      for (auto &g : pm.R0) { int e = 0; for (size_t j = 0; j < g.eps_.size(); j++) e += g.eps_[j] * k[j]; int f = 0; for (size_t j = 0; j < g.eps_.size(); j++) f += g.eps_[j] * sh[j]; if (kind == 5) g.eps_ = {e, f}; else g.eps_ = {e}; }
      xm.energy = {cd(unit, 0)}; if (kind == 6) c.cnt["points with coincidences up to rounding"]++; if (kind == 5) xm.energy.push_back(cd(dl, 0));
      for (auto &g : pm.R0) { int par = 0; for (size_t i = 0; i < g.alpha_.size(); i++) par ^= g.alpha_[i] & p.fermi[i] & 1; bool z = true; for (int v : g.alpha_) z &= v == 0; if ((!par && g.eps_[0] == 0 && g.eps_.back() == 0) || (z && g.eps_[0] == 0 && g.eps_.back() == 0)) { c.cnt["skipped: singular summand"]++; return; } }
      s = ref_solve(pm, nullptr, true, 3000); if (!s.ok) { c.cnt["skipped: too large"]++; return; }
    }
    c.note(cd_dump(p, x));
    if (bosonic_type(p.type)) { if (s.zero_pole) { c.cnt["skipped: zero-energy pole with a bosonic external line"]++; return; } c.cnt["bosonic external lines"]++; }
    RefOpt o; bool opts = kind != 5 && r.chance(0.3);
    if (opts) { double er[] = {0, 1e-3, 0.05, 0.3}; o.ereg = er[r.below(4)]; o.drop_bose = r.chance(0.5); o.drop_der = r.chance(0.5); }
    RefVal v = ref_eval(s, xm, o);
    if (opts) { if (!v.finite || v.mind < 1e-4 || v.minb < 1e-7 || !std::isfinite(v.A)) { c.cnt["skipped: singular"]++; return; } if (o.ereg && v.bose_zero) { c.cnt["skipped: regulated Bose factor at zero energy"]++; return; } c.cnt["points with evaluation options"]++; if (v.zeroed) c.cnt["points with dropped factors"]++; c.note(cd_dump(p, x) + " E_REG=" + std::to_string(o.ereg) + (o.drop_bose ? " drop_bosonic_diverge" : "") + (o.drop_der ? " drop_der" : "")); }
    else if (kind != 5) { if (!usable(v, c)) return; }
    else if (!v.finite || v.mind < 1e-11 || v.minb < 1e-9 || !(ref_tol(v) < 1e-2 * double(qabs(v.v)))) { c.cnt["skipped: nearly degenerate point too ill-conditioned"]++; return; }
    else { c.cnt["nearly degenerate points"]++; if (ref_tol(v) < dl * 0.01 * double(qabs(v.v))) c.cnt["nearly degenerate points resolved"]++; }
    AmiBase a; a.drop_der = o.drop_der; a.drop_bosonic_diverge = o.drop_bose; Sol so; AmiBase::ami_parms pr(p.n, o.ereg, p.type); a.construct(pr, p.R0, so.R, so.P, so.S); std::string st = ser_spr(so);
    auto e = x.vars(); cd g = a.evaluate_otf(pr, so.R, so.P, so.S, e), pl = a.evaluate(pr, so.R, so.P, so.S, e);
    bool deg = !std::isfinite(std::abs(pl)) || !(std::abs(pl - tod(v.v)) <= ref_tol(v));
    if (deg) c.cnt["points where the plain evaluation breaks down"]++;
    c.seen(c.cur_dump, deg || kind == 4, cstr(g) + " plain " + cstr(pl));
    if (ser_spr(so) != st) { c.viol("on-the-fly evaluation modified the stored solution"); return; }
    if (s.zero_pole) c.cnt["zero-energy Matsubara poles ignored, as the option documents"]++; else c.cnt["exact degenerate sums compared"]++;
    close(c, g, v, "on-the-fly evaluation");
  });
}
// ------------------------------------------------------------------ C16
static void flags(Ctx &c, long n, double digits) {
  c.run("flag", n, [&](Rng &r) {
    Want w; bool dup = r.chance(0.3); w.cap = 600; w.dup = dup; w.no_zero_pole = true; w.post = [&](Rng &r, Problem &p) { random_type(r, p); };
    w.keep = [](const Problem &p) { for (auto &g : p.R0) { bool z = true; for (int v : g.eps_) z &= v == 0; if (z) return false; } return true; };
    Problem p; RefSol s; if (!draw(r, w, p, s)) { c.cnt["no problem drawn"]++; return; }
    AmiBase a; Sol so; c.note(dump(p)); build(a, p, so); AmiBase::ami_parms pr(p.n, 0, p.type);
    for (auto &t : so.T) for (auto &g : t.g_list) { bool z = true; for (int v : g.eps_) z &= v == 0; if (z) { c.cnt["skipped: purely imaginary product"]++; return; } }
    if (so.T.empty()) return;
    int steps = 8; double cut = r.chance(0.5) ? 1e15 : std::pow(10.0, r.uni(-1, 9)); a.precision_cutoff = cut;
    for (int k = 0; k < steps; k++) {
      Point x = gen_point(r, p); bool sing = r.chance(0.45); int special = sing ? 0 : r.below(4); // 1: two energy scales, 2: imaginary energies
      if (k) { cut = r.chance(0.5) ? 1e15 : std::pow(10.0, r.uni(-1, 9)); a.precision_cutoff = cut; }
      if (special == 1) { x.beta = r.uni(100, 3000); for (auto &e : x.energy) e = r.chance(0.5) ? r.uni(-5, 5) / x.beta : r.uni(0.3, 4) * (r.chance(0.5) ? 1 : -1); if (r.chance(0.3)) x.energy[r.below(x.energy.size())] *= 8 + x.beta / 50; }
      if (special == 2) { x.beta = std::pow(10.0, r.uni(-0.3, 2.3)); for (auto &e : x.energy) e = cd(r.chance(0.7) ? 0 : r.uni(-1, 1) / x.beta, r.uni(-6, 6) / x.beta); }
      if (sing) {
        for (auto &e : x.energy) { e = 0.125 * r.range(1, 30); if (r.chance(0.5)) e = -e; }
        x.beta = r.uni(0.2, 1.5); if (x.prefactor == 0) x.prefactor = 1;
        auto &t = so.T[r.below(so.T.size())]; if (t.g_list.empty()) { sing = false; x = gen_point(r, p); }
        else {
          auto &g = t.g_list[r.below(t.g_list.size())]; int j = -1; for (size_t i = p.n; i < g.alpha_.size(); i++) if (g.alpha_[i]) j = i;
          double es = 0; for (size_t i = 0; i < g.eps_.size(); i++) es += g.eps_[i] * x.energy[i].real();
          if (j < 0) { sing = false; x = gen_point(r, p); }
          else { cd o = 0; for (size_t i = p.n; i < g.alpha_.size(); i++) if (int(i) != j) { x.freq[i] = cd(0.0625 * r.range(-20, 20), 0); o += double(g.alpha_[i]) * x.freq[i]; }
            double tiny = r.chance(0.15) ? 0 : std::pow(10.0, -r.uni(0, 30)) * (r.chance(0.5) ? 1 : -1); x.freq[j] = cd(-(es + o.real()) / g.alpha_[j], tiny); }
        }
      }
      auto e = x.vars();
      // observed magnitudes, computed here from the structures
      double big_term = 0, big_k = 0, big_ure = 0, big_any = 0, big_gre = 0; bool fin = true, integral = false, pole = false; double der = 0;
      std::vector<cd> K;
      AmiBase quiet; quiet.precision_cutoff = 1e300;
      for (auto &t : so.T) {
        cd f = t.sign; double dm = 0;
        for (auto &q1 : t.p_list) { cd fv = quiet.fermi_pole(pr, q1, e); f *= fv; if (q1.der_ > 0) dm = std::max({dm, std::fabs(fv.real()), std::fabs(fv.imag())}); }
        cd d = 1; for (auto &g : t.g_list) { cd q1 = 0; for (size_t i = 0; i < g.alpha_.size(); i++) q1 += double(g.alpha_[i]) * x.freq[i]; for (size_t i = 0; i < g.eps_.size(); i++) q1 += double(g.eps_[i]) * x.energy[i]; d *= q1; if (q1 == cd(0, 0)) pole = true; big_any = std::max(big_any, 1 / std::abs(q1)); }
        if (t.g_list.size()) { double re = std::fabs((x.prefactor / d).real()); if (!(std::fabs(re - std::floor(re + 0.5)) > 1e-12 * (1 + re))) integral = true; }
        K.push_back(f);
        cd gp = x.prefactor / d; cd tv = f * gp; if (!std::isfinite(std::abs(gp)) || !std::isfinite(std::abs(f)) || !std::isfinite(std::abs(tv))) fin = false;
        der = std::max(der, dm); big_k = std::max(big_k, std::fabs(f.real())); big_term = std::max({big_term, std::fabs(tv.real()), std::fabs(tv.imag())}); if (t.g_list.size()) big_gre = std::max(big_gre, std::fabs(gp.real()));
        big_any = std::max({big_any, std::abs(f), std::abs(gp), std::abs(tv), std::abs(f * gp / (x.prefactor ? x.prefactor : 1.0))});
      }
      if (special && der > 0 && std::isfinite(der) && r.chance(0.8)) { cut = der / std::pow(10.0, r.uni(2.1, 4)); a.precision_cutoff = cut; c.cnt[special == 1 ? "points on two energy scales" : "points at imaginary energies"]++; }
      for (auto &g : so.f.u) { cd q1 = 0; for (size_t i = 0; i < g.alpha_.size(); i++) q1 += double(g.alpha_[i]) * x.freq[i]; for (size_t i = 0; i < g.eps_.size(); i++) q1 += double(g.eps_[i]) * x.energy[i]; cd v = 1.0 / q1; big_ure = std::max({big_ure, std::fabs(v.real()), std::fabs(v.imag())}); }
      c.note(cd_dump(p, x) + " cutoff " + std::to_string(cut));
      if (pole && sing) // a propagator that vanishes exactly: never a finite value without the flag
        for (int route = 0; route < 4; route++) {
          if (r.chance(0.3)) a.overflow_detected = r.chance(0.5);
          cd v = eval_route(a, pr, so, e, route); c.cnt["evaluations exactly on a pole"]++; c.seen(c.cur_dump + route_name[route], true, cstr(v));
          if (!a.overflow_detected && std::isfinite(v.real()) && std::isfinite(v.imag())) { c.viol(std::string(route_name[route]) + ": a remaining propagator is exactly singular, yet the value is " + cstr(v) + " and the overflow flag is clear"); return; }
        }
      if (!fin) { c.cnt["skipped: not finite"]++; continue; }
      // the merged products of the two factorised forms
      auto inv = [&](const AmiBase::g_struct &g) { cd q1 = 0; for (size_t i = 0; i < g.alpha_.size(); i++) q1 += double(g.alpha_[i]) * x.freq[i]; for (size_t i = 0; i < g.eps_.size(); i++) q1 += double(g.eps_[i]) * x.energy[i]; return cd(1, 0) / q1; };
      auto merged = [&](const Fac &f) {
        double m = 0; if (f.e.size() != f.r.size() || f.u.empty()) return m; // nothing to factorise: the plain route
        for (size_t g = 0; g < f.e.size(); g++) {
          cd ks = 0; double as = 0; for (auto &q : f.e[g]) { if (q.first < 0 || q.first >= int(K.size())) return 0.0; ks += K[q.first] * double(q.second); as += std::abs(K[q.first]); }
          if (std::abs(ks) < 1e-6 * as) continue;
          cd v = ks * x.prefactor; for (auto &q : f.r[g]) { if (q.first < 0 || q.first >= int(f.u.size())) return 0.0; v *= inv(f.u[q.first]); }
          if (std::isfinite(std::abs(v))) m = std::max({m, std::fabs(v.real()), std::fabs(v.imag())});
        }
        return m; };
      bool order = so.R.size() && so.R.back().size() == so.T.size(); // the products of the SPR form in the order of the terms
      for (size_t i = 0; order && i < so.T.size(); i++) { auto &A = so.R.back()[i], &B = so.T[i].g_list; order = A.size() == B.size(); for (size_t j = 0; order && j < A.size(); j++) order = A[j].alpha_ == B[j].alpha_ && A[j].eps_ == B[j].eps_; }
      double big_mt = merged(so.ft), big_mf = order ? merged(so.f) : 0;
      if (!order) c.cnt["SPR form in another order than the terms"]++;
      bool generic = !sing && !integral && big_any * double(so.T.size()) < 1e9; if (integral) c.cnt["points with a product of integral real part"]++;
      bool otf = !sing && !dup && p.R0.size() <= 7; // nothing degenerate: the on-the-fly route is the plain one
      for (size_t i = 0; i < x.energy.size(); i++) { otf = otf && x.energy[i] != cd(0, 0); for (size_t j = 0; j < i; j++) otf = otf && x.energy[i] != x.energy[j] && x.energy[i] != -x.energy[j]; }
      for (int route = 0; route < (otf ? 5 : 4); route++) {
        if (r.chance(0.3)) a.overflow_detected = r.chance(0.5); // whatever happened before
        if (route == 4) a.evaluate_otf(pr, so.R, so.P, so.S, e); else eval_route(a, pr, so, e, route);
        bool f = a.overflow_detected; c.cnt["flags read"]++; 
        std::string rname = route == 4 ? "on the fly" : route_name[route];
        bool must = false, mustnot = false;
        if (route == SPR || route == 4) { must = big_term > 100 * cut || big_k > 100 * cut || der > 100 * cut; mustnot = generic && std::max(big_any, der) * so.T.size() < cut / 100; }
        else if (route == TERMS) { must = der > 100 * cut || big_gre > digits; mustnot = generic && der < cut / 100; }
        else { double mg = route == FTERMS ? big_mt : big_mf; if (mg > 100 * cut && !(big_ure > 100 * cut || der > 100 * cut)) c.cnt["only a merged product beyond the cut-off"]++;
          must = big_ure > 100 * cut || der > 100 * cut || mg > 100 * cut; mustnot = generic && std::max(big_any, der) * so.T.size() < cut / 100; }
        if (must) c.cnt["evaluations beyond the cut-off"]++;
        if (mustnot) c.cnt["regular evaluations"]++;
        c.seen(c.cur_dump + rname, must || mustnot, f ? "flag set" : "flag clear");
        if (must && !f) { c.viol(rname + ": a contribution is far beyond the cut-off but the overflow flag is clear (largest weighted product " + std::to_string(big_term) + ")"); return; }
        if (mustnot && f) { c.viol(rname + ": the overflow flag is set at a regular point (largest quantity " + std::to_string(big_any) + ")"); return; }
      }
    }
  });
}
#ifdef BOOST_MP
static void c16(Ctx &c) { flags(c, c.thorough ? 12000 : 1800, 1e37); } // quad precision keeps 34 digits
#else
static void c16(Ctx &c) { flags(c, c.thorough ? 12000 : 1800, 1e19); }
#endif
// ------------------------------------------------------------------ C17
static void c17(Ctx &c) {
  c.run("options", c.thorough ? 25000 : 3500, [&](Rng &r) {
    Want w; w.cap = 1200; w.dup = r.chance(0.45); bool fermionic = r.chance(0.7);
    w.no_zero_pole = !fermionic; w.post = [&](Rng &r, Problem &p) { set_type(p, fermionic ? fermi_types[r.below(7)] : bose_types[r.below(5)]); };
    Problem p; RefSol s; if (!draw(r, w, p, s)) { c.cnt["no problem drawn"]++; return; }
    RefOpt o; double er[] = {0, 1e-6, 1e-3, 0.05, 0.3}; o.ereg = er[r.below(5)]; o.drop_bose = r.chance(0.5); o.drop_der = r.chance(0.4);
    AmiBase a; a.drop_bosonic_diverge = o.drop_bose; a.drop_der = o.drop_der;
    bool keepz = fermionic && r.chance(0.3) && o.drop_bose; // keep zero-energy poles but drop their Bose factor
    if (s.zero_pole && !keepz) c.cnt["solutions with dropped zero-energy poles"]++;
    if (keepz || (!s.zero_pole && r.chance(0.5))) { a.drop_matsubara_poles = false; c.cnt["zero-energy pole filter off"]++; }
    Sol so; c.note(dump(p)); build(a, p, so, -1, o.ereg);
    AmiBase::ami_parms pr(p.n, o.ereg, p.type);
    for (int k = 0; k < 3; k++) {
      Point x = gen_point(r, p);
      int tries = 0; bool want_zero = r.chance(0.5); RefVal v, v0; RefOpt plain;
      do { if (want_zero) { for (auto &e : x.energy) { e = 0.25 * r.range(1, 3); if (r.chance(0.5)) e = -e; } }
        v = ref_eval(s, x, o); } while (want_zero && (!v.finite || v.mind < 1e-4 || v.bose_zero == 0) && ++tries < 12);
      c.note(cd_dump(p, x) + " E_REG=" + std::to_string(o.ereg) + (o.drop_bose ? " drop_bosonic_diverge" : "") + (o.drop_der ? " drop_der" : "") + (a.drop_matsubara_poles ? "" : " keep_matsubara_poles"));
      if (!v.finite || v.mind < 1e-4 || v.minb < 1e-7 || !std::isfinite(v.A)) { c.cnt["skipped: singular"]++; continue; }
      if (v.bose_zero) c.cnt["points with a Bose factor at zero energy"]++;
      if (v.zeroed) c.cnt["points with dropped factors"]++;
      if (o.ereg) c.cnt["points with a regulator"]++;
      int route = r.below(4); auto e = x.vars(); cd g = eval_route(a, pr, so, e, route);
      c.seen(c.cur_dump, o.ereg != 0 || v.zeroed, cstr(g));
      if (!close(c, g, v, std::string("evaluate(") + route_name[route] + ")")) return;
      if (o.ereg == 0 && !v.zeroed && !v.bose_zero && !a.verbose) { // options without anything to act on are inert
        AmiBase b; AmiBase::ami_parms p0(p.n, 0, p.type); Sol s0; build(b, p, s0); auto e0 = x.vars(); cd h = eval_route(b, p0, s0, e0, route); c.cnt["inert options compared"]++;
        if (!(std::abs(h - g) <= 2 * ref_tol(v))) { c.viol("options that apply to nothing change " + cstr(h) + " into " + cstr(g)); return; }
      }
    }
  });
}
// ------------------------------------------------------------------ C18: same cases in both builds
static void c18(Ctx &c) {
  FILE *fo = c.out.empty() ? nullptr : fopen(c.out.c_str(), "w"); std::map<std::string, std::string> ref;
  if (!c.in.empty()) { std::ifstream f(c.in); std::string l; while (std::getline(f, l)) { auto k = l.find('='); if (k != std::string::npos) ref[l.substr(0, k)] = l.substr(k + 1); } }
  c.run("both-builds", c.thorough ? 15000 : 2000, [&](Rng &r) {
    Want w; w.cap = 800; w.dup = r.chance(0.4); w.next_max = r.chance(0.2) ? 2 : 1; w.no_zero_pole = true; w.post = [&](Rng &r, Problem &p) { random_type(r, p); };
    Problem p; RefSol s; if (!draw(r, w, p, s)) { c.cnt["no problem drawn"]++; return; }
    AmiBase a; Sol so; c.note(dump(p)); build(a, p, so); AmiBase::ami_parms pr(p.n, 0, p.type);
    std::string key = std::to_string(c.cur_idx), sym = std::to_string(fnv(ser_spr(so) + ser(so.T) + ser(so.f) + ser(so.ft)));
    if (fo) fprintf(fo, "%s:sym=%s\n", key.c_str(), sym.c_str());
    else { if (!ref.count(key + ":sym")) { c.cnt["no counterpart"]++; return; } c.cnt["symbolic solutions compared"]++; if (ref[key + ":sym"] != sym) { c.viol("the multiprecision build constructs a different symbolic solution"); return; } }
    for (int k = 0; k < 2; k++) {
      Point x = gen_point(r, p); x.prefactor = rand_pf(r); c.note(cd_dump(p, x)); RefVal v = ref_eval(s, x); if (!usable(v, c)) continue;
      // flags are compared where no intermediate quantity comes near a threshold (integer rounding of
      // a product in double precision, or the cut-off)
      double big = v.A; for (auto &t : so.T) { double gp = std::fabs(x.prefactor); for (auto &g : t.g_list) { cd d = 0; for (size_t i = 0; i < g.alpha_.size(); i++) d += double(g.alpha_[i]) * x.freq[i]; for (size_t i = 0; i < g.eps_.size(); i++) d += double(g.eps_[i]) * x.energy[i]; gp /= std::abs(d); big = std::max(big, 1 / std::abs(d)); } big = std::max(big, gp); }
      for (auto &t : so.T) for (auto &q1 : t.p_list) { auto e = x.vars(); big = std::max(big, std::abs(a.fermi_pole(pr, q1, e))); }
      bool huge = !(big * double(so.T.size()) < 1e9);
      for (int route = 0; route < 4; route++) {
        auto e = x.vars(); cd g = eval_route(a, pr, so, e, route); std::string kk = key + ":" + std::to_string(k) + ":" + std::to_string(route);
        if (fo) { fprintf(fo, "%s=%.17g %.17g %d\n", kk.c_str(), g.real(), g.imag(), int(a.overflow_detected)); c.seen(c.cur_dump + route_name[route], true, cstr(g)); continue; }
        auto it = ref.find(kk); if (it == ref.end()) { c.cnt["no counterpart"]++; continue; }
        double re, im; int fl; sscanf(it->second.c_str(), "%lf %lf %d", &re, &im, &fl); cd h(re, im);
        c.seen(c.cur_dump + route_name[route], true, cstr(g) + " standard build " + cstr(h)); c.cnt["values compared between the builds"]++;
        if (!(std::abs(g - h) <= 2 * ref_tol(v))) { c.viol(std::string(route_name[route]) + ": multiprecision build gives " + cstr(g) + ", standard build " + cstr(h)); return; }
        if (!close(c, g, v, std::string("multiprecision ") + route_name[route])) return;
        if (!huge) { c.cnt["flags compared between the builds"]++; if (fl != int(a.overflow_detected)) { c.viol(std::string(route_name[route]) + ": overflow flag differs between the builds at a regular point"); return; } }
      }
    }
  });
  if (!fo) flags(c, c.thorough ? 8000 : 1000, 1e37); // the flag in the multiprecision build, by the same rules
  if (fo) fclose(fo);
}
// ------------------------------------------------------------------ C19: dump for the Python side
static void c19(Ctx &c) {
  FILE *fo = c.out.empty() ? nullptr : fopen(c.out.c_str(), "w"); if (!fo) return;
  auto jl = [](const std::vector<int> &v) { std::string s = "["; for (size_t i = 0; i < v.size(); i++) s += (i ? "," : "") + std::to_string(v[i]); return s + "]"; };
  auto jc = [](const std::vector<cd> &v) { std::string s = "["; char b[80]; for (size_t i = 0; i < v.size(); i++) { snprintf(b, sizeof b, "%s[%.17g,%.17g]", i ? "," : "", v[i].real(), v[i].imag()); s += b; } return s + "]"; };
  c.run("python", c.thorough ? 3000 : 400, [&](Rng &r) {
    Want w; w.no_zero_pole = false; w.cap = 250; w.dup = r.chance(0.4); w.next_max = r.chance(0.2) ? 2 : 1; w.post = [&](Rng &r, Problem &p) { random_type(r, p); if (r.chance(0.3)) for (auto &g : p.R0) g.species_ = r.below(3); };
    Problem p; RefSol s; if (!draw(r, w, p, s)) return;
    double er = r.chance(0.4) ? 0.05 : 0; AmiBase a; Sol so; build(a, p, so, -1, er); AmiBase::ami_parms pr(p.n, er, p.type);
    c.seen(dump(p), true);
    std::string j = "{\"n\":" + std::to_string(p.n) + ",\"type\":" + std::to_string(int(p.type)) + ",\"ereg\":" + (er ? "0.05" : "0") + ",\"g\":[";
    for (size_t i = 0; i < p.R0.size(); i++) j += std::string(i ? "," : "") + "[" + jl(p.R0[i].eps_) + "," + jl(p.R0[i].alpha_) + "," + std::to_string(p.R0[i].species_) + "]";
    j += "],\"R\":["; // full final structures
    for (size_t l = 0; l < so.R.size(); l++) { j += l ? ",[" : "["; for (size_t i = 0; i < so.R[l].size(); i++) { j += i ? ",[" : "["; for (size_t k = 0; k < so.R[l][i].size(); k++) { auto &g = so.R[l][i][k]; j += std::string(k ? "," : "") + "[" + jl(g.eps_) + "," + jl(g.alpha_) + "," + std::to_string(g.species_) + "]"; } j += "]"; } j += "]"; }
    j += "],\"P\":[";
    auto jp = [&](const AmiBase::pole_struct &q1) { return "[" + jl(q1.eps_) + "," + jl(q1.alpha_) + "," + std::to_string(q1.index_) + "," + std::to_string(q1.multiplicity_) + "," + std::to_string(q1.der_) + "," + jl(q1.which_g_) + "]"; };
    for (size_t l = 0; l < so.P.size(); l++) { j += l ? ",[" : "["; for (size_t i = 0; i < so.P[l].size(); i++) { j += i ? ",[" : "["; for (size_t k = 0; k < so.P[l][i].size(); k++) j += (k ? "," : "") + jp(so.P[l][i][k]); j += "]"; } j += "]"; }
    j += "],\"S\":["; char b[40];
    for (size_t l = 0; l < so.S.size(); l++) { j += l ? ",[" : "["; for (size_t i = 0; i < so.S[l].size(); i++) { j += i ? ",[" : "["; for (size_t k = 0; k < so.S[l][i].size(); k++) { snprintf(b, sizeof b, "%s%.17g", k ? "," : "", so.S[l][i][k]); j += b; } j += "]"; } j += "]"; }
    j += "],\"T\":[";
    for (size_t i = 0; i < so.T.size(); i++) { auto &t = so.T[i]; snprintf(b, sizeof b, "%s[%.17g,[", i ? "," : "", t.sign); j += b; for (size_t k = 0; k < t.p_list.size(); k++) j += (k ? "," : "") + jp(t.p_list[k]); j += "],["; for (size_t k = 0; k < t.g_list.size(); k++) j += std::string(k ? "," : "") + "[" + jl(t.g_list[k].eps_) + "," + jl(t.g_list[k].alpha_) + "," + std::to_string(t.g_list[k].species_) + "]"; j += "]]"; }
    j += "],\"pts\":[";
    for (int k = 0; k < 3; k++) {
      Point x = gen_point(r, p); auto e = x.vars(); snprintf(b, sizeof b, "%.17g", x.beta); std::string be = b; snprintf(b, sizeof b, "%.17g", x.prefactor);
      j += std::string(k ? "," : "") + "{\"e\":" + jc(x.energy) + ",\"f\":" + jc(x.freq) + ",\"beta\":" + be + ",\"pf\":" + b + ",\"v\":[";
      for (int rt = 0; rt < 4; rt++) { cd g = eval_route(a, pr, so, e, rt); j += std::string(rt ? "," : "") + "\"" + hexc(g) + "\""; }
      j += "]}";
    }
    j += "]}"; fprintf(fo, "%s\n", j.c_str());
  });
  fclose(fo);
}
// ------------------------------------------------------------------ C20
static double fact(int n) { double f = 1; for (int i = 2; i <= n; i++) f *= i; return f; }
static void c20(Ctx &c) {
  c.run("shapes", c.thorough ? 12000 : 1800, [&](Rng &r) {
    Problem p; std::string fl; if (!gen_rich(r, p, r.chance(0.5), 0, 3, &fl, [](GenOpt &o) { o.abs_conv = false; })) return;
    RefSol rs = ref_solve(p, nullptr, true, r.chance(0.05) ? 8000 : 2000); if (!rs.ok) { c.cnt["too large"]++; return; }
    bool label = r.chance(0.7); if (label) for (size_t i = 0; i < p.R0.size(); i++) p.R0[i].species_ = int(i) + 1;
    AmiBase a; Sol so; AmiBase::ami_parms pr(p.n, 0); c.note(dump(p)); a.construct(pr, p.R0, so.R, so.P, so.S); a.construct(pr, p.R0, so.T);
    c.seen(dump(p), so.R.back().size() > 1, std::to_string(so.R.back().size()) + " products");
    auto bad = [&](const std::string &m) { c.viol(m); };
    int n = p.n, V = p.nalpha(), E = p.neps(), N = p.R0.size();
    if (int(so.R.size()) != n + 1 || int(so.P.size()) != n || int(so.S.size()) != n) return bad("number of levels is not number of sums (+1)");
    if (so.R[0].size() != 1 || ser(so.R[0][0]) != ser(p.R0)) return bad("level 0 is not the integrand");
    std::vector<int> derpath(1, 0); std::vector<double> wpath(1, 1.0);
    for (int l = 0; l < n; l++) {
      if (so.P[l].size() != so.R[l].size() || so.S[l].size() != so.R[l].size()) return bad("level " + std::to_string(l) + ": poles and signs do not match the products");
      std::vector<int> nd; std::vector<double> nw; size_t ch = 0;
      for (size_t j = 0; j < so.P[l].size(); j++) {
        if (so.S[l][j].size() != so.P[l][j].size()) return bad("level " + std::to_string(l) + ": number of signs differs from number of poles");
        for (size_t k = 0; k < so.P[l][j].size(); k++, ch++) {
          auto &q1 = so.P[l][j][k]; if (ch >= so.R[l + 1].size()) return bad("fewer products than poles at level " + std::to_string(l + 1));
          if (int(q1.alpha_.size()) != V || int(q1.eps_.size()) != E) return bad("pole with wrong number of coefficients");
          if (q1.index_ != l) return bad("pole belongs to another frequency than the one summed");
          for (int i = 0; i <= l; i++) if (q1.alpha_[i]) return bad("pole depends on a frequency already summed");
          for (int v : q1.alpha_) if (v > 1 || v < -1) return bad("frequency coefficient of a pole outside 0,+-1");
          if (q1.multiplicity_ < 1 || q1.der_ < 0 || q1.der_ >= q1.multiplicity_ || int(q1.which_g_.size()) != q1.multiplicity_) return bad("pole multiplicity, derivative count and origin are inconsistent");
          double sg = so.S[l][j][k]; if (std::fabs(std::fabs(sg) * fact(q1.multiplicity_ - 1) - 1) > 1e-12) return bad("weight " + std::to_string(sg) + " is not +-1/(M-1)! for multiplicity " + std::to_string(q1.multiplicity_));
          // one line is consumed per sum; a derivative either hits f or repeats a line
          if (int(so.R[l + 1][ch].size()) + q1.der_ != int(so.R[l][j].size()) - 1) return bad("lines plus derivatives are not conserved at level " + std::to_string(l + 1));
          nd.push_back(derpath[j] + q1.der_); nw.push_back(wpath[j] * sg);
          c.cnt["poles checked"]++; if (q1.multiplicity_ > 1) c.cnt["multipoles checked"]++;
        }
      }
      if (ch != so.R[l + 1].size()) return bad("more products than poles at level " + std::to_string(l + 1));
      derpath = nd; wpath = nw;
      for (auto &g : so.R[l + 1]) for (auto &x : g) {
        if (int(x.alpha_.size()) != V || int(x.eps_.size()) != E) return bad("propagator with wrong number of coefficients");
        for (int i = 0; i <= l; i++) if (x.alpha_[i]) return bad("propagator depends on a frequency already summed");
        for (int v : x.alpha_) if (v > 1 || v < -1) return bad("frequency coefficient of a propagator outside 0,+-1");
        if (label && (x.species_ < 1 || x.species_ > N)) return bad("species label lost");
        if (x.stat_ != AmiBase::Fermi) return bad("statistics label changed");
      }
    }
    for (size_t t = 0; t < so.R[n].size(); t++) {
      if (int(so.R[n][t].size()) + derpath[t] != N - n) return bad("lines plus derivatives are not conserved in product " + std::to_string(t));
      if (label && derpath[t] == 0) { std::set<int> sp; int rep = 0; for (auto &x : so.R[n][t]) if (!sp.insert(x.species_).second) rep++; bool multi = false; (void)rep; for (auto &pa : so.P) for (auto &pb : pa) for (auto &q1 : pb) multi |= q1.multiplicity_ > 1; if (!multi && rep) return bad("species labels are duplicated without a repeated line"); }
      c.cnt["products checked"]++;
    }
    if (so.T.size() != so.R[n].size()) return bad("terms form has a different number of terms");
    std::vector<std::string> wa, wb;
    for (size_t t = 0; t < so.T.size(); t++) {
      auto &x = so.T[t]; int d = 0; double m = 1; if (int(x.p_list.size()) != n) return bad("term without exactly one pole per sum");
      std::set<int> idx; for (auto &q1 : x.p_list) { d += q1.der_; m *= fact(q1.multiplicity_ - 1); idx.insert(q1.index_); for (int i = 0; i <= q1.index_ && i < V; i++) if (q1.alpha_[i]) return bad("pole of a term depends on a frequency already summed"); }
      if (int(idx.size()) != n) return bad("term does not hold one pole for each sum");
      if (int(x.g_list.size()) + d != N - n) return bad("lines plus derivatives are not conserved in a term");
      if (std::fabs(std::fabs(x.sign) * m - 1) > 1e-12) return bad("sign of a term is not a product of orientations over factorials");
      for (auto &g : x.g_list) { for (int i = 0; i < n; i++) if (g.alpha_[i]) return bad("term depends on a frequency already summed"); if (label && (g.species_ < 1 || g.species_ > N)) return bad("species label lost in a term"); }
      std::vector<std::string> gs; for (auto &g : x.g_list) gs.push_back(ser(g)); std::sort(gs.begin(), gs.end()); std::string k = std::to_string(d) + "/" + std::to_string(x.sign); for (auto &g : gs) k += g; wa.push_back(k);
      gs.clear(); for (auto &g : so.R[n][t]) gs.push_back(ser(g)); std::sort(gs.begin(), gs.end()); k = std::to_string(derpath[t]) + "/" + std::to_string(wpath[t]); for (auto &g : gs) k += g; wb.push_back(k);
    }
    std::sort(wa.begin(), wa.end()); std::sort(wb.begin(), wb.end());
    if (wa != wb) return bad("weights and products of the terms form differ from those of the SPR form");
  });
}
// ------------------------------------------------------------------ C21
static void c21(Ctx &c) {
  // forms put together by hand: any coefficients, repeated and mirrored factors, empty products
  c.run("forms", c.thorough ? 20000 : 3000, [&](Rng &r) {
    int V = r.range(1, 4), E = r.range(1, 4), N = r.range(1, r.chance(0.2) ? 40 : 6), times = r.chance(0.3) ? 2 : 1, top = r.chance(0.5) ? 1 : 5;
    std::vector<AmiBase::g_struct> pool; for (int i = r.range(1, 5); i > 0; i--) { AmiBase::g_struct g; g.alpha_.resize(V); g.eps_.resize(E); for (int &y : g.alpha_) y = r.range(-top, top); for (int &y : g.eps_) y = r.range(-top, top); bool z = true; for (int y : g.eps_) z &= y == 0; if (z) g.eps_[r.below(E)] = 1; pool.push_back(g); }
    AmiBase::terms T; AmiBase::SorF_t K(1); AmiBase::Ri_t Ri; RefSol s; bool any = false;
    for (int i = 0; i < N; i++) {
      AmiBase::term t; t.sign = r.chance(0.5) ? (r.chance(0.5) ? 1 : -1) : r.uni(-3, 3); RTerm w; w.c = q(t.sign);
      for (int j = r.below(5); j > 0; j--) { auto g = pool[r.below(pool.size())]; if (r.chance(0.3)) { for (int &y : g.alpha_) y = -y; for (int &y : g.eps_) y = -y; } t.g_list.push_back(g); Lin l; l.a = g.alpha_; l.e = g.eps_; ref_add(w.g, l, 1, w.c); any = true; }
      T.push_back(t); K[0].push_back(cd(t.sign, 0)); Ri.push_back(t.g_list); s.terms.push_back(w);
    }
    if (!any) return;
    std::string d = "form"; for (auto &t : T) { d += " " + std::to_string(t.sign); for (auto &g : t.g_list) d += ser(g); } c.note(d);
    RefSol ds = s; for (int k = 0; k < times; k++) ds = ref_diff(ds, V - 1);
    AmiBase a; Fac f, h; a.factorize_terms(T, f.u, f.r, f.e); a.factorize_Rn(Ri, h.u, h.r, h.e);
    for (int k = 0; k < times; k++) { a.derivative_opt(f.u, f.r, f.e); a.derivative_opt(h.u, h.r, h.e); }
    for (int k = 0; k < 2; k++) {
      Point x; x.beta = r.uni(0.5, 4); x.prefactor = r.chance(0.5) ? 1 : rand_pf(r); for (int i = 0; i < E; i++) x.energy.push_back(cd(r.uni(-2, 2), r.chance(0.3) ? r.uni(-1, 1) : 0)); for (int i = 0; i < V; i++) x.freq.push_back(cd(r.chance(0.5) ? 0 : r.uni(-2, 2), r.uni(-2, 2)));
      c.note(d + " at"); RefVal v0 = ref_eval(s, x), v = ref_eval(ds, x); if (!usable(v0, c) || !usable(v, c)) continue;
      auto e = x.vars(); AmiBase::ami_parms pr(0, 0, AmiBase::Sigma); 
      cd g1 = a.evaluate(pr, T, e, f.u, f.r, f.e), g2 = a.optimized_star(pr, K, h.u, h.r, h.e, e);
      c.cnt["derivatives of hand-made forms"]++; c.seen(d + dump(x), true, cstr(g1));
      if (!close(c, g1, v, "derivative of a hand-made form, factorised-terms") || !close(c, g2, v, "derivative of a hand-made form, factorised-spr")) return;
    }
  });
  c.run("derivative", c.thorough ? 20000 : 2500, [&](Rng &r) {
    Want w; w.cap = 800; w.dup = r.chance(0.35); w.next_max = r.chance(0.25) ? 2 : 1; w.no_zero_pole = true; w.post = [&](Rng &r, Problem &p) { random_type(r, p); };
    bool noext = r.chance(0.08); if (noext) w.tweak = [](GenOpt &o) { o.p_ext = 0; };
    Problem p; RefSol s; if (!draw(r, w, p, s)) { c.cnt["no problem drawn"]++; return; }
    int times = r.chance(0.3) ? 2 : 1; int j = p.nalpha() - 1; RefSol ds = s; for (int k = 0; k < times; k++) ds = ref_diff(ds, j);
    if (ds.terms.size() > 20000) { c.cnt["too large"]++; return; }
    AmiBase a; Sol so; c.note(dump(p)); build(a, p, so); AmiBase::ami_parms pr(p.n, 0, p.type);
    if (so.f.u.empty()) { c.cnt["skipped: no propagator left"]++; return; }
    for (int k = 0; k < times; k++) { a.derivative_opt(so.f.u, so.f.r, so.f.e); a.derivative_opt(so.ft.u, so.ft.r, so.ft.e); }
    for (int k = 0; k < 2; k++) {
      Point x = gen_point(r, p); x.prefactor = r.chance(0.5) ? 1 : rand_pf(r); c.note(cd_dump(p, x) + " derivatives " + std::to_string(times));
      RefVal v0 = ref_eval(s, x); if (!usable(v0, c)) continue; RefVal v = ref_eval(ds, x); if (!usable(v, c)) continue;
      int route = r.chance(0.5) ? FSPR : FTERMS; auto e = x.vars(); cd g = eval_route(a, pr, so, e, route);
      c.cnt[ds.terms.empty() ? "zero derivatives" : times == 2 ? "second derivatives" : "first derivatives"]++;
      c.seen(c.cur_dump, true, cstr(g));
      if (!close(c, g, v, std::string("derivative, ") + route_name[route], 1e-14 * std::fabs(x.prefactor) * (ds.terms.empty() ? 0 : 0))) return;
    }
  });
}
// ------------------------------------------------------------------ C24
static void c24(Ctx &c) {
  c.run("partial", c.thorough ? 25000 : 3500, [&](Rng &r) {
    Want w; w.cap = 1500; w.dup = r.chance(0.3); w.next_min = 0; w.next_max = 4; w.tweak = [](GenOpt &o) { o.abs_conv = false; };
    Problem p; RefSol s; if (!gen_rich(r, p, w.dup, 0, r.chance(0.5) ? 4 : 1, nullptr, w.tweak)) return;
    int V = p.nalpha(); if (V < 2) return; int full = p.n, k = r.range(0, p.n);
    p.n = k; if (k > 0 && !absolutely_convergent(p.R0, k)) { bool dep = false; for (auto &g : p.R0) for (int i = 0; i < k; i++) dep |= g.alpha_[i] != 0; c.cnt["skipped: partial sum not absolutely convergent"]++; return; }
    s = ref_solve(p, nullptr, true, w.cap); if (!s.ok) { c.cnt["too large"]++; return; }
    if (s.zero_pole) c.cnt["structures only: zero-energy pole"]++;
    AmiBase a; Sol so; c.note(dump(p) + " full=" + std::to_string(full)); build(a, p, so, k); AmiBase::ami_parms pr(k, 0, p.type);
    c.cnt["summed " + std::to_string(k) + " of " + std::to_string(full) + " loop frequencies"]++; c.cnt["frequencies left external: " + std::to_string(V - k)]++;
    std::vector<std::pair<Point, RefVal>> done;
    for (int t = 0; t < 2 && !s.zero_pole; t++) {
      Point x = gen_point(r, p); c.note(cd_dump(p, x)); RefVal v = ref_eval(s, x); if (!usable(v, c)) continue;
      done.push_back({x, v});
      for (int route = 0; route < 4; route++) { auto e = x.vars(); cd g = eval_route(a, pr, so, e, route); c.seen(c.cur_dump + route_name[route], true, cstr(g)); if (!close(c, g, v, "partial sum, " + std::string(route_name[route]))) return; }
    }
    // continue the remaining sums from the intermediate solution
    if (k < full) {
      AmiBase b; Sol at; Problem pf = p; pf.n = full; RefSol big = ref_solve(pf, nullptr, true, w.cap); if (!big.ok) return;
      c.note(dump(pf) + " resumed after " + std::to_string(k));
      AmiBase::ami_parms prf(full, 0, p.type); b.construct(prf, p.R0, at.R, at.P, at.S); b.construct(prf, p.R0, at.T);
      // the arrays of the full construction hold every intermediate level: evaluating with the smaller number of summed frequencies reads that level
      if (!done.empty()) {
        Fac f; b.factorize_Rn(at.R[k], f.u, f.r, f.e);
        for (auto &d : done) {
          auto e = d.first.vars(); c.note(dump(pf) + " evaluated after " + std::to_string(k) + " sums " + cd_dump(pf, d.first));
          c.cnt["levels of a full solution evaluated"]++;
          if (!close(c, b.evaluate(pr, at.R, at.P, at.S, e), d.second, "level " + std::to_string(k) + " of a full solution")) return;
          if (!close(c, b.evaluate(pr, at.R, at.P, at.S, e, f.u, f.r, f.e), d.second, "level " + std::to_string(k) + " of a full solution, factorised")) return;
        }
        c.note(dump(pf) + " resumed after " + std::to_string(k));
      }
      for (int i = k; i < full; i++) { a.update_gprod_general(i, i, so.R, so.P, so.S); AmiBase::terms nx; a.integrate_step(i, so.T, nx); so.T = nx; }
      c.cnt["resumed constructions compared"]++;
      if (ser_spr(so) != ser_spr(at)) { c.viol("resuming an intermediate SPR solution differs from constructing at once"); return; }
      if (canon(so.T) != canon(at.T)) { c.viol("resuming intermediate terms differs from constructing at once"); return; }
    }
  });
}

#ifdef ONLY_FN  // build a single monitor: everything else is dropped before optimisation
#define ONLY_STR2(x) #x
#define ONLY_STR(x) ONLY_STR2(x)
int main(int argc, char **argv) { return ctx_main(argc, argv, {{ONLY_STR(ONLY_ID), ONLY_FN}}); }
#else
int main(int argc, char **argv) {
  return ctx_main(argc, argv, {{"C01", c01}, {"C02", c02}, {"C03", c03}, {"C04", c04}, {"C05", c05}, {"C06", c06}, {"C07", c07}, {"C08", c08}, {"C10", c10}, {"C11", c11}, {"C12", c12}, {"C15", c15}, {"C16", c16}, {"C17", c17}, {"C18", c18}, {"C19", c19}, {"C20", c20}, {"C21", c21}, {"C24", c24}});
}
#endif
