// Shared pieces of the runtime monitors: PRNG, problem description, workload
// generator, verdict/evidence context.  Nothing here comes from /repo except the
// public header of the library under observation.
#pragma once
#include "ami_base.hpp"
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>

typedef std::complex<double> cd;

// ---------------------------------------------------------------- PRNG
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed) { for (int i = 0; i < 4; i++) next(); }
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ULL);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
    return z ^ (z >> 31);
  }
  int below(int n) { return n <= 0 ? 0 : int(next() % uint64_t(n)); }
  int range(int a, int b) { return a + below(b - a + 1); } // inclusive
  double uni() { return double(next() >> 11) * (1.0 / 9007199254740992.0); }
  double uni(double a, double b) { return a + (b - a) * uni(); }
  bool chance(double p) { return uni() < p; }
  template <class T> void shuffle(std::vector<T> &v) {
    for (int i = int(v.size()) - 1; i > 0; i--) std::swap(v[i], v[below(i + 1)]);
  }
};
inline uint64_t mix(uint64_t a, uint64_t b) {
  Rng r(a * 0x9E3779B97F4A7C15ULL ^ (b + 0x7F4A7C15ULL) * 0xD6E8FEB86659FD93ULL);
  return r.next();
}
inline uint64_t fnv(const std::string &s) {
  uint64_t h = 1469598103934665603ULL;
  for (unsigned char c : s) { h ^= c; h *= 1099511628211ULL; }
  return h;
}

// ---------------------------------------------------------------- problem
struct Problem {
  int n = 1;                 // number of sums
  AmiBase::g_prod_t R0;      // integrand
  std::vector<char> fermi;   // statistics of every frequency: 1 = fermionic
  AmiBase::graph_type type = AmiBase::Sigma;
  int nalpha() const { return R0.empty() ? 0 : int(R0[0].alpha_.size()); }
  int neps() const { return R0.empty() ? 0 : int(R0[0].eps_.size()); }
};
struct Point {
  AmiBase::energy_t energy;
  AmiBase::frequency_t freq;
  double beta = 1, prefactor = 1;
  AmiBase::ami_vars vars() const { return AmiBase::ami_vars(energy, freq, beta, prefactor); }
};

inline std::string vstr(const std::vector<int> &v) {
  std::string s = "(";
  for (size_t i = 0; i < v.size(); i++) { if (i) s += ","; s += std::to_string(v[i]); }
  return s + ")";
}
inline std::string cstr(cd z) {
  char b[96]; snprintf(b, sizeof b, "(%.17g,%.17g)", z.real(), z.imag()); return b;
}
inline std::string dump(const AmiBase::g_prod_t &g) {
  std::string s = "[";
  for (auto &x : g) s += "{a" + vstr(x.alpha_) + " e" + vstr(x.eps_) + (x.species_ ? " s" + std::to_string(x.species_) : "") + "}";
  return s + "]";
}
inline std::string dump(const Problem &p) {
  std::string s = "n=" + std::to_string(p.n) + " type=" + std::to_string(int(p.type)) + " fermi=";
  for (char c : p.fermi) s += c ? 'F' : 'B';
  return s + " R0=" + dump(p.R0);
}
inline std::string dump(const Point &x) {
  std::string s; char b[64];
  snprintf(b, sizeof b, "beta=%.17g pf=%.17g ", x.beta, x.prefactor); s += b;
  s += "energy="; for (auto e : x.energy) s += cstr(e);
  s += " freq="; for (auto e : x.freq) s += cstr(e);
  return s;
}

// ---------------------------------------------------------------- generator
struct GenOpt {
  int nmin = 1, nmax = 3;
  int next_min = 1, next_max = 1;   // number of frequencies that are not summed
  int max_g = 7;                    // lines before duplication
  double p_dup = 0.0;               // chance of inserting repeated propagators
  int max_mult = 2;                 // most copies of one propagator
  bool abs_conv = true;             // require an absolutely convergent multiple sum
  double p_share = 0.15;            // chance that a line reuses an energy symbol
  double p_combo = 0.1;             // chance that a line's eps is not a unit vector
  double p_flip = 0.3;              // chance of writing a line as -(...)
  double p_nointernal = 0.25;       // chance of dropping a line (it is an interaction)
  double p_ext = 1.0;               // chance that external frequencies run through the diagram
  double p_disc = 0.0;
};

inline int rank_rows(std::vector<std::vector<int>> m) { // exact small integer rank (fraction free)
  int r = 0, rows = m.size(); if (!rows) return 0; int cols = m[0].size();
  std::vector<std::vector<double>> a(rows, std::vector<double>(cols));
  for (int i = 0; i < rows; i++) for (int j = 0; j < cols; j++) a[i][j] = m[i][j];
  for (int c = 0; c < cols && r < rows; c++) {
    int p = -1; double best = 1e-9;
    for (int i = r; i < rows; i++) if (std::fabs(a[i][c]) > best) { best = std::fabs(a[i][c]); p = i; }
    if (p < 0) continue;
    std::swap(a[p], a[r]);
    for (int i = r + 1; i < rows; i++) { double f = a[i][c] / a[r][c]; for (int j = c; j < cols; j++) a[i][j] -= f * a[r][j]; }
    r++;
  }
  return r;
}

// The n-fold sum converges absolutely iff for every proper flat F of the loop part,
// (#lines not in F) > n - rank(F).
inline bool absolutely_convergent(const AmiBase::g_prod_t &R0, int n) {
  int N = R0.size();
  if (N > 16) return false;
  std::vector<std::vector<int>> rows(N);
  for (int i = 0; i < N; i++) rows[i].assign(R0[i].alpha_.begin(), R0[i].alpha_.begin() + n);
  if (rank_rows(rows) < n) return false;
  // flats are spanned by independent subsets of size < n
  std::vector<int> idx;
  std::function<bool(int)> rec = [&](int start) -> bool {
    std::vector<std::vector<int>> base; for (int i : idx) base.push_back(rows[i]);
    int r = rank_rows(base);
    if (r < int(idx.size())) return true;
    if (r >= n) return true;
    int outside = 0;
    for (int i = 0; i < N; i++) { auto b = base; b.push_back(rows[i]); if (rank_rows(b) > r) outside++; }
    if (!(outside > n - r)) return false;
    for (int i = start; i < N; i++) { idx.push_back(i); bool ok = rec(i + 1); idx.pop_back(); if (!ok) return false; }
    return true;
  };
  return rec(0);
}

// A random Feynman-like graph.  Frequencies label the co-tree edges of a random
// connected multigraph, every other edge carries the frequency fixed by
// conservation, so the alpha matrix is a network matrix (all minors 0,+-1).
inline bool gen_problem(Rng &r, const GenOpt &o, Problem &out) {
  int n = r.range(o.nmin, o.nmax), ne = r.range(o.next_min, o.next_max), V = n + ne;
  int ntree = r.range(std::max(1, 1 + (n > 1)), std::max(2, o.max_g - n + 1));
  int nv = ntree + 1;
  // random tree: parent[i] < i
  std::vector<int> par(nv, -1); std::vector<int> psign(nv, 1), depth(nv, 0);
  bool chain = r.chance(0.6);
  for (int i = 1; i < nv; i++) { par[i] = chain ? i - 1 : r.below(i); psign[i] = r.chance(0.5) ? 1 : -1; depth[i] = depth[par[i]] + 1; }
  std::vector<std::vector<int>> tree(nv, std::vector<int>(V, 0)); // row of tree edge i (to parent)
  for (int k = 0; k < V; k++) {
    if (k >= n && !r.chance(o.p_ext)) continue;
    int u = r.below(nv), v = r.below(nv);
    if (u == v && r.chance(0.8)) v = (u + 1 + r.below(nv - 1)) % nv;
    if (u == v) continue;
    // flow of unit k returns v -> u along the tree
    int x = v, y = u;
    while (x != y) {
      if (depth[x] >= depth[y]) { tree[x][k] += psign[x]; x = par[x]; }
      else { tree[y][k] -= psign[y]; y = par[y]; }
    }
  }
  std::vector<std::vector<int>> rows;
  for (int k = 0; k < n; k++) { std::vector<int> e(V, 0); e[k] = 1; if (!r.chance(o.p_nointernal * 0.5)) rows.push_back(e); }
  for (int i = 1; i < nv; i++) {
    bool loop = false; for (int k = 0; k < n; k++) if (tree[i][k]) loop = true;
    if (!loop) { if (!r.chance(0.1)) continue; bool any = false; for (int k : tree[i]) any |= k != 0; if (!any) continue; }
    if (!r.chance(o.p_nointernal)) rows.push_back(tree[i]);
  }
  if (rows.empty() || int(rows.size()) > o.max_g) return false;
  r.shuffle(rows);
  int N = rows.size();
  struct L { std::vector<int> a; std::vector<int> sym; int sgn; };
  // energy symbols
  int nsym = 0; std::vector<std::vector<std::pair<int,int>>> esym(N);
  for (int i = 0; i < N; i++) {
    if (nsym && r.chance(o.p_share)) esym[i].push_back({r.below(nsym), r.chance(0.8) ? 1 : -1});
    else esym[i].push_back({nsym++, 1});
    if (nsym > 1 && r.chance(o.p_combo)) esym[i].push_back({r.below(nsym), r.range(-2, 2)});
  }
  int neps = nsym + (r.chance(0.3) ? r.range(1, 2) : 0);
  std::vector<AmiBase::g_struct> gs;
  for (int i = 0; i < N; i++) {
    AmiBase::epsilon_t e(neps, 0);
    for (auto &p : esym[i]) e[p.first] += p.second;
    bool zero = true; for (int x : e) zero &= x == 0;
    if (zero) e[esym[i][0].first] = 1;
    AmiBase::alpha_t a(rows[i].begin(), rows[i].end());
    gs.push_back(AmiBase::g_struct(e, a));
  }
  if (r.chance(o.p_dup)) {
    int times = r.range(1, 2);
    for (int t = 0; t < times; t++) {
      int w = r.below(N), c = r.range(1, o.max_mult - 1);
      int have = 0; for (auto &g : gs) if (g.alpha_ == gs[w].alpha_ && g.eps_ == gs[w].eps_) have++;
      for (int k = 0; k < c && have < o.max_mult; k++, have++) gs.push_back(gs[w]);
    }
  }
  for (auto &g : gs) if (r.chance(o.p_flip)) { for (int &x : g.alpha_) x = -x; for (int &x : g.eps_) x = -x; }
  r.shuffle(gs);
  out.n = n; out.R0 = gs; out.fermi.assign(V, 1); out.type = AmiBase::Sigma;
  // every summed frequency must occur
  for (int k = 0; k < n; k++) { bool f = false; for (auto &g : gs) f |= g.alpha_[k] != 0; if (!f) return false; }
  std::vector<std::vector<int>> lr; for (auto &g : gs) lr.push_back(std::vector<int>(g.alpha_.begin(), g.alpha_.begin() + n));
  if (rank_rows(lr) < n) return false;
  if (o.abs_conv && !absolutely_convergent(gs, n)) return false;
  return true;
}


// flavours: broad mixture used by most monitors
struct Flavour { const char *name; double w; GenOpt o; int special; };
inline std::vector<Flavour> flavours(bool dup, int next_min, int next_max) {
  std::vector<Flavour> f;
  auto add = [&](const char *n, double w, std::function<void(GenOpt &)> fn, int special = 0) {
    Flavour x; x.name = n; x.w = w; x.special = special; x.o.next_min = next_min; x.o.next_max = next_max;
    if (dup) { x.o.p_dup = 1.0; x.o.max_mult = 3; }
    fn(x.o); f.push_back(x);
  };
  if (!dup) {
    add("plain", 5, [](GenOpt &o) { o.nmax = 3; });
    add("n4", 1, [](GenOpt &o) { o.nmin = o.nmax = 4; o.max_g = 8; o.p_nointernal = 0.3; });
    add("many-lines", 1.5, [](GenOpt &o) { o.nmax = 2; o.max_g = 11; o.p_nointernal = 0.05; });
    add("dense-eps", 1.5, [](GenOpt &o) { o.nmax = 3; o.p_combo = 0.9; o.p_share = 0.3; });
    add("shared-eps", 1.5, [](GenOpt &o) { o.nmax = 3; o.p_share = 0.7; });
    add("collinear", 1.5, [](GenOpt &o) { o.nmax = 3; }, 1);
    add("n5", 0.4, [](GenOpt &o) { o.nmin = o.nmax = 5; o.max_g = 8; o.p_nointernal = 0.35; });
    add("one-sum-many-lines", 0.6, [](GenOpt &o) { o.nmax = 1; o.max_g = 14; o.p_nointernal = 0.02; });
    add("some-dup", 1, [](GenOpt &o) { o.nmax = 3; o.p_dup = 0.5; o.max_mult = 2; });
  } else {
    add("dup-n12", 4, [](GenOpt &o) { o.nmax = 2; o.max_g = 6; });
    add("dup-n3", 2, [](GenOpt &o) { o.nmin = o.nmax = 3; o.max_g = 6; o.max_mult = 2; });
    add("dup-high", 3, [](GenOpt &o) { o.nmax = 1; o.max_g = 5; o.max_mult = 6; });
    add("dup-high2", 1.5, [](GenOpt &o) { o.nmin = o.nmax = 2; o.max_g = 4; o.max_mult = 4; });
    add("dup-n4", 0.5, [](GenOpt &o) { o.nmin = o.nmax = 4; o.max_g = 7; o.max_mult = 2; o.p_nointernal = 0.35; });
    add("collinear-dup", 3, [](GenOpt &o) { o.nmax = 3; o.max_g = 6; o.max_mult = 2; }, 1);
    add("mirror", 2, [](GenOpt &o) { o.nmax = 2; o.max_g = 6; o.p_flip = 0.5; });
  }
  return f;
}

// Give a subset of lines the energies of a common frequency shift: their poles coincide
// once one of them has been used as a residue.
inline void make_collinear(Rng &r, Problem &p) {
  int V = p.nalpha(), E = p.neps(), base = E;
  for (auto &g : p.R0) g.eps_.resize(E + p.n, 0);
  double part = r.chance(0.5) ? 1.0 : 0.6;
  for (auto &g : p.R0) if (r.chance(part)) {
    std::vector<int> e(E + p.n, 0); bool any = false;
    for (int k = 0; k < p.n && k < V; k++) { e[base + k] = g.alpha_[k]; any |= g.alpha_[k] != 0; }
    if (any) g.eps_ = e;
  }
  // drop unused columns
  std::vector<int> keep; int W = E + p.n;
  for (int j = 0; j < W; j++) { bool u = false; for (auto &g : p.R0) u |= g.eps_[j] != 0; if (u || r.chance(0.1)) keep.push_back(j); }
  if (keep.empty()) keep.push_back(0);
  for (auto &g : p.R0) { std::vector<int> e; for (int j : keep) e.push_back(g.eps_[j]); g.eps_ = e; }
}

// Long vectors and large coefficients: unused symbols and frequencies in between, rescaled symbols.
inline void dress(Rng &r, Problem &p) {
  int V = p.nalpha(), E = p.neps();
  if (r.chance(0.08)) { // unused energy symbols
    int pad = r.range(1, r.chance(0.3) ? 28 : 8); std::vector<int> pos(E + pad); for (size_t i = 0; i < pos.size(); i++) pos[i] = i; r.shuffle(pos);
    for (auto &g : p.R0) { AmiBase::epsilon_t e(E + pad, 0); for (int i = 0; i < E; i++) e[pos[i]] = g.eps_[i]; g.eps_ = e; }
    E += pad;
  }
  if (V > p.n && r.chance(0.06)) { // external frequencies that do not occur, before the last one
    int pad = r.range(1, r.chance(0.3) ? 8 : 3);
    for (int k = 0; k < pad; k++) { int at = r.range(p.n, V - 1); for (auto &g : p.R0) g.alpha_.insert(g.alpha_.begin() + at, 0); p.fermi.insert(p.fermi.begin() + at, 1); V++; }
  }
  if (E && r.chance(0.05)) { // every line's energy is a sum of many symbols
    int q = r.range(2, r.chance(0.5) ? 12 : 4); std::vector<std::vector<std::pair<int, int>>> to(E); int W = 0;
    for (int i = 0; i < E; i++) for (int k = r.range(1, q); k > 0; k--) { int cf = r.range(-2, 2); to[i].push_back({W++, cf ? cf : 1}); }
    std::vector<int> pos(W); for (int i = 0; i < W; i++) pos[i] = i; if (r.chance(0.5)) r.shuffle(pos);
    for (auto &g : p.R0) { AmiBase::epsilon_t e(W, 0); for (int i = 0; i < E; i++) for (auto &t : to[i]) e[pos[t.first]] += g.eps_[i] * t.second; g.eps_ = e; }
    E = W;
  }
  if (V > p.n && p.fermi.back() && r.chance(0.04)) { // the external line carries the sum of an odd number of frequencies
    int add = 2 * r.range(1, r.chance(0.3) ? 6 : 2);
    for (int k = 0; k < add; k++) { for (auto &g : p.R0) g.alpha_.push_back(g.alpha_.back()); p.fermi.push_back(1); V++; }
  }
  if (r.chance(0.08)) { // rescaled symbols
    int j = r.below(E); static const int f[] = {2, 3, -2, 5, -4, 9}; int k = f[r.below(6)]; bool all = r.chance(0.3);
    for (auto &g : p.R0) for (int i = 0; i < E; i++) if (all || i == j) g.eps_[i] *= k;
  }
}
inline bool gen_rich(Rng &r, Problem &p, bool dup, int next_min, int next_max, std::string *name = nullptr, std::function<void(GenOpt &)> tweak = nullptr) {
  auto fl = flavours(dup, next_min, next_max);
  double tot = 0; for (auto &f : fl) tot += f.w;
  double u = r.uni() * tot; size_t k = 0; while (k + 1 < fl.size() && u > fl[k].w) { u -= fl[k].w; k++; }
  if (tweak) tweak(fl[k].o);
  for (int t = 0; t < 400; t++) {
    if (!gen_problem(r, fl[k].o, p)) continue;
    if (fl[k].special == 1) make_collinear(r, p);
    if (r.chance(0.04)) { auto &g = p.R0[r.below(p.R0.size())]; std::fill(g.eps_.begin(), g.eps_.end(), 0); }
    dress(r, p);
    if (name) *name = fl[k].name;
    return true;
  }
  return false;
}

struct PointOpt { bool wild = true; bool static_bose = true; bool junk_internal = true; };
inline Point gen_point(Rng &r, const Problem &p, const PointOpt &o = PointOpt()) {
  Point x;
  static const double betas[] = {0.5, 1.0, 2.0, 5.0, 8.33, 12.0};
  x.beta = r.chance(0.6) ? betas[r.below(6)] : r.uni(0.3, 20.0);
  double emax = 4.0;
  if (o.wild) {
    if (r.chance(0.08)) x.beta = r.uni(20, 300);
    else if (r.chance(0.06)) x.beta = r.uni(0.02, 0.3);
    else if (r.chance(0.03)) x.beta = std::pow(10.0, r.chance(0.5) ? r.uni(2.5, 4) : r.uni(-3, -1.7));
    if (r.chance(0.08)) emax = 60.0;
  }
  int sgnmode = r.below(6); // all positive, all negative, mixed
  for (int i = 0; i < p.neps(); i++) {
    double m = r.uni(0.15, emax);
    if (sgnmode == 1 || (sgnmode > 1 && r.chance(0.5))) m = -m;
    x.energy.push_back(cd(m, 0));
  }
  if (o.wild && !x.energy.empty() && r.chance(0.03)) x.energy[r.below(x.energy.size())] = 0; // f(0) and lines of zero energy
  if (o.wild && x.energy.size() > 1 && r.chance(0.03)) x.energy[0] = x.energy[r.below(x.energy.size())] * (r.chance(0.5) ? 1.0 : -1.0);
  if (o.wild && r.chance(0.12)) for (auto &e : x.energy) e += cd(0, r.uni(-0.4, 0.4));
  int fmode = r.below(10);
  bool realf = fmode < 2;
  for (int i = 0; i < p.nalpha(); i++) {
    if (i < p.n) { x.freq.push_back(cd(0, 0)); continue; }
    int m = r.range(-4, 4);
    if (o.wild && fmode == 9) m = r.chance(0.8) ? r.range(-300, 300) : r.range(-100000, 100000);
    if (realf) x.freq.push_back(cd(r.uni(-5, 5), r.uni(0.05, 0.5) * (r.chance(0.5) ? 1 : -1)));
    else if (p.fermi[i]) x.freq.push_back(cd(0, (2 * m + 1) * M_PI / x.beta));
    else { if (m == 0 && !(o.static_bose && r.chance(0.3))) m = 1; x.freq.push_back(cd(0, 2 * m * M_PI / x.beta)); }
  }
  if (o.junk_internal && r.chance(0.2)) for (int i = 0; i < p.n && i < int(x.freq.size()); i++) x.freq[i] = cd(r.uni(-3, 3), r.uni(-3, 3));
  static const double pfs[] = {-1.0, 2.5, 1e-3, -3.7e5, 0.5, 7.0};
  if (r.chance(0.3)) x.prefactor = pfs[r.below(6)];
  return x;
}
