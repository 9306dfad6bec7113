// C23: structural comparisons, against their definition, and as relations.
#include "lib.hpp"
typedef AmiBase A;
static A::g_struct rnd(Rng &r, int V, int E, int span) {
  A::g_struct g; g.alpha_.assign(V, 0); g.eps_.assign(E, 0); g.species_ = r.below(5) == 0;
  for (int &x : g.alpha_) x = r.chance(0.4) ? 0 : r.range(-1, 1);
  for (int &x : g.eps_) x = r.chance(0.4) ? 0 : r.range(-span, span);
  return g;
}
// a small edit of g, so that almost-equal pairs are frequent
static A::g_struct edit(Rng &r, A::g_struct g, std::string *what) {
  switch (r.below(9)) {
  case 0: *what = "same"; break;
  case 1: for (int &x : g.alpha_) x = -x; for (int &x : g.eps_) x = -x; *what = "negated"; break;
  case 2: if (!g.alpha_.empty()) { int &x = g.alpha_[r.below(g.alpha_.size())]; x = -x; } *what = "one alpha negated"; break;
  case 3: if (!g.eps_.empty()) { int &x = g.eps_[r.below(g.eps_.size())]; x = -x; } *what = "one eps negated"; break;
  case 4: for (int &x : g.alpha_) x = -x; *what = "alpha negated"; break;
  case 5: if (!g.eps_.empty()) g.eps_[r.below(g.eps_.size())] += r.range(-1, 1); if (r.chance(0.5)) { for (int &x : g.alpha_) x = -x; for (int &x : g.eps_) x = -x; } *what = "eps changed"; break;
  case 6: if (r.chance(0.5)) g.alpha_.push_back(r.chance(0.6) ? 0 : 1); else g.eps_.push_back(r.chance(0.6) ? 0 : 1); *what = "longer"; break;
  case 7: g.species_ = r.below(3); *what = "species"; break;
  default: if (!g.alpha_.empty() && r.chance(0.5)) g.alpha_[r.below(g.alpha_.size())] = r.range(-1, 1); else if (r.chance(0.5) && !g.alpha_.empty()) g.alpha_.pop_back(); else if (!g.eps_.empty()) g.eps_.pop_back(); *what = "alpha changed or shorter"; }
  return g;
}
static int ref_struct(const A::g_struct &a, const A::g_struct &b) { // sign, 0 = different
  if (a.species_ != b.species_ || a.alpha_.size() != b.alpha_.size() || a.eps_.size() != b.eps_.size()) return 0;
  bool p = a.alpha_ == b.alpha_ && a.eps_ == b.eps_; if (p) return 1;
  for (size_t i = 0; i < a.alpha_.size(); i++) if (a.alpha_[i] != -b.alpha_[i]) return 0;
  for (size_t i = 0; i < a.eps_.size(); i++) if (a.eps_[i] != -b.eps_[i]) return 0;
  return -1;
}
static A::pole_struct topole(Rng &r, const A::g_struct &g) { A::pole_struct p; p.alpha_ = g.alpha_; p.eps_ = g.eps_; p.index_ = r.below(4); p.multiplicity_ = r.range(1, 3); p.der_ = r.below(2); for (int i = 0; i < p.multiplicity_; i++) p.which_g_.push_back(r.below(6)); return p; }
static void c23(Ctx &c) {
  c.run("structs", c.thorough ? 400000 : 60000, [&](Rng &r) {
    bool wide = r.chance(0.03); A a; int V = r.below(wide ? 70 : 6), E = r.below(wide ? 70 : 7), span = r.chance(0.3) ? 3 : 1; std::vector<A::g_struct> g; std::string w, ws;
    g.push_back(rnd(r, V, E, span)); for (int i = 0; i < 3; i++) { g.push_back(r.chance(0.15) ? rnd(r, V, E, span) : edit(r, g[r.below(g.size())], &w)); ws += w + ";"; }
    if (wide) c.cnt["wide propagators"]++;
    if (r.chance(0.1)) { auto z = g[0]; for (int &x : z.alpha_) x = 0; if (r.chance(0.6)) for (int &x : z.eps_) x = 0; g.push_back(z); g.push_back(z); }
    std::string d; for (auto &x : g) d += ser(x) + " "; c.note(d + ws); c.seen(d, true);
    size_t n = g.size(); std::vector<std::vector<int>> eq(n, std::vector<int>(n)), sg = eq;
    for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) {
      int s = 7; bool e = a.g_struct_equiv(g[i], g[j], s); int want = ref_struct(g[i], g[j]); eq[i][j] = e; sg[i][j] = s;
      c.cnt[want == 0 ? "different pairs" : want > 0 ? "equal pairs" : "pairs equal up to sign"]++;
      std::string pr = ser(g[i]) + " and " + ser(g[j]);
      bool selfneg = true; for (int x : g[i].alpha_) selfneg &= x == 0; for (int x : g[i].eps_) selfneg &= x == 0; // zero: either sign is right
      if (e != (want != 0)) { c.viol(std::string("factorisation comparison answers ") + (e ? "equal" : "different") + " for " + pr); return; }
      if (e && s != want && !(selfneg && s == -1)) { c.viol("factorisation comparison reports sign " + std::to_string(s) + " for " + pr); return; }
      bool comp = g[i].alpha_ == g[j].alpha_ && g[i].eps_ == g[j].eps_;
      if (a.g_equiv(g[i], g[j]) != comp) { c.viol("propagator comparison is wrong for " + pr); return; }
      A::pole_struct p = topole(r, g[i]), q1 = topole(r, g[j]);
      if (a.pole_equiv(p, q1) != comp) { c.viol("pole comparison is wrong for " + pr); return; }
      if (a.isEqual(g[i].alpha_, g[j].alpha_) != (g[i].alpha_ == g[j].alpha_)) { c.viol("isEqual is wrong for " + pr); return; }
      auto neg = g[i].eps_; for (int &x : neg) x = -x; if (a.isNegative(g[i].eps_, g[j].eps_) != (neg == g[j].eps_) || !a.isNegative(g[i].eps_, neg)) { c.viol("isNegative is wrong for " + pr); return; }
    }
    for (size_t i = 0; i < n; i++) { if (!eq[i][i]) { c.viol("comparison is not reflexive"); return; } for (size_t j = 0; j < n; j++) { if (eq[i][j] != eq[j][i] || (eq[i][j] && sg[i][j] != sg[j][i])) { c.viol("comparison is not symmetric"); return; } for (size_t k = 0; k < n; k++) { if (eq[i][j] && eq[j][k]) { c.cnt["transitive triples"]++; if (!eq[i][k] || sg[i][k] != sg[i][j] * sg[j][k]) { c.viol("comparison is not transitive, or its signs do not multiply"); return; } } } } }
  });
  c.run("lists", c.thorough ? 400000 : 60000, [&](Rng &r) {
    bool longl = r.chance(0.05); A a; int n = longl ? r.range(30, 140) : r.below(7), vals = longl && r.chance(0.7) ? r.range(10, 200) : r.range(1, 5); if (longl) c.cnt["long lists"]++; std::vector<A::ref_v_t> v; A::ref_v_t b; for (int i = 0; i < n; i++) b.push_back({r.below(vals), r.chance(0.5) ? 1 : -1}); v.push_back(b);
    for (int k = 0; k < 3; k++) { auto x = v[r.below(v.size())]; r.shuffle(x); for (auto &y : x) if (r.chance(0.3)) y.second = -y.second; int m = r.below(6); if (m == 0 && !x.empty()) x[r.below(x.size())].first = r.below(vals + 1); if (m == 1) x.push_back({r.below(vals), 1}); if (m == 2 && !x.empty()) x.pop_back(); if (m == 3 && x.size() > 1) x[0].first = x[1].first; v.push_back(x); }
    std::string d; for (auto &x : v) d += ser(x); c.note(d); c.seen(d, n > 1);
    for (auto &x : v) for (auto &y : v) {
      std::vector<int> A1, B1; int p1 = 1, p2 = 1; for (auto &z : x) A1.push_back(z.first), p1 *= z.second; for (auto &z : y) B1.push_back(z.first), p2 *= z.second; std::sort(A1.begin(), A1.end()); std::sort(B1.begin(), B1.end());
      bool want = A1 == B1; int s1 = 9, s2 = 9; auto cx = x, cy = y; bool e = a.pair_v_equiv(cx, cy, s1, s2); bool rep = std::adjacent_find(A1.begin(), A1.end()) != A1.end();
      c.cnt[std::string(want ? "equal" : "different") + (rep ? " lists with repeated factors" : " lists")]++;
      if (e != want) { c.viol(std::string("list comparison answers ") + (e ? "equal" : "different") + " for " + ser(x) + " and " + ser(y)); return; }
      if (e && (s1 != p1 || s2 != p2)) { c.viol("list comparison reports signs " + std::to_string(s1) + "," + std::to_string(s2) + " for " + ser(x) + " and " + ser(y)); return; }
      if (ser(cx) != ser(x) || ser(cy) != ser(y)) { c.viol("list comparison changed its input"); return; }
    }
  });
}
int main(int argc, char **argv) { return ctx_main(argc, argv, {{"C23", c23}}); }
