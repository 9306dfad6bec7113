// C22: every symbolic step on its own, against Taylor series in quad precision.
#include "lib.hpp"
typedef AmiBase A;
typedef std::vector<cq> Jet; // Taylor coefficients in the summed frequency

struct Env { std::vector<cq> nu, e; };
static cq lin(const std::vector<int> &a, const std::vector<int> &e, const Env &v) {
  cq d; for (size_t i = 0; i < a.size(); i++) if (a[i]) d = d + q(a[i]) * v.nu[i];
  for (size_t i = 0; i < e.size(); i++) if (e[i]) d = d + q(e[i]) * v.e[i]; return d;
}
static cq gval(const A::g_prod_t &g, const Env &v) { cq p(1); for (auto &x : g) p = p / lin(x.alpha_, x.eps_, v); return p; }
static Jet mul(const Jet &a, const Jet &b) { Jet c(a.size()); for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; i + j < a.size(); j++) c[i + j] = c[i + j] + a[i] * b[j]; return c; }
// Taylor series of prod 1/(a (z+t) + c) in t
static Jet jet(const A::g_prod_t &g, int idx, const Env &v, int K) {
  Jet o(K); o[0] = cq(1);
  for (auto &x : g) { cq d = lin(x.alpha_, x.eps_, v); Jet s(K); cq f = cq(1) / d; for (int k = 0; k < K; k++) { s[k] = f; f = q(-x.alpha_[idx]) * (f / d); } o = mul(o, s); }
  return o;
}
static double factd(int n) { double f = 1; for (int i = 2; i <= n; i++) f *= i; return f; }
static bool rel(cq a, cq b, double scale) { return double(qabs(a - b)) <= 1e-13 * (scale + double(qabs(b))); }

struct Case { A::g_prod_t g; int V, E, idx; Env v; };
static cq rc(Rng &r) { return cq(r.uni(-3, 3), r.uni(0.2, 3) * (r.chance(0.5) ? 1 : -1)); }
static Env env(Rng &r, int V, int E) { Env v; for (int i = 0; i < V; i++) v.nu.push_back(rc(r)); for (int i = 0; i < E; i++) v.e.push_back(rc(r)); return v; }
// random product: hand-made, or taken from the middle of a real construction
static bool draw_case(Rng &r, Case &c) {
  if (r.chance(0.35)) {
    Problem p; if (!gen_rich(r, p, r.chance(0.6), 0, 3, nullptr, [](GenOpt &o) { o.abs_conv = false; o.max_g = 5; })) return false;
    RefSol s = ref_solve(p, nullptr, true, 400); if (!s.ok) return false;
    A a; A::R_t R; A::P_t P; A::S_t S; A::ami_parms pr(p.n, 0); a.construct(pr, p.R0, R, P, S);
    auto &lv = R[r.below(R.size())]; if (lv.empty()) return false;
    c.g = lv[r.below(lv.size())]; if (c.g.empty()) return false; c.V = p.nalpha(); c.E = p.neps();
  } else {
    c.V = r.range(1, 5); c.E = r.range(1, 5); int N = r.range(1, 8); c.g.clear();
    for (int i = 0; i < N; i++) {
      A::g_struct g; g.alpha_.assign(c.V, 0); g.eps_.assign(c.E, 0); g.species_ = r.below(4);
      double pz = r.uni(0.2, 0.8); bool any = false;
      for (int &x : g.alpha_) if (!r.chance(pz)) x = r.chance(0.5) ? 1 : -1, any = true;
      for (int &x : g.eps_) if (!r.chance(0.5)) x = r.range(-2, 2), any |= x != 0;
      if (!any) g.alpha_[r.below(c.V)] = 1;
      c.g.push_back(g);
    }
    int dup = r.chance(0.7) ? r.range(1, 5) : 0;
    for (int i = 0; i < dup; i++) { auto x = c.g[r.below(c.g.size())]; if (r.chance(0.5)) { for (int &y : x.alpha_) y = -y; for (int &y : x.eps_) y = -y; } x.species_ = r.below(4); c.g.insert(c.g.begin() + r.below(c.g.size() + 1), x); }
  }
  c.idx = r.below(c.V); c.v = env(r, c.V, c.E);
  return true;
}
static std::string cdump(const Case &c) { return dump(c.g) + " index " + std::to_string(c.idx); }
typedef std::pair<std::vector<int>, std::vector<int>> Key;
static std::map<Key, std::vector<int>> poles_of(const A::g_prod_t &g, int idx) {
  std::map<Key, std::vector<int>> m;
  for (size_t i = 0; i < g.size(); i++) { int a = g[i].alpha_[idx]; if (!a) continue; Key k(g[i].alpha_, g[i].eps_); for (int &x : k.first) x *= -a; for (int &x : k.second) x *= -a; k.first[idx] = 0; m[k].push_back(i); }
  return m;
}
static bool dropped(const Key &k, bool drop) { if (!drop) return false; for (int x : k.second) if (x) return false; int n = 0; for (int x : k.first) n += x != 0; return n % 2 == 1; }
static std::vector<std::string> bag(const A::g_prod_t &g) { std::vector<std::string> v; for (auto &x : g) v.push_back(iv(x.alpha_) + "/" + iv(x.eps_) + "/" + std::to_string(x.species_)); std::sort(v.begin(), v.end()); return v; }
static A::g_struct subst(const A::g_struct &g, const Key &k, int idx) { A::g_struct o = g; int a = g.alpha_[idx]; for (size_t i = 0; i < g.alpha_.size(); i++) o.alpha_[i] += a * k.first[i]; o.alpha_[idx] = 0; for (size_t i = 0; i < g.eps_.size(); i++) o.eps_[i] += a * k.second[i]; return o; }
static Env at_pole(const Env &v, const Key &k, int idx) { Env o = v; o.nu[idx] = cq(0); o.nu[idx] = lin(k.first, k.second, o); return o; }

// number of products the residue of a multipole expands into
static double expansion(const A::g_prod_t &g, int idx, const std::vector<int> &which) { double n = 0, t = 1; for (size_t i = 0; i < g.size(); i++) if (g[i].alpha_[idx]) n++; n -= which.size(); for (size_t m = 1; m < which.size(); m++) t *= n + m; return t; }
static bool too_large(const A::g_prod_t &g, int idx) { double t = 0; for (auto &p : poles_of(g, idx)) t += expansion(g, idx, p.second); return t > 3000; }
// expected residue weights per derivative order d: F^{(d)} * out[d]
static std::vector<cq> residue(const A::g_prod_t &g, int idx, const Key &k, const std::vector<int> &which, const Env &v) {
  A::g_prod_t o; double sg = 1; for (size_t i = 0; i < g.size(); i++) { if (std::find(which.begin(), which.end(), int(i)) == which.end()) o.push_back(g[i]); else sg *= g[i].alpha_[idx]; }
  int M = which.size(); Jet h = jet(o, idx, at_pole(v, k, idx), M); std::vector<cq> out(M);
  for (int d = 0; d < M; d++) out[d] = q(sg / factd(d)) * h[M - 1 - d];
  return out;
}
// bound on the sum of the absolute values of the entries of one residue
static double entry_scale(const A::g_prod_t &g, int idx, const std::vector<int> &which, const Env &vp) {
  double m = 1, mx = 1; int n = 0, M = which.size();
  for (size_t i = 0; i < g.size(); i++) if (std::find(which.begin(), which.end(), int(i)) == which.end()) { double z = 1 / double(qabs(lin(g[i].alpha_, g[i].eps_, vp))); m *= z; if (g[i].alpha_[idx]) mx = std::max(mx, z), n++; }
  double t = m; for (int k = 1; k < M; k++) t *= mx * (n + k) + 1; return t;
}
static bool same_pole(const A::pole_struct &a, const A::pole_struct &b, bool der = true) { return a.alpha_ == b.alpha_ && a.eps_ == b.eps_ && a.index_ == b.index_ && a.multiplicity_ == b.multiplicity_ && a.which_g_ == b.which_g_ && (!der || a.der_ == b.der_); }

// one pole of one product: all residue routines
static bool check_pole(Ctx &c, Rng &r, A &a, Case &cs, const A::pole_struct &p, const Key &k, const std::vector<int> &which) {
  Env vp = at_pole(cs.v, k, cs.idx); int M = which.size();
  for (size_t i = 0; i < cs.g.size(); i++) if (std::find(which.begin(), which.end(), int(i)) == which.end() && double(qabs(lin(cs.g[i].alpha_, cs.g[i].eps_, vp))) < 1e-8) { c.viol("another propagator vanishes at the pole although it is not among its origins"); return false; }
  for (int w : which) if (double(qabs(lin(cs.g[w].alpha_, cs.g[w].eps_, vp))) > 1e-25) { c.viol("the pole is not where its propagator vanishes"); return false; }
  auto ex = residue(cs.g, cs.idx, k, which, cs.v);
  // how large single entries can be
  double sc = entry_scale(cs.g, cs.idx, which, vp);
  A::Ri_t Ri; A::pole_array_t ps; A::sign_t ss; // outputs may hold earlier content
  if (r.chance(0.3)) for (int z = r.range(1, 1 << r.below(6)); z > 0; z--) { Ri.push_back(cs.g); ps.push_back(p); ss.push_back(7); }
  a.evaluate_general_residue(cs.g, p, Ri, ps, ss);
  if (Ri.size() != ps.size() || Ri.size() != ss.size()) { c.viol("residue: products, poles and signs have different numbers"); return false; }
  std::vector<cq> got(M);
  for (size_t i = 0; i < Ri.size(); i++) {
    if (!same_pole(ps[i], p, false) || ps[i].der_ < 0 || ps[i].der_ >= M) { c.viol("residue returned an entry belonging to another pole or with an impossible derivative"); return false; }
    for (auto &g : Ri[i]) if (g.alpha_[cs.idx]) { c.viol("residue still depends on the summed frequency"); return false; }
    got[ps[i].der_] = got[ps[i].der_] + q(ss[i]) * gval(Ri[i], cs.v);
  }
  for (int d = 0; d < M; d++) if (!rel(got[d], ex[d], sc)) { c.viol("residue (derivative " + std::to_string(d) + " of the weight) is " + cstr(tod(got[d])) + " instead of " + cstr(tod(ex[d]))); return false; }
  c.cnt["residues checked"]++; if (M > 1) c.cnt["residues of higher-order poles"]++;
  // the same through terms, with an arbitrary weight and older poles
  A::term t; t.sign = r.chance(0.5) ? r.uni(-2, 2) : -1; t.g_list = cs.g; int np = r.below(3);
  for (int i = 0; i < np; i++) { A::pole_struct o = p; for (int &x : o.eps_) x = r.range(-2, 2); o.der_ = r.below(3); o.index_ = r.below(cs.V); o.multiplicity_ = 1 + o.der_; t.p_list.push_back(o); }
  A::terms out; if (r.chance(0.3)) out.assign(r.range(1, 1 << r.below(6)), t);
  a.terms_general_residue(t, p, out); std::vector<cq> gt(M);
  for (auto &o : out) {
    if (int(o.p_list.size()) != np + 1) { c.viol("term residue does not add exactly one pole"); return false; }
    int me = -1; std::vector<std::string> A1, B1;
    for (auto &x : t.p_list) B1.push_back(ser(x));
    for (size_t j = 0; j < o.p_list.size(); j++) { // the new pole is the one whose removal leaves the old list
      std::vector<std::string> rest; for (size_t m = 0; m < o.p_list.size(); m++) if (m != j) rest.push_back(ser(o.p_list[m]));
      auto s1 = rest, s2 = B1; std::sort(s1.begin(), s1.end()); std::sort(s2.begin(), s2.end());
      if (s1 == s2 && same_pole(o.p_list[j], p, false)) { me = j; break; }
    }
    if (me < 0 || o.p_list[me].der_ < 0 || o.p_list[me].der_ >= M) { c.viol("term residue changed the poles found earlier, or lost the new one"); return false; }
    gt[o.p_list[me].der_] = gt[o.p_list[me].der_] + q(o.sign) * gval(o.g_list, cs.v);
  }
  for (int d = 0; d < M; d++) if (!rel(gt[d], q(t.sign) * ex[d], sc * std::fabs(t.sign))) { c.viol("term residue (derivative " + std::to_string(d) + ") is " + cstr(tod(gt[d])) + " instead of " + cstr(tod(q(t.sign) * ex[d]))); return false; }
  if (M == 1) {
    A::g_prod_t e; for (size_t i = 0; i < cs.g.size(); i++) if (int(i) != which[0]) e.push_back(subst(cs.g[i], k, cs.idx));
    if (bag(a.simple_residue(cs.g, p)) != bag(e)) { c.viol("simple residue is not the remaining product with the pole substituted"); return false; }
    if (a.get_simple_sign(cs.idx, cs.g, p) != double(cs.g[which[0]].alpha_[cs.idx])) { c.viol("sign of a simple pole is not the orientation of its propagator"); return false; }
  }
  double st = 1 / factd(M - 1); A::g_prod_t red; for (size_t i = 0; i < cs.g.size(); i++) { bool w = std::find(which.begin(), which.end(), int(i)) != which.end(); if (w) st *= cs.g[i].alpha_[cs.idx]; else red.push_back(cs.g[i]); }
  if (std::fabs(a.get_starting_sign(cs.g, p) - st) > 1e-14 * std::fabs(st)) { c.viol("starting sign is not the product of orientations over (M-1)!"); return false; }
  if (bag(a.reduce_gprod(cs.g, p)) != bag(red)) { c.viol("removing the origins of the pole removed something else"); return false; }
  return true;
}

static void c22(Ctx &c) {
  c.run("poles", c.thorough ? 60000 : 8000, [&](Rng &r) {
    Case cs; if (!draw_case(r, cs)) return; c.note(cdump(cs));
    A a; a.drop_matsubara_poles = r.chance(0.7);
    auto ref = poles_of(cs.g, cs.idx); auto in = ser(cs.g); auto ps = a.find_poles(cs.idx, cs.g);
    c.seen(c.cur_dump, !ref.empty(), std::to_string(ps.size()) + " poles");
    if (ser(cs.g) != in) { c.viol("find_poles changed its input"); return; }
    std::set<Key> seen; c.cnt["products searched for poles"]++;
    for (auto &p : ps) {
      Key k(p.alpha_, p.eps_); auto it = ref.find(k);
      if (it == ref.end()) { c.viol("find_poles reports a pole that is not there: " + ser(p)); return; }
      if (!seen.insert(k).second) { c.viol("find_poles reports the same pole twice: " + ser(p)); return; }
      auto w = p.which_g_; std::sort(w.begin(), w.end());
      if (w != it->second || p.multiplicity_ != int(w.size()) || p.der_ != 0 || p.index_ != cs.idx) { c.viol("multiplicity, origin or frequency of a pole is wrong: " + ser(p)); return; }
      c.cnt["poles of multiplicity " + std::to_string(std::min(p.multiplicity_, 6)) + (p.multiplicity_ >= 6 ? " or more" : "")]++;
    }
    for (auto &k : ref) { bool d = dropped(k.first, a.drop_matsubara_poles); if (d) c.cnt["poles on the Matsubara axis dropped"]++; if (seen.count(k.first) == (d ? 1u : 0u)) { c.viol(d ? "a zero-energy pole of odd frequency count was not dropped" : "find_poles misses a pole"); return; } }
    { auto s = a.find_signs(cs.idx, cs.g); std::vector<double> e; for (auto &g : cs.g) if (g.alpha_[cs.idx]) e.push_back(g.alpha_[cs.idx]); if (s != e) { c.viol("find_signs is not the list of orientations"); return; } }
    for (auto &p : ps) { Key k(p.alpha_, p.eps_); if (expansion(cs.g, cs.idx, ref[k]) > 3000) { c.cnt["residue skipped: too large"]++; continue; } if (!check_pole(c, r, a, cs, p, k, ref[k])) return; }
  });
  c.run("substitute", c.thorough ? 60000 : 8000, [&](Rng &r) {
    Case cs; if (!draw_case(r, cs)) return; A a;
    A::pole_struct p; p.index_ = cs.idx; p.alpha_.assign(cs.V, 0); p.eps_.assign(cs.E, 0); for (int &x : p.alpha_) x = r.range(-1, 1); p.alpha_[cs.idx] = 0; for (int &x : p.eps_) x = r.range(-2, 2);
    c.note(cdump(cs) + " pole " + ser(p)); Key k(p.alpha_, p.eps_);
    for (auto &g : cs.g) {
      auto s = a.update_G_pole(g, p), e = subst(g, k, cs.idx); c.seen(ser(g) + ser(p), g.alpha_[cs.idx] != 0);
      if (s.alpha_ != e.alpha_ || s.eps_ != e.eps_ || s.species_ != e.species_ || s.stat_ != g.stat_) { c.viol("substituting a pole gives " + ser(s) + " instead of " + ser(e)); return; }
      A::pole_struct z; z.alpha_ = g.alpha_; z.eps_ = g.eps_; z.index_ = r.below(cs.V); auto u = a.update_Z_pole(z, p);
      if (u.alpha_ != e.alpha_ || u.eps_ != e.eps_) { c.viol("substituting a pole into a pole gives " + ser(u)); return; }
      c.cnt["substitutions"]++;
    }
  });
  c.run("derive", c.thorough ? 30000 : 5000, [&](Rng &r) {
    Case cs; if (!draw_case(r, cs)) return; A a; c.note(cdump(cs));
    A::pole_struct p; p.index_ = cs.idx; p.alpha_.assign(cs.V, 0); p.eps_.assign(cs.E, 0); p.der_ = r.below(3); p.multiplicity_ = 3; for (int &x : p.eps_) x = r.range(-1, 1);
    Jet h = jet(cs.g, cs.idx, cs.v, 2); double s0 = r.uni(-2, 2), sc = double(qabs(h[0])) * 1e2;
    A::Ri_t Ri; A::pole_array_t ps; A::sign_t ss; if (r.chance(0.3)) for (int z = r.range(1, 1 << r.below(6)); z > 0; z--) { Ri.push_back(cs.g); ps.push_back(p); ss.push_back(1); }
    auto gin = cs.g; a.take_derivative_gprod(gin, p, s0, Ri, ps, ss);
    c.seen(c.cur_dump, true, std::to_string(Ri.size()) + " products");
    if (Ri.size() != ps.size() || Ri.size() != ss.size()) { c.viol("derivative: products, poles and signs have different numbers"); return; }
    cq d0, d1; for (size_t i = 0; i < Ri.size(); i++) { cq x = q(ss[i]) * gval(Ri[i], cs.v); if (!same_pole(ps[i], p, false)) { c.viol("derivative changed the pole"); return; } if (ps[i].der_ == p.der_) d1 = d1 + x; else if (ps[i].der_ == p.der_ + 1) d0 = d0 + x; else { c.viol("derivative changed the derivative count by more than one"); return; } }
    if (!rel(d0, q(s0) * h[0], 0) || !rel(d1, q(s0) * h[1], sc)) { c.viol("derivative of a product is " + cstr(tod(d1)) + " instead of " + cstr(tod(q(s0) * h[1]))); return; }
    c.cnt["products differentiated"]++;
    A::term t; t.sign = s0; t.g_list = cs.g; int np = r.range(1, 3); for (int i = 0; i < np; i++) { auto o = p; o.der_ = r.below(3); for (int &x : o.eps_) x = r.range(-3, 3); t.p_list.push_back(o); }
    A::terms out; auto tin = t; a.take_term_derivative(tin, p, out);
    cq e1; std::vector<cq> f(np); double bs = std::fabs(s0);
    for (auto &o : out) {
      if (int(o.p_list.size()) != np) { c.viol("derivative of a term changed its number of poles"); return; }
      int up = -1, bad = 0; for (int i = 0; i < np; i++) { if (!same_pole(o.p_list[i], t.p_list[i], false)) bad = 1; int dd = o.p_list[i].der_ - t.p_list[i].der_; if (dd == 1 && up < 0) up = i; else if (dd) bad = 1; }
      if (bad) { c.viol("derivative of a term changed its poles"); return; }
      cq x = q(o.sign) * gval(o.g_list, cs.v); if (up < 0) e1 = e1 + x; else f[up] = f[up] + x;
    }
    for (auto &x : f) if (!rel(x, q(s0) * h[0], 0)) { c.viol("derivative of a term misses the derivative of one distribution function"); return; }
    if (!rel(e1, q(s0) * h[1], sc * bs)) { c.viol("derivative of the propagators of a term is " + cstr(tod(e1)) + " instead of " + cstr(tod(q(s0) * h[1]))); return; }
    // splitting keeps everything, and only separates what depends on the frequency
    if (r.chance(0.1)) t.g_list.clear(); if (r.chance(0.1)) t.p_list.clear(); // terms that are all weight
    for (auto &o : t.p_list) if (r.chance(0.3)) o.alpha_[cs.idx] = r.chance(0.5) ? 1 : -1; // a distribution that still depends on the frequency
    A::term in, ac; if (r.chance(0.5)) { in = t; ac = t; } a.split_term(t, p, in, ac);
    { std::vector<std::string> wi, wa, hi, ha; for (auto &o : t.p_list) (o.alpha_[cs.idx] ? wa : wi).push_back(ser(o)); for (auto &o : in.p_list) hi.push_back(ser(o)); for (auto &o : ac.p_list) ha.push_back(ser(o));
      if (wi != hi || wa != ha) { c.viol("split: a distribution is in the wrong part"); return; } }
    for (auto &g : in.g_list) if (g.alpha_[cs.idx]) { c.viol("split: an active propagator in the inert part"); return; }
    for (auto &g : ac.g_list) if (!g.alpha_[cs.idx]) { c.viol("split: an inert propagator in the active part"); return; }
    auto un = in.g_list; un.insert(un.end(), ac.g_list.begin(), ac.g_list.end()); if (bag(un) != bag(t.g_list) || in.p_list.size() + ac.p_list.size() != t.p_list.size() || in.sign * ac.sign != t.sign) { c.viol("split: the two parts do not make up the term"); return; }
    c.cnt["terms differentiated and split"]++;
  });
  // one whole summation step on a list of products / terms
  c.run("step", c.thorough ? 20000 : 3000, [&](Rng &r) {
    Case cs; int nl = r.range(1, 4); std::vector<A::g_prod_t> list; if (!draw_case(r, cs)) return; list.push_back(cs.g);
    for (int i = 1; i < nl; i++) { auto g = cs.g; for (auto &x : g) if (r.chance(0.5)) for (int &y : x.eps_) y = r.range(-2, 2); if (r.chance(0.4) && g.size() > 1) g.erase(g.begin() + r.below(g.size())); bool ok = true; for (auto &x : g) { bool z = true; for (int y : x.alpha_) z &= !y; for (int y : x.eps_) z &= !y; if (z) ok = false; } if (ok) list.push_back(g); }
    for (auto &g : list) if (too_large(g, cs.idx)) { c.cnt["step skipped: too large"]++; return; }
    std::string d; for (auto &g : list) d += dump(g); c.note(d + " index " + std::to_string(cs.idx)); c.seen(c.cur_dump, true);
    A a; A::terms T, out; for (auto &g : list) { A::term t; t.sign = r.uni(-2, 2); t.g_list = g; if (r.chance(0.5)) { A::pole_struct o; o.alpha_.assign(cs.V, 0); o.eps_.assign(cs.E, 1); o.index_ = 0; o.der_ = int(T.size()); t.p_list.push_back(o); } T.push_back(t); }
    if (r.chance(0.4)) out.assign(r.range(1, 1 << r.below(7)), T[0]); auto Tin = ser(T);
    a.integrate_step(cs.idx, T, out);
    if (ser(T) != Tin) { c.viol("a summation step modified its input"); return; }
    // value by (pole, derivative, older pole)
    std::map<std::string, cq> want, have; std::map<std::string, double> sc;
    auto key = [&](const Key &k, int der, const std::string &old) { return iv(k.first) + "/" + iv(k.second) + ":" + std::to_string(der) + "|" + old; };
    for (auto &t : T) { std::string old; for (auto &o : t.p_list) old += ser(o); for (auto &pk : poles_of(t.g_list, cs.idx)) { if (dropped(pk.first, a.drop_matsubara_poles)) continue; auto e = residue(t.g_list, cs.idx, pk.first, pk.second, cs.v); for (size_t m = 0; m < e.size(); m++) { auto kk = key(pk.first, m, old); want[kk] = want[kk] + q(t.sign) * e[m]; sc[kk] += std::fabs(t.sign) * entry_scale(t.g_list, cs.idx, pk.second, at_pole(cs.v, pk.first, cs.idx)); } } }
    for (auto &o : out) { int me = -1; std::string old; for (size_t i = 0; i < o.p_list.size(); i++) if (o.p_list[i].multiplicity_ > 0 && !o.p_list[i].which_g_.empty()) me = i; else old += ser(o.p_list[i]); if (me < 0) { c.viol("a summation step returned a term without its pole"); return; } auto kk = key(Key(o.p_list[me].alpha_, o.p_list[me].eps_), o.p_list[me].der_, old); have[kk] = have[kk] + q(o.sign) * gval(o.g_list, cs.v); }
    for (auto &w : want) if (!rel(have[w.first], w.second, sc[w.first])) { c.viol("summation step: contribution " + w.first + " is " + cstr(tod(have[w.first])) + " instead of " + cstr(tod(w.second))); return; }
    for (auto &h : have) if (!want.count(h.first)) { c.viol("summation step: contribution " + h.first + " should not be there"); return; }
    c.cnt["summation steps checked"]++;
    // SPR form of the same step; several levels in the array, stored out of order
    A::R_t R; A::P_t P; A::S_t S; int lev = r.below(3); for (int i = 0; i <= lev; i++) R.push_back(list); 
    for (int i = 0; i < lev; i++) { P.push_back(A::Pi_t()); S.push_back(A::Si_t()); }
    a.update_gprod_general(cs.idx, lev, R, P, S);
    if (R.size() != size_t(lev) + 2 || P.size() != size_t(lev) + 1 || S.size() != P.size() || P.back().size() != list.size() || S.back().size() != list.size()) { c.viol("SPR step does not append one level"); return; }
    size_t ch = 0;
    for (size_t j = 0; j < list.size(); j++) {
      std::map<std::string, cq> w2, h2; std::map<std::string, double> s2;
      for (auto &pk : poles_of(list[j], cs.idx)) { if (dropped(pk.first, a.drop_matsubara_poles)) continue; auto e = residue(list[j], cs.idx, pk.first, pk.second, cs.v); for (size_t m = 0; m < e.size(); m++) { auto kk = key(pk.first, m, ""); w2[kk] = e[m]; s2[kk] = entry_scale(list[j], cs.idx, pk.second, at_pole(cs.v, pk.first, cs.idx)); } }
      if (P.back()[j].size() != S.back()[j].size()) { c.viol("SPR step: poles and signs differ in number"); return; }
      for (size_t i = 0; i < P.back()[j].size(); i++, ch++) { if (ch >= R.back().size()) { c.viol("SPR step: product missing"); return; } auto &p = P.back()[j][i]; auto kk = key(Key(p.alpha_, p.eps_), p.der_, ""); h2[kk] = h2[kk] + q(S.back()[j][i]) * gval(R.back()[ch], cs.v); }
      for (auto &w : w2) if (!rel(h2[w.first], w.second, s2[w.first])) { c.viol("SPR step: contribution " + w.first + " of product " + std::to_string(j) + " is " + cstr(tod(h2[w.first])) + " instead of " + cstr(tod(w.second))); return; }
      for (auto &h : h2) if (!w2.count(h.first)) { c.viol("SPR step: contribution " + h.first + " should not be there"); return; }
    }
    if (ch != R.back().size()) { c.viol("SPR step: more products than poles"); return; }
    // the deprecated step for products that have only simple poles
    bool simple = true; for (auto &g : list) for (auto &pk : poles_of(g, cs.idx)) if (pk.second.size() != 1 || dropped(pk.first, a.drop_matsubara_poles)) simple = false;
    if (simple) {
      A::R_t R2(cs.idx + 1, list), R3 = R2; A::P_t P2, P3; A::S_t S2, S3; a.update_gprod_general(cs.idx, cs.idx, R2, P2, S2); a.update_gprod_simple(cs.idx, R3, P3, S3);
      bool ok = R3.size() == R2.size() && P3.size() == P2.size() && S3 == S2 && R3.back().size() == R2.back().size();
      for (size_t i = 0; ok && i < R2.back().size(); i++) ok = bag(R2.back()[i]) == bag(R3.back()[i]);
      for (size_t i = 0; ok && i < P2.back().size(); i++) { ok = P2.back()[i].size() == P3.back()[i].size(); for (size_t j = 0; ok && j < P2.back()[i].size(); j++) ok = ser(P2.back()[i][j]) == ser(P3.back()[i][j]); }
      if (!ok) { c.viol("the step for simple poles differs from the general step"); return; }
      c.cnt["steps with simple poles only"]++;
    }
    A::Ri_t Ri; if (r.chance(0.5)) Ri = list; a.convert_terms_to_ri(out, Ri); bool ok = Ri.size() == out.size(); for (size_t i = 0; ok && i < Ri.size(); i++) ok = ser(Ri[i]) == ser(out[i].g_list); if (!ok) { c.viol("convert_terms_to_ri is not the list of products"); return; }
  });
  // the pieces the evaluation is made of
  c.run("pieces", c.thorough ? 40000 : 6000, [&](Rng &r) {
    Case cs; if (!draw_case(r, cs)) return; A a; A::ami_parms pr(1, r.chance(0.3) ? 0.01 : 0);
    A::energy_t e; A::frequency_t f; for (auto &x : cs.v.e) e.push_back(tod(x)); for (auto &x : cs.v.nu) f.push_back(tod(x)); double pf = r.chance(0.5) ? 1 : r.uni(-5, 5), beta = r.uni(0.5, 5);
    A::ami_vars x(e, f, beta, pf); Env v; for (auto &z : e) v.e.push_back(cq(z)); for (auto &z : f) v.nu.push_back(cq(z)); c.note(cdump(cs)); c.seen(c.cur_dump, true);
    cq w = q(pf) * gval(cs.g, v); double amp = 20; for (auto &g : cs.g) { double s = 0; for (size_t i = 0; i < f.size(); i++) s += std::abs(g.alpha_[i]) * std::abs(f[i]); for (size_t i = 0; i < e.size(); i++) s += std::abs(g.eps_[i]) * std::abs(e[i]); amp += 4 + 4 * s / double(qabs(lin(g.alpha_, g.eps_, v))); }
    cd got = a.eval_gprod(pr, cs.g, x); if (!(std::abs(got - tod(w)) <= 3e-16 * amp * std::abs(tod(w)))) { c.viol("product of propagators evaluates to " + cstr(got) + " instead of " + cstr(tod(w))); return; }
    for (auto &g : cs.g) { A::pole_struct p; p.eps_ = g.eps_; p.alpha_ = g.alpha_; cd en = 0; double s = 0; for (size_t i = 0; i < e.size(); i++) { en += double(g.eps_[i]) * e[i]; s += std::abs(g.eps_[i]) * std::abs(e[i]); } if (std::abs(a.get_energy_from_g(g, x) - en) > 1e-15 * s || std::abs(a.get_energy_from_pole(p, x) - en) > 1e-15 * s) { c.viol("energy of a propagator or pole is not the sum of its symbols"); return; } }
    // dot, cross and star on random trees
    int n = r.range(1, 4); A::SorF_t L(1), R1; A::Si_t S; A::Ri_t Ri; for (int i = 0; i < n; i++) { L[0].push_back(cd(r.uni(-1, 1), r.uni(-1, 1))); std::vector<cd> row; std::vector<double> sr; int m = r.below(4) + (i + 1 == n); for (int j = 0; j < m; j++) { row.push_back(cd(r.uni(-1, 1), r.uni(-1, 1))); sr.push_back(r.uni(-2, 2)); Ri.push_back(cs.g); if (r.chance(0.5)) Ri.back().erase(Ri.back().begin() + r.below(Ri.back().size())); } R1.push_back(row); S.push_back(sr); }
    auto D = a.dot(S, R1); std::vector<cd> flat; bool ok = D.size() == R1.size(); for (size_t i = 0; ok && i < D.size(); i++) { ok = D[i].size() == R1[i].size(); for (size_t j = 0; ok && j < D[i].size(); j++) { ok = std::abs(D[i][j] - S[i][j] * R1[i][j]) <= 1e-15 * std::abs(D[i][j]); flat.push_back(L[0][i] * D[i][j]); } }
    if (!ok) { c.viol("dot is not the elementwise product"); return; }
    auto X = a.cross(L, D); ok = X.size() == 1 && X[0].size() == flat.size(); for (size_t i = 0; ok && i < flat.size(); i++) ok = std::abs(X[0][i] - flat[i]) <= 1e-15 * std::abs(flat[i]); if (!ok) { c.viol("cross does not weight every child by its parent"); return; }
    cd st = a.star(pr, X, Ri, x); cq sw; double sa = 0; for (size_t i = 0; i < flat.size(); i++) { cq t = cq(X[0][i]) * (q(pf) * gval(Ri[i], v)); sw = sw + t; sa += double(qabs(t)); }
    if (!(std::abs(st - tod(sw)) <= 3e-16 * (amp + flat.size()) * sa)) { c.viol("star is not the weighted sum of the products: " + cstr(st) + " instead of " + cstr(tod(sw))); return; }
    c.cnt["weighted sums of products checked"]++;
  });
}
int main(int argc, char **argv) { return ctx_main(argc, argv, {{"C22", c22}}); }
