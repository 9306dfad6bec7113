// C14: workload for the AddressSanitizer / UndefinedBehaviorSanitizer / checked-STL build.
// The sanitizers decide; the only assertions made here are "returns" and "ends".
#include "lib.hpp"

static void everything(Ctx &c, Rng &r, AmiBase &a, Problem &p, std::vector<Point> pts, int nint) {
  Sol s; double reg = r.chance(0.3) ? 0.05 : 0; // every constructor of the parameters
  AmiBase::ami_parms pr = p.type == AmiBase::Sigma && r.chance(0.5) ? AmiBase::ami_parms(nint, reg) : r.chance(0.3) ? AmiBase::ami_parms(nint, reg, p.type, AmiBase::hubbard, AmiBase::tb) : AmiBase::ami_parms(nint, reg, p.type);
  Mute mute;
  build(a, p, s, nint, pr.E_REG_); c.cnt["constructions"] += 2; c.cnt["factorisations"] += 2;
  if (r.chance(0.5)) { build(a, p, s, nint, pr.E_REG_); c.cnt["constructions into used containers"]++; }
  { std::string o = ser_spr(s) + ser(s.T) + ser(s.f) + ser(s.ft); c.cnt["bytes of symbolic results read back"] += o.size(); } // an uninitialised field reaches a branch here
  for (auto &x : pts) {
    c.note(dump(p) + " sums=" + std::to_string(nint) + " | " + dump(x));
    for (int rt = 0; rt < 4; rt++) { auto e = x.vars(); if (r.chance(0.2)) e = AmiBase::ami_vars(x.energy, x.freq, x.beta); else if (r.chance(0.2)) { e = AmiBase::ami_vars(x.energy, x.freq); e.BETA_ = x.beta; } cd v = eval_route(a, pr, s, e, rt); c.cnt["evaluations"]++; if (a.overflow_detected) c.cnt["overflow flags seen"]++; if (!std::isfinite(v.real()) || !std::isfinite(v.imag())) c.cnt["non-finite values at singular points"]++; }
    for (auto &t : s.T) { auto e = x.vars(); a.evaluate_term(pr, t, e); }
    Fac none; auto e = x.vars(); a.evaluate(pr, s.R, s.P, s.S, e, none.u, none.r, none.e); a.evaluate(pr, s.T, e, none.u, none.r, none.e);
    AmiBase::terms nt; a.evaluate(pr, nt, e);
    if (s.R.back().size() < 400 && p.R0.size() <= 7 && !bosonic_type(p.type)) { auto e2 = x.vars(); a.evaluate_otf(pr, s.R, s.P, s.S, e2); c.cnt["on-the-fly evaluations"]++; }
    c.seen(c.cur_dump, true);
  }
  if (r.chance(0.3)) {
    a.print_final(nint, s.R, s.P, s.S); a.print_terms(s.T); a.print_R(nint, s.R); if (nint) { a.print_P(nint, s.P); a.print_S(nint, s.S); }
    for (auto &g : p.R0) a.print_g_struct_info(g); a.print_g_prod_info(p.R0); a.print_g_prod_array(s.R.back()); if (nint && !s.P.back().empty()) { a.print_Pi(int(s.P.back().size()), s.P.back()); a.print_pole_array(s.P.back().back()); }
    a.verbose = true; auto e = pts[0].vars(); a.evaluate(pr, s.R, s.P, s.S, e); a.evaluate(pr, s.T, e); a.verbose = false; c.cnt["solutions printed"]++;
  }
  AmiBase::Ri_t Ri; a.convert_terms_to_ri(s.T, Ri);
  for (int k = 0; k < 2; k++) {
    if (!s.f.u.empty()) { a.derivative_opt(s.f.u, s.f.r, s.f.e); a.derivative_opt(s.ft.u, s.ft.r, s.ft.e); auto e = pts[0].vars(); a.evaluate(pr, s.R, s.P, s.S, e, s.f.u, s.f.r, s.f.e); a.evaluate(pr, s.T, e, s.ft.u, s.ft.r, s.ft.e); c.cnt["derivatives"]++; }
  }
  bool more = nint < p.nalpha() && p.R0.size() && s.T.size() < 300;
  if (more) { Problem q = p; q.n = nint; RefSol all = ref_solve(q, nullptr, false, 1500); if (all.ok) all = ref_step(all, nint, p.fermi); more = !all.capped; }
  if (more) { AmiBase::terms o; a.integrate_step(nint, s.T, o); a.update_gprod_general(nint, nint, s.R, s.P, s.S); c.cnt["further steps"]++; }
}
static void singular(Rng &r, Point &x) {
  switch (r.below(6)) {
  case 0: for (auto &e : x.energy) e = 0.5; break;
  case 1: for (auto &e : x.energy) e = 0; break;
  case 2: for (auto &f : x.freq) f = 0; for (auto &e : x.energy) e = 0.25 * r.range(-2, 2); break;
  case 3: x.beta = 1e300; break;
  case 4: for (auto &e : x.energy) e = 1e308; break;
  default: for (auto &e : x.energy) e = 0.25 * r.range(-2, 2); x.prefactor = 0;
  }
}
static void c14(Ctx &c) {
  AmiBase shared;
  c.run("regular", c.thorough ? 6000 : 500, [&](Rng &r) {
    Problem p; if (!gen_rich(r, p, r.chance(0.5), 0, 3, nullptr, [](GenOpt &o) { o.abs_conv = false; })) return;
    RefSol s = ref_solve(p, nullptr, true, 150); if (s.capped) { c.cnt["too large"]++; return; }
    if (r.chance(0.3) && p.nalpha() > p.n) set_type(p, bose_types[r.below(5)]);
    if (r.chance(0.3)) for (auto &g : p.R0) g.species_ = r.below(3);
    std::vector<Point> pts; for (int k = 0; k < 3; k++) { pts.push_back(gen_point(r, p)); if (r.chance(0.3)) singular(r, pts.back()); }
    c.note(dump(p)); AmiBase fresh; everything(c, r, r.chance(0.5) ? fresh : shared, p, pts, p.n);
  });
  c.run("degenerate", c.thorough ? 20000 : 2000, [&](Rng &r) {
    // arbitrary coefficient matrices: unused frequencies, all-zero lines, no poles, fewer or no lines left, no energies
    int V = r.range(1, 5), E = r.range(r.chance(0.1) ? 0 : 1, 5), N = r.range(1, 5); Problem p; p.fermi.assign(V, 1);
    double dens = r.uni(0.1, 0.9);
    for (int i = 0; i < N; i++) { AmiBase::g_struct g(AmiBase::epsilon_t(E, 0), AmiBase::alpha_t(V, 0)); for (int &v : g.alpha_) if (r.chance(dens)) v = r.chance(0.5) ? 1 : -1; for (int &v : g.eps_) if (r.chance(dens)) v = r.range(-2, 2); g.species_ = r.chance(0.2) ? r.below(3) : 0; p.R0.push_back(g); if (r.chance(0.2)) p.R0.push_back(g); }
    p.n = r.range(0, V); if (r.chance(0.2)) set_type(p, bose_types[r.below(5)]); if (r.chance(0.1)) p.type = AmiBase::doubleocc;
    for (int k = 0; k < p.n; k++) for (auto &g : p.R0) if (g.alpha_[k] > 1 || g.alpha_[k] < -1) return;
    RefSol s = ref_solve(p, nullptr, false, 120); if (s.capped) { c.cnt["too large"]++; return; }
    if (!s.ok && p.n > 2) return; // coefficients beyond +-1 while summing
    bool unused = false, zl = false; for (int k = 0; k < p.n; k++) { bool u = false; for (auto &g : p.R0) u |= g.alpha_[k] != 0; unused |= !u; }
    for (auto &g : p.R0) { bool z = true; for (int v : g.alpha_) z &= v == 0; for (int v : g.eps_) z &= v == 0; zl |= z; }
    if (unused) c.cnt["integrands with a summed frequency that does not occur"]++; if (zl) c.cnt["integrands with an all-zero line"]++; if (p.n == V) c.cnt["integrands without external frequency"]++; if (!p.n) c.cnt["no sums"]++; if (!E) c.cnt["no energies"]++;
    std::vector<Point> pts; for (int k = 0; k < 2; k++) { pts.push_back(gen_point(r, p)); if (r.chance(0.5)) singular(r, pts.back()); }
    c.note(dump(p)); AmiBase fresh; everything(c, r, r.chance(0.5) ? fresh : shared, p, pts, p.n);
  });
  c.run("lists", c.thorough ? 40000 : 6000, [&](Rng &r) {
    // factorisation and comparisons of arbitrary lists, including empty ones, into used outputs
    int V = r.range(1, 4), E = r.range(0, 4); AmiBase::Ri_t Rn; int len = r.range(0, 12);
    auto rg = [&] { AmiBase::g_struct g(AmiBase::epsilon_t(E, 0), AmiBase::alpha_t(V, 0)); for (int &v : g.alpha_) v = r.range(-1, 1); for (int &v : g.eps_) v = r.range(-1, 1); return g; };
    AmiBase::g_prod_t pool; for (int i = r.range(1, 4); i > 0; i--) pool.push_back(rg());
    for (int i = 0; i < len; i++) { AmiBase::g_prod_t g; for (int k = r.range(0, 4); k > 0; k--) g.push_back(pool[r.below(pool.size())]); Rn.push_back(g); }
    std::string d; for (auto &g : Rn) d += dump(g); c.note(d); c.seen(d, !Rn.empty());
    AmiBase::g_prod_t u; AmiBase::R_ref_t rr; AmiBase::ref_eval_t ev; shared.factorize_Rn(Rn, u, rr, ev); shared.factorize_Rn(Rn, u, rr, ev);
    if (!u.empty()) shared.derivative_opt(u, rr, ev);
    AmiBase::terms T; for (auto &g : Rn) { AmiBase::pole_array_t pl; T.push_back(AmiBase::term(1.0, pl, g)); }
    shared.factorize_terms(T, u, rr, ev); shared.factorize_terms(T, u, rr, ev); AmiBase::ref_eval_t ev2; shared.reduce_rref(rr, ev2);
    AmiBase::g_prod_t none; shared.find_poles(0, none); for (auto &g : Rn) for (int k = 0; k < V; k++) { auto pl = shared.find_poles(k, g); shared.find_signs(k, g); for (auto &q1 : pl) { AmiBase::Ri_t ro; AmiBase::pole_array_t po; AmiBase::sign_t so; shared.evaluate_general_residue(g, q1, ro, po, so); } }
    { Mute m; int idx = V + r.below(3); for (auto &g : Rn) { if (!shared.find_poles(idx, g).empty()) c.viol("a pole of a frequency that does not exist"); AmiBase::pole_array_t pl; AmiBase::terms in(1, AmiBase::term(1.0, pl, g)), o; shared.integrate_step(idx, in, o); } if (!Rn.empty() && !Rn[0].empty()) { AmiBase::R_t R; AmiBase::P_t P; AmiBase::S_t S; AmiBase::ami_parms pr(V + 1, 0); AmiBase::terms o; shared.construct(V + 1, AmiBase::g_prod_t(1, Rn[0][0]), o); shared.construct(pr, AmiBase::g_prod_t(1, Rn[0][0]), R, P, S); } c.cnt["indices beyond the last frequency"]++; }
    auto g1 = rg(), g2 = rg(); int sg; shared.g_equiv(g1, g2); shared.g_struct_equiv(g1, g2, sg);
    { // comparisons of structures of different sizes, lists with few and many entries
      auto cut = [&](AmiBase::g_struct g) { g.alpha_.resize(r.below(V + 3), r.below(2)); g.eps_.resize(r.below(E + 3), r.below(2)); g.alpha_.shrink_to_fit(); g.eps_.shrink_to_fit(); return g; };
      auto a1 = cut(g1), a2 = r.chance(0.5) ? cut(g1) : cut(g2); shared.g_equiv(a1, a2); shared.g_equiv(g1, a2); shared.g_equiv(a2, g1); shared.g_struct_equiv(a1, a2, sg); shared.g_struct_equiv(g1, a1, sg); shared.g_struct_equiv(a1, g1, sg);
      AmiBase::pole_struct p1(a1.eps_, a1.alpha_), p2(a2.eps_, a2.alpha_); shared.pole_equiv(p1, p2); shared.pole_equiv(p2, p1); shared.isEqual(a1.eps_, a2.eps_); shared.isNegative(a1.eps_, a2.eps_); shared.isNegative(a2.eps_, a1.eps_);
      AmiBase::ref_v_t v1, v2; for (int k = r.below(7); k > 0; k--) v1.push_back({r.below(3), r.chance(0.5) ? 1 : -1}); for (int k = r.below(7); k > 0; k--) v2.push_back({r.below(3), 1}); int s1, s2; shared.pair_v_equiv(v1, v2, s1, s2); shared.pair_v_equiv(v1, v1, s1, s2); c.cnt["comparisons of unequal sizes"]++;
    }
    AmiBase::g_struct e0(AmiBase::epsilon_t(), AmiBase::alpha_t(V, 0)), e1 = e0; shared.g_struct_equiv(e0, e1, sg); shared.g_struct_equiv(g1, e1, sg);
    c.cnt["lists factorised twice"]++;
  });
  c.run("points", c.thorough ? 60000 : 8000, [&](Rng &r) {
    double b = std::pow(10.0, r.uni(-300, 300)); cd E(std::pow(10.0, r.uni(-300, 300)) * (r.chance(0.5) ? 1 : -1), r.chance(0.5) ? 0 : std::pow(10.0, r.uni(-300, 10)));
    if (r.chance(0.2)) E = 0; int m = r.range(0, 12); shared.fermi_bose(m, r.chance(0.5) ? 1 : -1, b, E); c.cnt["distribution functions"]++;
    shared.frk(m, r.below(m + 1)); shared.binomialCoeff(m, r.below(m + 1)); c.note("fermi_bose " + cstr(E)); c.seen(c.cur_dump + std::to_string(b), true);
  });
}
int main(int argc, char **argv) { return ctx_main(argc, argv, {{"C14", c14}}); }
