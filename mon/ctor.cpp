// C25: short constructors, defaults and copies. Every value is built in storage filled with a
// known pattern, so that a member nobody initialises keeps the pattern and is noticed.
// Compiled with -fno-lifetime-dse: the pattern must survive until the constructor runs.
#include "lib.hpp"
#include <new>

static unsigned char pattern;
template <class T, class F> T in_dirt(F make) { // build in dirty storage, hand out a copy
  alignas(T) static thread_local unsigned char buf[sizeof(T)];
  volatile unsigned char *v = buf; for (size_t i = 0; i < sizeof(T); i++) v[i] = pattern;
  asm volatile("" ::"r"(buf) : "memory");
  T *t = make(static_cast<void *>(buf)); T out(*t); t->~T(); return out;
}
typedef AmiBase A;
static std::string ser_parms(const A::ami_parms &p) { return std::to_string(p.N_INT_) + " N_EXT=" + std::to_string(p.N_EXT_) + " E_REG=" + hexd(p.E_REG_) + " tol=" + hexd(p.tol_) + " type=" + std::to_string(int(p.TYPE_)); }
static std::string ser_opts(const A &a) {
  return std::string("drop_bosonic_diverge=") + std::to_string(a.drop_bosonic_diverge) + " drop_der=" + std::to_string(a.drop_der) + " drop_matsubara_poles=" + std::to_string(a.drop_matsubara_poles) + " zero_external_w=" + std::to_string(a.zero_external_w) +
         " overflow_detected=" + std::to_string(a.overflow_detected) + " verbose=" + std::to_string(a.verbose) + " precision_cutoff=" + hexd(a.precision_cutoff) + " bosonic_external=" + std::to_string(a.bosonic_external) + " exp_max_arg=" + hexd(a.exp_max_arg) + " ext_freq_type=" + std::to_string(int(a.ext_freq_type));
}
static Rng *rg;
static A fresh(int how) {
  if (how == 0) return in_dirt<A>([](void *b) { return new (b) A(); });
  static const double regs[] = {0, 0, 0.25, -1e-3, 1e8}; A::ami_parms pr(rg->range(0, 8), regs[rg->below(5)], A::graph_type(rg->below(13)), A::int_type(rg->below(2)), A::disp_type(rg->below(3)));
  if (how == 1) return in_dirt<A>([&](void *b) { return new (b) A(pr); });
  A x; if (how == 2) return in_dirt<A>([&](void *b) { return new (b) A(x); });
  A y; y.verbose = true; y.drop_der = true; y = x; return y;
}
static A::g_struct line(int how, const A::g_struct &g) { // a Fermi line of species 0
  if (how == 0) return in_dirt<A::g_struct>([&](void *b) { return new (b) A::g_struct(g.eps_, g.alpha_, A::Fermi); });
  if (how == 1) return in_dirt<A::g_struct>([&](void *b) { return new (b) A::g_struct(g.eps_, g.alpha_); });
  A::g_struct x = in_dirt<A::g_struct>([&](void *b) { return new (b) A::g_struct(); }); x.eps_ = g.eps_; x.alpha_ = g.alpha_; return x;
}
static A::ami_vars vars(int how, const Point &x) {
  A::ami_vars v;
  switch (how) {
  case 0: v = in_dirt<A::ami_vars>([&](void *b) { return new (b) A::ami_vars(x.energy, x.freq, x.beta, x.prefactor); }); break;
  case 1: v = in_dirt<A::ami_vars>([&](void *b) { return new (b) A::ami_vars(x.energy, x.freq, x.beta); }); if (x.prefactor != 1) v.prefactor = x.prefactor; break;
  case 2: v = in_dirt<A::ami_vars>([&](void *b) { return new (b) A::ami_vars(x.energy, x.freq); }); v.BETA_ = x.beta; if (x.prefactor != 1) v.prefactor = x.prefactor; break;
  default: v = in_dirt<A::ami_vars>([&](void *b) { return new (b) A::ami_vars(); }); v.energy_ = x.energy; v.frequency_ = x.freq; v.BETA_ = x.beta; if (x.prefactor != 1) v.prefactor = x.prefactor;
  }
  return v;
}
static A::ami_parms parms(int how, int n, double reg, A::graph_type t) {
  if (how == 0) return in_dirt<A::ami_parms>([&](void *b) { return new (b) A::ami_parms(n, reg, t); });
  if (how == 1 && t == A::Sigma) return in_dirt<A::ami_parms>([&](void *b) { return new (b) A::ami_parms(n, reg); });
  if (how == 2) return in_dirt<A::ami_parms>([&](void *b) { return new (b) A::ami_parms(n, reg, t, A::coulomb, A::hf); });
  A::ami_parms p = in_dirt<A::ami_parms>([&](void *b) { return new (b) A::ami_parms(); }); p.N_INT_ = n; p.TYPE_ = t; if (reg != 0) p.E_REG_ = reg; return p;
}
static void c25(Ctx &c) {
  static const unsigned char pats[] = {0x00, 0xff, 0xa5, 0x01, 0x7f};
  auto bad = [&](const std::string &m) { c.viol(m + " (storage held " + std::to_string(pattern) + " before)"); };
  c.run("fields", c.thorough ? 4000 : 400, [&](Rng &r) {
    rg = &r; pattern = pats[r.below(5)]; int E = r.range(0, 5), V = r.range(0, 5);
    A::epsilon_t e(E); A::alpha_t al(V); for (int &v : e) v = r.range(-3, 3); for (int &v : al) v = r.range(-1, 1);
    auto st = r.chance(0.5) ? A::Bose : A::Fermi;
    c.note("eps " + vstr(e) + " alpha " + vstr(al) + " pattern " + std::to_string(pattern)); c.seen(c.cur_dump, true);
    for (int how = 0; how < 3; how++) {
      A::g_struct g = how == 0 ? in_dirt<A::g_struct>([&](void *b) { return new (b) A::g_struct(e, al, st); }) : how == 1 ? in_dirt<A::g_struct>([&](void *b) { return new (b) A::g_struct(e, al); }) : in_dirt<A::g_struct>([&](void *b) { return new (b) A::g_struct(); });
      auto ws = how ? A::Fermi : st;
      if (how < 2 ? (g.eps_ != e || g.alpha_ != al) : (!g.eps_.empty() || !g.alpha_.empty())) return bad("a new propagator does not hold its coefficients");
      if (g.stat_ != ws || g.eff_stat_ != ws) return bad("a new propagator has the wrong statistics");
      if (g.species_ != 0) return bad("a new propagator has species " + std::to_string(g.species_));
      A::g_struct h(g), k; k = g; if (ser(h) != ser(g) || ser(k) != ser(g)) return bad("a copied propagator differs");
    }
    for (int how = 0; how < 2; how++) {
      A::pole_struct p = how ? in_dirt<A::pole_struct>([&](void *b) { return new (b) A::pole_struct(); }) : in_dirt<A::pole_struct>([&](void *b) { return new (b) A::pole_struct(e, al); });
      if (how ? (!p.eps_.empty() || !p.alpha_.empty()) : (p.eps_ != e || p.alpha_ != al)) return bad("a new pole does not hold its coefficients");
      if (p.multiplicity_ != 1) return bad("a new pole has multiplicity " + std::to_string(p.multiplicity_));
      if (p.der_ != 0) return bad("a new pole starts with derivative " + std::to_string(p.der_));
      if (!p.which_g_.empty()) return bad("a new pole already belongs to a propagator");
      p.index_ = r.range(0, 4); p.multiplicity_ = r.range(1, 5); p.der_ = r.range(0, 4); p.which_g_.assign(r.below(4), r.below(5));
      A::pole_struct q(p), k; k = p; if (ser(q) != ser(p) || ser(k) != ser(p)) return bad("a copied pole differs");
    }
    {
      A::term t = in_dirt<A::term>([&](void *b) { return new (b) A::term(); }); if (t.sign != 1 || !t.p_list.empty() || !t.g_list.empty()) return bad("a new term is not +1 with nothing in it");
      double s = r.uni(-3, 3); A::pole_array_t pl(r.below(3), A::pole_struct(e, al)); for (auto &x : pl) x.index_ = r.below(4); A::g_prod_t gl(r.below(4), A::g_struct(e, al));
      A::term u = in_dirt<A::term>([&](void *b) { return new (b) A::term(s, pl, gl); }); if (u.sign != s || ser(u.p_list) != ser(pl) || ser(u.g_list) != ser(gl)) return bad("a new term does not hold what it was given");
      A::term w(u), k; k = u; if (ser(w) != ser(u) || ser(k) != ser(u)) return bad("a copied term differs");
    }
    {
      Problem p; p.R0.push_back(A::g_struct(e, al)); p.fermi.assign(V, 1); p.n = 0; Point x = gen_point(r, p); x.prefactor = r.chance(0.5) ? 1.0 : x.prefactor;
      std::string want; for (int how = 0; how < 4; how++) { auto v = vars(how, x); std::string g = ser(v); if (!how) want = g; else if (g != want) return bad("a point built with constructor " + std::to_string(how) + " differs from the one built with all values"); }
      A::ami_vars full(x.energy, x.freq, x.beta, x.prefactor); if (full.energy_ != x.energy || full.frequency_ != x.freq || full.BETA_ != x.beta || full.prefactor != x.prefactor || full.gamma_ != 0) return bad("a new point does not hold its values");
      A::ami_vars em = in_dirt<A::ami_vars>([&](void *b) { return new (b) A::ami_vars(); }); if (em.prefactor != 1 || em.BETA_ != 0 || !em.energy_.empty() || !em.frequency_.empty()) return bad("an empty point does not have prefactor 1 and nothing else");
      A::ami_vars cp(full), k; k = full; if (ser(cp) != want || ser(k) != want) return bad("a copied point differs");
      int n = r.range(0, 6); double reg = r.chance(0.5) ? 0 : r.uni(-1, 1); auto t = r.chance(0.5) ? A::Sigma : A::graph_type(r.below(13));
      for (int how = 0; how < 4; how++) { auto q = parms(how, n, reg, t); if (q.N_INT_ != n || q.E_REG_ != reg || q.TYPE_ != t || q.N_EXT_ != 1) return bad("parameters built with constructor " + std::to_string(how) + " are " + ser_parms(q)); A::ami_parms q2(q), q3(1, 1.0); q3 = q; if (ser_parms(q2) != ser_parms(q) || ser_parms(q3) != ser_parms(q)) return bad("copied parameters differ"); if (ser_parms(q) != ser_parms(parms(0, n, reg, t))) return bad("parameters built with constructor " + std::to_string(how) + " are " + ser_parms(q)); }
    }
    for (int how = 0; how < 4; how++) {
      A a = fresh(how); 
      if (a.drop_bosonic_diverge || a.drop_der || !a.drop_matsubara_poles || a.zero_external_w || a.verbose || a.bosonic_external || a.overflow_detected) return bad("a new object does not have the documented options: " + ser_opts(a));
      if (a.precision_cutoff != 1e15) return bad("a new object has another overflow limit: " + ser_opts(a));
      if (ser_opts(a) != ser_opts(fresh(0))) return bad("an object built in another way has other options: " + ser_opts(a));
    }
    c.cnt["values built in dirty storage"] += 20;
  });
  c.run("use", c.thorough ? 4000 : 500, [&](Rng &r) {
    rg = &r; pattern = pats[r.below(5)];
    Problem p; std::string fl; if (!gen_rich(r, p, r.chance(0.5), 0, 2, &fl)) return;
    if (r.chance(0.4) && p.nalpha() > p.n) set_type(p, r.chance(0.5) ? bose_types[r.below(5)] : fermi_types[r.below(7)]);
    else if (r.chance(0.1)) p.type = A::doubleocc;
    RefSol s = ref_solve(p, nullptr, true, 400); if (!s.ok) return;
    double reg = r.chance(0.3) ? r.uni(0.01, 0.2) : 0;
    c.note(dump(p)); c.seen(dump(p), true);
    // reference run: everything spelled out
    std::vector<Point> pts; for (int k = 0; k < 3; k++) { pts.push_back(gen_point(r, p)); if (r.chance(0.5)) pts.back().prefactor = 1; }
    A base; Sol b; Problem q = p; for (auto &g : q.R0) { g = A::g_struct(g.eps_, g.alpha_, A::Fermi); g.species_ = 0; }
    build(base, q, b, -1, reg);
    std::string want = ser_spr(b) + ser(b.T) + ser(b.f) + ser(b.ft);
    std::vector<std::string> vals; A::ami_parms bp(p.n, reg, p.type, A::hubbard, A::tb);
    bool otf = b.R.back().size() < 200 && p.R0.size() <= 6 && !bosonic_type(p.type) && p.type != A::doubleocc;
    for (auto &x : pts) { for (int rt = 0; rt < 4; rt++) { auto e = x.vars(); vals.push_back(hexc(eval_route(base, bp, b, e, rt)) + std::to_string(base.overflow_detected)); } if (otf) { auto e = x.vars(); vals.push_back(hexc(base.evaluate_otf(bp, b.R, b.P, b.S, e))); } }
    for (int trial = 0; trial < 4; trial++) {
      int hg = r.below(3), hp = r.below(4), ha = r.below(4); A a = fresh(ha);
      Problem m = p; for (auto &g : m.R0) g = line(r.chance(0.5) ? hg : r.below(3), g);
      Sol o; auto pr = parms(hp, p.n, reg, p.type);
      a.construct(pr, m.R0, o.R, o.P, o.S);
      if (r.chance(0.5)) a.construct(pr, m.R0, o.T); else a.construct(p.n, m.R0, o.T);
      a.factorize_Rn(o.R.back(), o.f.u, o.f.r, o.f.e); a.factorize_terms(o.T, o.ft.u, o.ft.r, o.ft.e);
      std::string how = "lines " + std::to_string(hg) + ", parameters " + std::to_string(hp) + ", object " + std::to_string(ha);
      if (ser_spr(o) + ser(o.T) + ser(o.f) + ser(o.ft) != want) return bad("the solution of the same integrand differs when built from short constructors: " + how);
      A a2 = r.chance(0.5) ? a : fresh(r.below(4)); Sol o2 = o; Sol o3; o3 = o2; // copies of everything
      size_t i = 0;
      for (auto &x : pts) {
        int hv = r.below(4);
        for (int rt = 0; rt < 4; rt++) { auto e = vars(hv, x); std::string g = hexc(eval_route(a2, pr, o3, e, rt)) + std::to_string(a2.overflow_detected); c.cnt["evaluations compared bit by bit"]++; if (g != vals[i++]) return bad(std::string("the value (") + route_name[rt] + ") differs when everything is built from short constructors: " + how + ", point " + std::to_string(hv)); }
        if (otf) { auto e = vars(hv, x); c.cnt["on-the-fly evaluations compared"]++; if (hexc(a2.evaluate_otf(pr, o3.R, o3.P, o3.S, e)) != vals[i++]) return bad("the on-the-fly value differs when everything is built from short constructors: " + how); }
      }
    }
    // an object with options set: copies carry the options
    A s1; s1.drop_bosonic_diverge = r.chance(0.5); s1.drop_der = r.chance(0.5); s1.drop_matsubara_poles = r.chance(0.5); s1.zero_external_w = r.chance(0.5); s1.bosonic_external = r.chance(0.5); s1.precision_cutoff = std::pow(10.0, r.uni(-3, 20)); s1.exp_max_arg = 500; s1.overflow_detected = r.chance(0.5);
    A s2(s1), s3; s3.drop_der = true; s3 = s1; A s4(std::move(s2));
    if (ser_opts(s3) != ser_opts(s1) || ser_opts(s4) != ser_opts(s1)) return bad("a copied object has other options: " + ser_opts(s3) + " / " + ser_opts(s4));
    for (auto &x : pts) for (int rt = 0; rt < 4; rt++) { auto e1 = x.vars(), e3 = x.vars(), e4 = x.vars(); std::string v1 = hexc(eval_route(s1, bp, b, e1, rt)) + std::to_string(s1.overflow_detected), v3 = hexc(eval_route(s3, bp, b, e3, rt)) + std::to_string(s3.overflow_detected), v4 = hexc(eval_route(s4, bp, b, e4, rt)) + std::to_string(s4.overflow_detected); c.cnt["evaluations by copied objects"]++; if (v1 != v3 || v1 != v4) return bad(std::string("a copied object gives another value (") + route_name[rt] + ")"); }
    c.cnt["problems built in several ways"]++;
  });
}
int main(int argc, char **argv) { return ctx_main(argc, argv, {{"C25", c25}}); }
