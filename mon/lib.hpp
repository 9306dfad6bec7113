// Adapters around the observed library: building solutions, four evaluation routes,
// full serialisation of symbolic structures.
#pragma once
#include "ctx.hpp"
#include "ref.hpp"

struct Fac { AmiBase::g_prod_t u; AmiBase::R_ref_t r; AmiBase::ref_eval_t e; };
struct Sol { AmiBase::R_t R; AmiBase::P_t P; AmiBase::S_t S; AmiBase::terms T; Fac f, ft; };
enum Route { SPR = 0, TERMS = 1, FSPR = 2, FTERMS = 3 };
static const char *route_name[] = {"spr", "terms", "factorised-spr", "factorised-terms"};

inline void build(AmiBase &a, const Problem &p, Sol &s, int nint = -1, double ereg = 0) {
  AmiBase::ami_parms pr(nint < 0 ? p.n : nint, ereg, p.type);
  a.construct(pr, p.R0, s.R, s.P, s.S);
  a.construct(pr, p.R0, s.T);
  a.factorize_Rn(s.R.back(), s.f.u, s.f.r, s.f.e);
  a.factorize_terms(s.T, s.ft.u, s.ft.r, s.ft.e);
}
inline cd eval_route(AmiBase &a, AmiBase::ami_parms &pr, Sol &s, AmiBase::ami_vars &e, int route) {
  switch (route) {
  case SPR: return a.evaluate(pr, s.R, s.P, s.S, e);
  case TERMS: return a.evaluate(pr, s.T, e);
  case FSPR: return a.evaluate(pr, s.R, s.P, s.S, e, s.f.u, s.f.r, s.f.e);
  default: return a.evaluate(pr, s.T, e, s.ft.u, s.ft.r, s.ft.e);
  }
}

inline std::string iv(const std::vector<int> &v) { std::string s; for (int x : v) s += std::to_string(x) + ","; return s; }
inline std::string ser(const AmiBase::g_struct &g) {
  return "G" + iv(g.alpha_) + "/" + iv(g.eps_) + "/" + std::to_string(int(g.stat_)) + std::to_string(g.species_) + std::to_string(int(g.eff_stat_)) + std::to_string(g.pp);
}
inline std::string ser(const AmiBase::pole_struct &p) {
  return "P" + iv(p.alpha_) + "/" + iv(p.eps_) + "/" + std::to_string(p.index_) + ":" + std::to_string(p.multiplicity_) + ":" + std::to_string(p.der_) + "/" + iv(p.which_g_) + "/" + iv(p.x_alpha_);
}
inline std::string hexd(double d) { uint64_t u; memcpy(&u, &d, 8); char b[20]; snprintf(b, sizeof b, "%016llx", (unsigned long long)u); return b; }
inline std::string hexc(cd z) { return hexd(z.real()) + "+" + hexd(z.imag()); }
template <class T> std::string ser(const std::vector<T> &v);
inline std::string ser(double d) { return hexd(d); }
inline std::string ser(cd d) { return hexc(d); }
inline std::string ser(const AmiBase::ref_t &p) { return "<" + std::to_string(p.first) + "," + std::to_string(p.second) + ">"; }
inline std::string ser(const AmiBase::term &t) { return "T" + hexd(t.sign) + ser(t.p_list) + ser(t.g_list); }
template <class T> std::string ser(const std::vector<T> &v) { std::string s = "["; for (auto &x : v) s += ser(x) + ";"; return s + "]"; }
inline std::string ser(const AmiBase::ami_vars &v) { return ser(v.energy_) + ser(v.frequency_) + hexd(v.BETA_) + hexd(v.prefactor) + hexd(v.gamma_); }
inline std::string ser(const Fac &f) { return ser(f.u) + ser(f.r) + ser(f.e); }
inline std::string ser_spr(const Sol &s) { return ser(s.R) + "|" + ser(s.P) + "|" + ser(s.S); }

inline bool same_bits(cd a, cd b) { return hexc(a) == hexc(b) || (std::isnan(a.real()) && std::isnan(b.real()) && hexd(a.imag()) == hexd(b.imag())) || (std::isnan(a.imag()) && std::isnan(b.imag()) && (hexd(a.real()) == hexd(b.real()) || std::isnan(a.real()))); }

// draw problems until the reference can represent one within the cap
struct Want { bool dup = false; int next_min = 1, next_max = 1; long cap = 2500; bool no_zero_pole = true; bool drop = true; std::function<void(GenOpt &)> tweak; std::function<void(Rng &, Problem &)> post; std::function<bool(const Problem &)> keep; };
inline bool draw(Rng &r, const Want &w, Problem &p, RefSol &s, std::string *name = nullptr) {
  for (int t = 0; t < 60; t++) {
    if (!gen_rich(r, p, w.dup, w.next_min, w.next_max, name, w.tweak)) continue;
    if (w.post) w.post(r, p);
    if (w.keep && !w.keep(p)) continue;
    s = ref_solve(p, nullptr, w.drop, w.cap);
    if (!s.ok || s.terms.empty()) continue;
    if (w.no_zero_pole && s.zero_pole) continue;
    return true;
  }
  return false;
}
inline bool usable(const RefVal &v, Ctx &c) {
  if (!v.finite || v.mind < 1e-4 || v.minb < 1e-3 || !std::isfinite(v.A)) { c.cnt["skipped: point next to a removable singularity"]++; return false; }
  return true;
}
// compare with the exact value; returns true if fine
inline bool close(Ctx &c, cd got, const RefVal &v, const std::string &what, double extra = 0) {
  double tol = ref_tol(v) + extra, err = std::abs(got - tod(v.v));
  double q = err / tol;
  c.cnt["comparisons with the exact sum"]++;
  if (tol <= 1e-6 * double(qabs(v.v))) c.cnt["comparisons sharper than 1e-6 relative"]++;
  if (std::isfinite(q)) c.mx["largest error / tolerance"] = std::max(c.mx["largest error / tolerance"], q);
  if (err <= tol) return true;
  char b[200]; snprintf(b, sizeof b, ": error %.3g, justified rounding %.3g", err, tol);
  c.viol(what + " gave " + cstr(got) + " but the exact sum is " + cstr(tod(v.v)) + b);
  return false;
}
inline bool bosonic_type(AmiBase::graph_type t) {
  return t == AmiBase::Pi_phuu || t == AmiBase::Pi_phud || t == AmiBase::Pi_ppuu || t == AmiBase::Pi_ppud || t == AmiBase::FORCE;
}
static const AmiBase::graph_type fermi_types[] = {AmiBase::Sigma, AmiBase::Hartree, AmiBase::Bare, AmiBase::Greens, AmiBase::density, AmiBase::DOS, AmiBase::ENERGY};
static const AmiBase::graph_type bose_types[] = {AmiBase::Pi_phuu, AmiBase::Pi_phud, AmiBase::Pi_ppuu, AmiBase::Pi_ppud, AmiBase::FORCE};
inline void set_type(Problem &p, AmiBase::graph_type t) { p.type = t; if (!p.fermi.empty()) p.fermi.back() = bosonic_type(t) ? 0 : 1; }
