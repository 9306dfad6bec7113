// Reference model: an independent symbolic Matsubara summation over propagators
// with integer powers, evaluated in IEEE quadruple precision.
// T*sum_z h(z) = sum_poles Res[ f_s(z) h(z) ],  f_s(z) = 1/(sigma e^{beta z}+1),
// sigma=+1 for a fermionic and -1 for a bosonic frequency.
#pragma once
#include "common.hpp"
#include <quadmath.h>

typedef __float128 q;
struct cq {
  q r, i;
  cq(q a = 0, q b = 0) : r(a), i(b) {}
  cq(cd z) : r(z.real()), i(z.imag()) {}
};
inline cq operator+(cq a, cq b) { return cq(a.r + b.r, a.i + b.i); }
inline cq operator-(cq a, cq b) { return cq(a.r - b.r, a.i - b.i); }
inline cq operator*(cq a, cq b) { return cq(a.r * b.r - a.i * b.i, a.r * b.i + a.i * b.r); }
inline cq operator*(q a, cq b) { return cq(a * b.r, a * b.i); }
inline q qabs(cq a) { return hypotq(a.r, a.i); }
inline cq operator/(cq a, cq b) {
  // scaled, so that huge exponentials do not overflow
  q m = fmaxq(fabsq(b.r), fabsq(b.i));
  q br = b.r / m, bi = b.i / m, d = br * br + bi * bi;
  return cq((a.r * br + a.i * bi) / d / m, (a.i * br - a.r * bi) / d / m);
}
inline cd tod(cq a) { return cd(double(a.r), double(a.i)); }
inline cq cexpq_(cq z) { q m = expq(z.r); return cq(m * cosq(z.i), m * sinq(z.i)); }
inline cq cpow_i(cq b, int p) { cq o(1); for (int i = 0; i < p; i++) o = o * b; return o; }

// f^{(m)}(E)/..., derivative with respect to E of 1/(sigma e^{beta E}+1).
// Uses f' = -beta f g, g' = beta f g, g = 1-f: exact integer coefficients.
inline const std::map<std::pair<int,int>, q> &fpoly(int m) {
  static std::vector<std::map<std::pair<int,int>, q>> P;
  if (P.empty()) { std::map<std::pair<int,int>, q> p; p[{1,0}] = 1; P.push_back(p); }
  while (int(P.size()) <= m) {
    std::map<std::pair<int,int>, q> nx;
    for (auto &t : P.back()) {
      int a = t.first.first, b = t.first.second;
      if (a) nx[{a, b + 1}] += q(-a) * t.second;
      if (b) nx[{a + 1, b}] += q(b) * t.second;
    }
    P.push_back(nx);
  }
  return P[m];
}
inline cq ref_fermi(int m, int sigma, q beta, cq E) {
  cq x = beta * E, f, g;
  if (x.r > 11000) x.r = 11000;
  if (x.r < -11000) x.r = -11000;
  if (x.r > 0) { cq e = cexpq_(cq(-x.r, -x.i)); cq d = cq(sigma) + e; f = e / d; g = cq(sigma) / d; }
  else { cq e = q(sigma) * cexpq_(x); cq d = cq(1) + e; f = cq(1) / d; g = e / d; }
  cq s;
  for (auto &t : fpoly(m)) s = s + t.second * (cpow_i(f, t.first.first) * cpow_i(g, t.first.second));
  return powq(beta, m) * s;
}

inline double stirling(int m, int k) { // k! S(m,k)
  static double t[32][32]; static bool done = false;
  if (!done) { for (int i = 0; i < 32; i++) for (int j = 0; j < 32; j++) t[i][j] = (i == 0 && j == 0) ? 1 : (i == 0 || j == 0) ? 0 : j * (t[i - 1][j] + t[i - 1][j - 1]); done = true; }
  return m > 31 || k > 31 ? INFINITY : t[m][k];
}
// rounding level, in units of the last place, of the alternating sum
// sum_k k!S(m,k) (-sigma)^k f / (sigma+e^{-x})^k that defines the m-th derivative;
// scale bounds the magnitude of what x was computed from
inline double ref_level(int m, int sigma, double beta, cd x, double scale) {
  double ph = sigma < 0 ? std::remainder(x.imag(), 2 * M_PI) : std::remainder(x.imag() - M_PI, 2 * M_PI), dist = std::hypot(x.real(), ph);
  cd X(std::max(-700.0, std::min(700.0, x.real())), x.imag());
  double f = std::abs(1.0 / (double(sigma) * std::exp(X) + 1.0)), h = std::abs(1.0 / (double(sigma) + std::exp(-X))), s = 0;
  double rel = 8 + 4 * scale * (1 + 1 / std::min(dist, 1.0));
  for (int k = 0; k <= m; k++) {
    double co = m == 0 ? 1 : stirling(m, k), alt = 0, bin = 1; // alternating sum for k!S(m,k): exact in double below 2^53
    for (int j = 0; j <= k; j++) { alt += bin * std::pow(double(j), m); bin = bin * (k - j) / (j + 1); }
    if (alt > 4.5e15) co += 0.1 * alt;
    s += co * f * std::pow(h, k) * (k + 2) * rel;
  }
  return s * std::pow(beta, m);
}

struct Lin { std::vector<int> a, e;
  bool operator<(const Lin &o) const { return a != o.a ? a < o.a : e < o.e; }
  bool operator==(const Lin &o) const { return a == o.a && e == o.e; }
  bool zero() const { for (int x : a) if (x) return false; for (int x : e) if (x) return false; return true; } };
inline Lin lin_sub(const Lin &x, const Lin &y) { Lin z = x; for (size_t i = 0; i < z.a.size(); i++) z.a[i] -= y.a[i]; for (size_t i = 0; i < z.e.size(); i++) z.e[i] -= y.e[i]; return z; }
inline Lin lin_neg(const Lin &x) { Lin z = x; for (int &v : z.a) v = -v; for (int &v : z.e) v = -v; return z; }
inline int lin_lead(const Lin &x) { for (int v : x.a) if (v) return v > 0 ? 1 : -1; for (int v : x.e) if (v) return v > 0 ? 1 : -1; return 0; }

struct RF { int m; int sigma; std::vector<int> e; };   // f^{(m)} at energy sum e_i eps_i
struct RTerm { double w = 1; q c = 1; std::vector<RF> f; std::map<Lin, int> g; };

struct RefSol {
  std::vector<RTerm> terms;
  bool drop_bose_zero = false; // skip zero-energy poles of Bose type (cancel in a regular summand)
  long cap = 1000000; bool capped = false;
  double raw = 1;            // number of terms without merging equal products
  bool ok = true;            // representable (all coefficients 0,+-1)
  bool zero_pole_odd = false;// met a zero-energy pole sitting on an odd number of frequencies
  bool zero_pole = false;
};

inline void ref_add(std::map<Lin,int> &g, Lin l, int p, q &c) {
  int s = lin_lead(l);
  if (s < 0) { l = lin_neg(l); if (p & 1) c = -c; }
  g[l] += p;
}

inline RefSol ref_step(const RefSol &in, int k, const std::vector<char> &fermi) {
  RefSol out; out.raw = 0; out.drop_bose_zero = in.drop_bose_zero; out.cap = in.cap; out.ok = in.ok; out.zero_pole_odd = in.zero_pole_odd; out.zero_pole = in.zero_pole;
  for (auto &t : in.terms) {
    std::map<Lin,int> dep; std::map<Lin,int> inert; q c0 = t.c;
    for (auto &gp : t.g) {
      int ak = gp.first.a[k];
      if (ak == 0) { inert[gp.first] += gp.second; continue; }
      if (ak != 1 && ak != -1) { out.ok = false; return out; }
      Lin rest = ak > 0 ? gp.first : lin_neg(gp.first);
      if (ak < 0 && (gp.second & 1)) c0 = -c0;
      rest.a[k] = 0; dep[rest] += gp.second;
    }
    for (auto &pl : dep) {
      int M = pl.second; Lin z0 = lin_neg(pl.first);
      for (int v : z0.a) if (v > 1 || v < -1) { out.ok = false; return out; }   // not a conserving diagram
      int par = fermi[k] ? 0 : 1, cnt = 0;   // parity of the exponent sign
      for (size_t j = 0; j < z0.a.size(); j++) if (z0.a[j]) { cnt++; if (fermi[j] && (z0.a[j] & 1)) par ^= 1; }
      bool ez = true; for (int v : z0.e) if (v) ez = false;
      if (ez) { out.zero_pole = true; if (cnt & 1) out.zero_pole_odd = true; if (par && in.drop_bose_zero) continue; }
      RF base; base.sigma = par ? -1 : 1; base.e = z0.e;
      std::vector<std::pair<Lin,int>> oth; for (auto &o : dep) if (!(o.first == pl.first)) oth.push_back(o);
      // distribute M-1 derivatives over f and the other propagators
      std::vector<int> d(oth.size(), 0);
      std::function<void(size_t,int)> rec = [&](size_t j, int left) {
        if (j == oth.size()) {
          RTerm nt; nt.c = c0; nt.w = t.w; nt.f = t.f; RF f = base; f.m = left; nt.f.push_back(f);
          for (int i = left + 1; i <= M - 1; i++) nt.w *= i;
          for (int i = 2; i <= left; i++) nt.c /= q(i);
          nt.g = inert;
          for (size_t i = 0; i < oth.size(); i++) {
            int p = oth[i].second; // binomial(-p, d) = (-1)^d (p)_d/d!
            for (int u = 0; u < d[i]; u++) { nt.c = -nt.c * q(p + u) / q(u + 1); nt.w *= double(p + u) / (u + 1); }
            Lin l = lin_sub(oth[i].first, pl.first); for (int v : l.a) if (v > 1 || v < -1) { out.ok = false; return; }
            ref_add(nt.g, l, p + d[i], nt.c);
          }
          out.raw += nt.w; out.terms.push_back(nt); if (long(out.terms.size()) > out.cap || out.raw > 3.0 * out.cap) { out.capped = true; out.ok = false; } return;
        }
        for (int u = 0; u <= left; u++) { d[j] = u; rec(j + 1, left - u); }
        d[j] = 0;
      };
      rec(0, M - 1);
      if (!out.ok) return out;
    }
  }
  return out;
}

inline RefSol ref_start(const AmiBase::g_prod_t &R0) {
  RefSol s; RTerm t;
  for (auto &g : R0) { Lin l; l.a.assign(g.alpha_.begin(), g.alpha_.end()); l.e.assign(g.eps_.begin(), g.eps_.end()); if (l.zero()) { s.ok = false; return s; } ref_add(t.g, l, 1, t.c); }
  s.terms.push_back(t); return s;
}
inline RefSol ref_solve(const Problem &p, const std::vector<int> *order = nullptr, bool drop = false, long cap = 1000000) {
  RefSol s = ref_start(p.R0); s.drop_bose_zero = drop; s.cap = cap;
  for (int k = 0; k < p.n && s.ok; k++) s = ref_step(s, order ? (*order)[k] : k, p.fermi);
  return s;
}

struct RefVal {
  cq v;            // value
  double pf = 1;
  double A = 0;    // sum over terms of |term|*(relative error amplification), for tolerances
  double maxterm = 0;
  double mind = 1e300;  // smallest denominator relative to its ingredients
  double minb = 1e300;  // smallest |beta E| in a bosonic factor
  double mindabs = 1e300;
  bool finite = true;
  long bose_zero = 0, zeroed = 0;  // Bose factors met exactly at zero energy, factors dropped by an option
  int maxder = 0;
};
struct RefOpt { double ereg = 0; bool drop_bose = false, drop_der = false; };
inline RefVal ref_eval(const RefSol &s, const Point &x, const RefOpt &opt = RefOpt()) {
  RefVal o; q beta = x.beta;
  std::map<std::pair<std::pair<int,int>, std::vector<int>>, double> fmag;
  std::map<Lin, std::pair<cq,double>> gc;                 // value, relative amplification
  std::map<std::pair<std::pair<int,int>, std::vector<int>>, std::pair<cq,double>> fc;
  for (auto &t : s.terms) {
    cq v(t.c); double amp = 4, mag = double(fabsq(t.c)); // mag bounds |v|, from below by the rounding level of its factors
    for (auto &gp : t.g) {
      auto it = gc.find(gp.first);
      if (it == gc.end()) {
        cq d; double sc = 0;
        for (size_t i = 0; i < gp.first.a.size(); i++) if (gp.first.a[i]) { d = d + q(gp.first.a[i]) * cq(x.freq[i]); sc += std::abs(gp.first.a[i]) * std::abs(x.freq[i]); }
        for (size_t i = 0; i < gp.first.e.size(); i++) if (gp.first.e[i]) { d = d + q(gp.first.e[i]) * cq(x.energy[i]); sc += std::abs(gp.first.e[i]) * std::abs(x.energy[i]); }
        double ad = double(qabs(d));
        o.mindabs = std::min(o.mindabs, ad); o.mind = std::min(o.mind, sc > 0 ? ad / sc : 0);
        if (ad == 0) { o.finite = false; return o; }
        it = gc.insert({gp.first, {cq(1) / d, 4 + 2 * sc / ad}}).first;
      }
      v = v * cpow_i(it->second.first, gp.second); mag *= std::pow(double(qabs(it->second.first)), gp.second); amp += gp.second * it->second.second;
    }
    for (auto &f : t.f) {
      auto key = std::make_pair(std::make_pair(f.m, f.sigma), f.e);
      auto it = fc.find(key);
      if (it == fc.end()) {
        cq E; double sc = 0;
        for (size_t i = 0; i < f.e.size(); i++) if (f.e[i]) { E = E + q(f.e[i]) * cq(x.energy[i]); sc += std::abs(f.e[i]) * std::abs(x.energy[i]); }
        bool zeroed = opt.drop_der && f.m > 0;
        if (E.r == 0 && E.i == 0 && f.sigma < 0) { o.bose_zero++; if (opt.drop_bose) zeroed = true; else E.r += q(opt.ereg); }
        else if (opt.ereg != 0) E.r += E.r < 0 ? -q(opt.ereg) : q(opt.ereg);
        if (zeroed) { o.zeroed++; it = fc.insert({key, {cq(0), 0.0}}).first; fmag[key] = 0; }
        else {
        // distance to the singularities of 1/(sigma e^x+1)
        double xr = double((beta * E).r), xi = double((beta * E).i);
        double ph = f.sigma < 0 ? std::remainder(xi, 2 * M_PI) : std::remainder(xi - M_PI, 2 * M_PI);
        double dist = std::hypot(xr, ph);
        if (f.sigma < 0 || dist < 0.5) o.minb = std::min(o.minb, dist);
        if (dist == 0) { o.finite = false; return o; }
        cq val = ref_fermi(f.m, f.sigma, beta, E);
        double bx = x.beta * sc + std::fabs(xr) + 1, av = double(qabs(val));
        o.maxder = std::max(o.maxder, f.m);
        double lev = ref_level(f.m, f.sigma, x.beta, cd(xr, xi), bx);
        it = fc.insert({key, {val, lev / std::max({av, lev * 1e-13, 1e-300})}}).first; fmag[key] = std::max(av, lev * 1e-13);
        }
      }
      v = v * it->second.first; amp += it->second.second;
      mag *= fmag[key];
    }
    double av = double(qabs(v));
    o.A += mag * amp; o.maxterm = std::max(o.maxterm, av);
    o.v = o.v + v;
  }
  o.pf = std::fabs(x.prefactor); o.v = q(x.prefactor) * o.v; o.A *= std::fabs(x.prefactor); o.maxterm *= std::fabs(x.prefactor);
  return o;
}
// derivative of the summed expression with respect to frequency j (it must be external)
inline RefSol ref_diff(const RefSol &s, int j) {
  RefSol out = s; out.terms.clear();
  for (auto &t : s.terms)
    for (auto &gp : t.g) if (gp.first.a[j]) {
      RTerm nt = t; nt.c *= q(-gp.second * gp.first.a[j]); nt.g[gp.first] += 1; out.terms.push_back(nt);
    }
  return out;
}
inline double ref_tol(const RefVal &v) { return 2.4e-15 * v.A + 1e-240 * (1 + v.pf); } // second part: underflow of intermediate exponentials
