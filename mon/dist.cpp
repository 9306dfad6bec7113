// C09: the distribution functions and their derivatives, against IEEE quad.
#include "ctx.hpp"
#include "ref.hpp"

static void c09(Ctx &c) {
  AmiBase a;
  auto one = [&](int m, int sigma, double beta, cd E, const char *what) {
    char b[200]; snprintf(b, sizeof b, "m=%d sigma=%d beta=%.17g E=%s", m, sigma, beta, cstr(E).c_str()); c.note(b);
    cd x = beta * E; double ph = sigma < 0 ? std::remainder(x.imag(), 2 * M_PI) : std::remainder(x.imag() - M_PI, 2 * M_PI), dist = std::hypot(x.real(), ph);
    cd g = a.fermi_bose(m, sigma, beta, E);
    if (std::fabs(x.real()) > 760 || !std::isfinite(x.real())) {
      cd lim = (m == 0 && x.real() < 0) ? 1.0 : 0.0;
      c.seen(c.cur_dump, true, cstr(g)); c.cnt["saturated arguments"]++; c.cnt[std::string("saturated derivatives m=") + std::to_string(m)]++;
      if (!(g.real() == lim.real() && g.imag() == lim.imag())) c.viol("saturated distribution function: got " + cstr(g) + ", the limit is " + cstr(lim));
      return;
    }
    if (dist < 1e-3 * (1 + std::abs(x) * 1e-3)) { c.cnt["skipped: next to a pole"]++; return; }
    cd r = tod(ref_fermi(m, sigma, beta, cq(E)));
    double tol = 2.3e-16 * ref_level(m, sigma, beta, x, std::abs(x) + 1) + 1e-290 * std::pow(beta, m);
    if (!std::isfinite(tol)) { c.cnt["skipped: scale overflows"]++; return; }
    double err = std::abs(g - r);
    c.seen(c.cur_dump, true, cstr(g)); c.cnt[std::string(what) + ", m=" + std::to_string(m)]++; c.cnt[sigma > 0 ? "Fermi" : "Bose"]++;
    if (tol < 1e-8 * std::abs(r)) c.cnt["sharper than 1e-8 relative"]++;
    if (std::isfinite(err / tol)) c.mx["largest error / tolerance"] = std::max(c.mx["largest error / tolerance"], err / tol);
    if (!(err <= tol)) { snprintf(b, sizeof b, ": error %.3g, rounding level %.3g", err, tol); c.viol(std::string(what) + ": distribution function gave " + cstr(g) + ", exact " + cstr(r) + b); }
  };
  auto beta_of = [](Rng &r) { static const double bs[] = {1, 2, 5, 8.33, 0.5, 50}; return r.chance(0.4) ? bs[r.below(6)] : std::pow(10.0, r.uni(-5, 4)); };
  c.run("accuracy", c.thorough ? 2000000 : 200000, [&](Rng &r) {
    int m = r.range(0, 8), s = r.chance(0.5) ? 1 : -1; double beta = beta_of(r), xr, xi = 0; int k = r.below(6);
    xr = k == 0 ? r.uni(-3, 3) : k == 1 ? r.uni(-40, 40) : k == 2 ? std::pow(10.0, r.uni(-9, 0)) * (r.chance(0.5) ? 1 : -1) : k == 3 ? r.uni(-700, 700) : k == 4 ? r.uni(-8, 8) : 0;
    int j = r.below(5); if (j == 1) xi = r.uni(-20, 20); else if (j == 2) xi = r.uni(-3, 3); else if (j == 3) xi = M_PI * r.range(-4, 4) + r.uni(-0.3, 0.3); else if (j == 4) xi = std::pow(10.0, r.uni(-8, 0));
    one(m, s, beta, cd(xr / beta, xi / beta), "accuracy");
  });
  c.run("saturation", c.thorough ? 400000 : 60000, [&](Rng &r) {
    int m = r.range(0, 8), s = r.chance(0.5) ? 1 : -1; double beta = beta_of(r), xr = r.chance(0.5) ? r.uni(761, 20000) : std::pow(10.0, r.uni(3, 290)); if (r.chance(0.5)) xr = -xr;
    double xi = r.chance(0.4) ? 0 : r.uni(-20, 20);
    one(m, s, beta, cd(xr / beta, xi / beta), "saturation");
  });
  c.run("tail", c.thorough ? 400000 : 60000, [&](Rng &r) {
    int m = r.range(0, 8), s = r.chance(0.5) ? 1 : -1; double beta = beta_of(r), xr = r.uni(30, 759); if (r.chance(0.5)) xr = -xr;
    one(m, s, beta, cd(xr / beta, r.chance(0.5) ? 0 : r.uni(-20, 20) / beta), "tail");
  });
}
int main(int argc, char **argv) { return ctx_main(argc, argv, {{"C09", c09}}); }
