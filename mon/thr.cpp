// C13: one object per thread, shared read-only solutions; built with -fsanitize=thread.
// Every result is compared bit by bit with a sequential run of the same work.
#include "lib.hpp"
#include <atomic>
#include <thread>

struct Job { int kind, item, point, route; bool dropder, dropbose; double ereg, cut; };
struct Item { Problem p; std::vector<Point> x; Sol so; };

static std::string work(AmiBase &a, const Job &j, Item &it) {
  a.drop_der = j.dropder; a.drop_bosonic_diverge = j.dropbose; a.precision_cutoff = j.cut;
  AmiBase::ami_parms pr(it.p.n, j.ereg, it.p.type);
  switch (j.kind) {
  case 0: { Sol s; a.construct(pr, it.p.R0, s.R, s.P, s.S); return ser_spr(s); }
  case 1: { AmiBase::terms T; a.construct(it.p.n, it.p.R0, T); return ser(T); }
  case 2: { Fac f; a.factorize_Rn(it.so.R.back(), f.u, f.r, f.e); return ser(f); }
  case 3: { Fac f; a.factorize_terms(it.so.T, f.u, f.r, f.e); return ser(f); }
  case 4: { auto e = it.x[j.point].vars(); return hexc(a.evaluate_otf(pr, it.so.R, it.so.P, it.so.S, e)) + (a.overflow_detected ? "!" : ""); }
  case 5: { Fac f = it.so.f; if (f.u.empty()) return ""; a.derivative_opt(f.u, f.r, f.e); auto e = it.x[j.point].vars(); return hexc(a.evaluate(pr, it.so.R, it.so.P, it.so.S, e, f.u, f.r, f.e)); }
  default: { auto e = it.x[j.point].vars(); cd v = eval_route(a, pr, it.so, e, j.route); return hexc(v) + (a.overflow_detected ? "!" : ""); }
  }
}
static void cold(Ctx &c) {
  const int NT = 6;
  // no library call precedes the threads: first uses collide
  c.run("cold", c.thorough ? 160 : 32, [&](Rng &r) {
    Problem p; bool ok = false; for (int k = 0; k < 40 && !ok; k++) ok = gen_rich(r, p, r.chance(0.7), 0, 2) && ref_solve(p, nullptr, true, 60).ok;
    if (!ok) return;
    if (r.chance(0.3) && p.nalpha() > p.n) set_type(p, bose_types[r.below(5)]);
    std::vector<Point> x; for (int k = 0; k < 3; k++) x.push_back(gen_point(r, p));
    c.note(dump(p));
    auto all = [&]() { AmiBase a; Sol s; build(a, p, s); AmiBase::ami_parms pr(p.n, 0, p.type); std::string o = ser_spr(s) + ser(s.T) + ser(s.f) + ser(s.ft); for (auto &y : x) for (int k = 0; k < 4; k++) { auto e = y.vars(); o += hexc(eval_route(a, pr, s, e, k)); } auto e = x[0].vars(); if (!bosonic_type(p.type) && p.R0.size() <= 7) o += hexc(a.evaluate_otf(pr, s.R, s.P, s.S, e)); if (!s.f.u.empty()) { a.derivative_opt(s.f.u, s.f.r, s.f.e); o += hexc(eval_route(a, pr, s, e, FSPR)); } return o; };
    std::vector<std::string> par(NT); std::atomic<int> go(0); std::vector<std::thread> th;
    for (int t = 0; t < NT; t++) th.emplace_back([&, t] { go++; while (go.load() < NT) std::this_thread::yield(); par[t] = all(); });
    for (auto &y : th) y.join();
    std::string seq = all(); c.cnt["cold thread groups run"]++;
    c.seen(dump(p), true, "6 threads, " + std::to_string(seq.size()) + " bytes of result each");
    for (auto &s : par) if (s != seq) { c.viol("a thread computing alone on its own objects got a different result than the sequential run"); return; }
  });
}

static void c13(Ctx &c) {
  cold(c);
  const int NT = 6;
  c.run("threads", c.thorough ? 240 : 48, [&](Rng &r) {
    std::vector<Item> items; int ni = r.range(2, 4); std::string d;
    for (int t = 0; t < ni; t++) {
      Item it; bool ok = false;
      for (int k = 0; k < 40 && !ok; k++) { if (!gen_rich(r, it.p, r.chance(0.5), 0, 2)) continue; if (r.chance(0.3) && it.p.nalpha() > it.p.n) set_type(it.p, bose_types[r.below(5)]); RefSol s = ref_solve(it.p, nullptr, true, 60); ok = s.ok; }
      if (!ok) continue;
      for (int k = 0; k < 3; k++) it.x.push_back(gen_point(r, it.p));
      if (r.chance(0.3)) for (auto &e : it.x[0].energy) e = 0.5;
      if (r.chance(0.3)) for (auto &e : it.x[1].energy) e = 0; // Bose factors at zero energy
      AmiBase a; build(a, it.p, it.so); items.push_back(it); d += dump(it.p);
    }
    if (items.empty()) return;
    c.note(d);
    std::vector<std::vector<Job>> jobs(NT);
    for (auto &v : jobs) { int n = r.range(20, 40); for (int i = 0; i < n; i++) { Job j; j.kind = r.range(0, 10); j.item = r.below(items.size()); j.point = r.below(3); j.route = r.below(4); j.dropder = r.chance(0.2); j.dropbose = r.chance(0.2); j.cut = r.chance(0.2) ? 1e-2 : AmiBase().precision_cutoff; j.ereg = r.chance(0.3) ? 0.05 : 0; if (j.kind == 4 && (bosonic_type(items[j.item].p.type) || items[j.item].p.R0.size() > 7)) j.kind = 6; v.push_back(j); } }
    std::vector<std::vector<std::string>> seq(NT), par(NT);
    std::vector<std::string> before; for (auto &it : items) before.push_back(ser_spr(it.so) + ser(it.so.T) + ser(it.so.f) + ser(it.so.ft));
    std::atomic<int> go(0); std::vector<std::thread> th;
    std::vector<int> yields(NT); for (int &y : yields) y = r.range(0, 3);
    for (int t = 0; t < NT; t++) th.emplace_back([&, t] {
      go++; while (go.load() < NT) std::this_thread::yield();
      AmiBase a; for (auto &j : jobs[t]) { par[t].push_back(work(a, j, items[j.item])); for (int y = 0; y < yields[t]; y++) std::this_thread::yield(); }
    });
    for (auto &x : th) x.join();
    // the sequential run comes afterwards, so that first-use initialisation happens concurrently
    for (int t = 0; t < NT; t++) { AmiBase a; for (auto &j : jobs[t]) seq[t].push_back(work(a, j, items[j.item])); }
    c.cnt["thread groups run"]++; 
    for (int t = 0; t < NT; t++) for (size_t i = 0; i < jobs[t].size(); i++) {
      c.cnt[std::string("concurrent calls, kind ") + (jobs[t][i].kind < 2 ? "construct" : jobs[t][i].kind < 4 ? "factorise" : jobs[t][i].kind == 4 ? "evaluate on the fly" : jobs[t][i].kind == 5 ? "derivative" : "evaluate")]++;
      c.seen(std::to_string(c.cur_idx) + "/" + std::to_string(t) + "/" + std::to_string(i) + seq[t][i].substr(0, 200), true, "thread " + std::to_string(t));
      if (seq[t][i] != par[t][i]) { c.viol("concurrent call of kind " + std::to_string(jobs[t][i].kind) + " gives " + par[t][i].substr(0, 200) + ", the same call alone " + seq[t][i].substr(0, 200)); return; }
    }
    for (size_t i = 0; i < items.size(); i++) if (before[i] != ser_spr(items[i].so) + ser(items[i].so.T) + ser(items[i].so.f) + ser(items[i].so.ft)) { c.viol("a shared solution was modified"); return; }
  });
}
int main(int argc, char **argv) { return ctx_main(argc, argv, {{"C13", c13}}); }
