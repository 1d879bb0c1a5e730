// C12 - C14: global minimisation, one-step critical temperature, constrained minimisation.
#include "land.hpp"
#include <BSMPT/minimizer/LibNLOPT/MinimizeNLOPT.h>
#include <BSMPT/minimizer/MinimizeGSL.h>
#include <BSMPT/minimizer/MinimizePlane.h>
#include <BSMPT/minimizer/Minimizer.h>

using namespace pbt;
using namespace BSMPT::Minimizer;
using Model = std::shared_ptr<Class_Potential_Origin>;

static double gap(const Land &l, double T)
{
  int g = l.lowest(T);
  double r = 1e300;
  for (int i = 0; i < l.nw; i++)
    if (i != g) r = std::min(r, l.F(i, T) - l.F(g, T));
  return r;
}
static double len(const Vec &v) { return dist(v, Vec(v.size(), 0)); }

// downhill simplex of its own, restarted until it stops
static Vec descend(const std::function<double(const Vec &)> &V, Vec p, double step = 20)
{
  std::size_t n = p.size();
  double best   = V(p);
  for (int round = 0; round < 8; round++)
  {
    std::vector<std::pair<double, Vec>> S{{best, p}};
    for (std::size_t i = 0; i < n; i++)
    {
      Vec q = p;
      q[i] += step;
      S.push_back({V(q), q});
    }
    for (int it = 0; it < 400 * (int)n; it++)
    {
      std::sort(S.begin(), S.end(), [](auto &a, auto &b) { return a.first < b.first; });
      double size = 0;
      for (auto &q : S)
        size = std::max(size, dist(q.second, S[0].second));
      if (size < 1e-5) break;
      Vec c(n, 0);
      for (std::size_t i = 0; i < n; i++)
        for (std::size_t k = 0; k < n; k++)
          c[k] += S[i].second[k] / n;
      auto at = [&](double t) {
        Vec q(n);
        for (std::size_t k = 0; k < n; k++)
          q[k] = c[k] + t * (S[n].second[k] - c[k]);
        return std::make_pair(V(q), q);
      };
      auto r = at(-1);
      if (r.first < S[0].first)
      {
        auto e = at(-2);
        S[n]   = e.first < r.first ? e : r;
      }
      else if (r.first < S[n - 1].first || (n == 1 && r.first < S[1].first))
        S[n] = r;
      else
      {
        auto k = at(r.first < S[n].first ? -0.5 : 0.5);
        if (k.first < std::min(r.first, S[n].first))
          S[n] = k;
        else
          for (std::size_t i = 1; i <= n; i++)
          {
            for (std::size_t j = 0; j < n; j++)
              S[i].second[j] = (S[i].second[j] + S[0].second[j]) / 2;
            S[i].first = V(S[i].second);
          }
      }
    }
    std::sort(S.begin(), S.end(), [](auto &a, auto &b) { return a.first < b.first; });
    bool done = best - S[0].first < 1e-7 * (1 + std::abs(best));
    best      = S[0].first;
    p         = S[0].second;
    if (done && round) break;
    step = std::max(0.5, step / 3);
  }
  return p;
}

// ---------------------------------------------------------------- C12
static void c12_wells(Src &s, Ctx &c)
{
  int nw  = s.integer(1, 3);
  Land l  = genLand(s, c, std::max(2, nw), anyCoeff(s, std::max(2, nw)), true, s.integer(1, 5));
  double T = s.chance(30) ? 0 : s.unit() * l.tmax;
  int which = s.pick(std::vector<int>{2, 4, 6, 6});
  bool mt   = s.chance(30);
  c.add("T", T);
  c.add("minimizer", (long)which);
  c.add("threads", (long)mt);
  if (gap(l, T) < 1e-3 * l.E) c.discard();
  int g = l.lowest(T);
  Vec check, start = l.m->get_vevTreeMin();
  Vec r = Minimize_gen_all(l.m, T, check, start, which, mt);
  c.add("result", str(r));
  c.check(r.size() == (std::size_t)l.n, "dimension of the result", "shape");
  int w = l.well(r, T, 1);
  c.label(std::string(which == 2 ? "GSL" : which == 4 ? "NLopt" : "both") + " " + std::to_string(l.n) + (w == g ? " global" : w >= 0 ? " local" : " none"));
  double v = l.m->V(r, T);
  if (which != 4 || l.n <= 2) c.check(v <= l.m->V(Vec(l.n, 0), T) || len(r) == 0 || w >= 0, "the origin is lower", "origin");
  // electroweak fields below half a GeV are set to zero
  double ew = 0;
  for (std::size_t i = 0; i < l.m->nEW; i++)
    ew += r[i] * r[i];
  c.check(ew == 0 || std::sqrt(ew) > 0.5, "a small electroweak vacuum expectation value is left", "zero");
  if (w == g) c.nontrivial();
  if (which == 4 && l.n > 2) c.check(w >= 0, "no minimum: " + str(r), "nlopt-global");
  if (which != 4 || l.n <= 2) c.check(w == g, "not the global minimum: " + str(r) + " in place of " + str(l.place(g, T)), "global");
}

// tree-level vacuum far away from the origin
static void c12_far(Src &s, Ctx &c)
{
  int n = s.integer(1, 2), which = s.pick(std::vector<int>{2, 4, 6});
  Vec x(n);
  for (double &q : x)
    q = s.sym(900);
  double m2 = s.logreal(100, 1e5), bump = s.real(0, 0.4);
  auto m    = std::make_shared<Synth>(n, s.integer(1, n));
  m->V      = [=](const Vec &v, double) {
    double r = dist(v, x), o = len(v);
    return m2 * (r * r / 2 - bump * 2e3 * std::exp(-o * o / 2e3)); // a shallow minimum near the origin
  };
  m->install();
  m->vevTreeMin = x;
  c.add("minimum", str(x));
  c.add("minimizer", (long)which);
  if (len(x) < 150) c.discard();
  Vec check;
  Vec r = Minimize_gen_all(m, 0, check, x, which, false);
  c.add("result", str(r));
  c.check(dist(r, x) < 2, "the minimum at the tree-level vacuum is missed", "far");
  auto q = LibNLOPT::MinimizeUsingNLOPT(*m, 0);
  c.check(q.Success && dist(q.Minimum, x) < 2, "NLopt misses the minimum at the tree-level vacuum", "far");
  bool out = false;
  for (double q : x)
    out |= std::abs(q) > 300;
  if (out) c.nontrivial();
}

// potentials on which local searches fail or end at once, with many threads
static void c12_refuse(Src &s, Ctx &c)
{
  int n = s.integer(1, 5), kind = s.below(3), which = s.pick(std::vector<int>{2, 6});
  double at = s.real(10, 400);
  auto m    = std::make_shared<Synth>(n, 1);
  m->V      = [=](const Vec &v, double) {
    double r = len(v);
    if (kind == 0) return std::nan("");
    if (kind == 1) return r > at ? std::nan("") : r * r;
    return -r; // unbounded
  };
  m->install();
  m->vevTreeMin = Vec(n, 0);
  bool mt = s.chance(70);
  c.add("kind", (long)kind).add("fields", (long)n).add("minimizer", (long)which).add("threads", (long)mt);
  for (int i = 0; i < (kind == 0 ? 20 : 1); i++)
  {
    std::vector<Vec> all;
    auto [sol, ok] = GSL_Minimize_gen_all(*m, 0, (int)s.below(1000), all, 20, mt);
    c.check(ok == !all.empty(), "reported success", "status");
    c.check(!ok || sol.size() == (std::size_t)n, "dimension", "shape");
    if (kind == 0) c.check(!ok, "a minimum of a potential that is never a number", "status");
    Vec check, r = Minimize_gen_all(m, 0, check, Vec(n, 0), which, mt);
    c.check(r.size() == (std::size_t)n, "dimension", "shape");
    if (kind == 0) c.check(len(r) == 0, "falls back to the origin", "status");
    if (kind == 1) c.check(std::isfinite(m->V(r, 0)), "returns a point where the potential is no number", "status");
  }
  c.nontrivial();
}

// all local searches of GSL
static void c12_gsl(Src &s, Ctx &c)
{
  int nw   = s.integer(2, 3);
  Land l   = genLand(s, c, nw, anyCoeff(s, nw), true, s.integer(1, 4));
  double T = s.chance(30) ? 0 : s.unit() * l.tmax;
  int seed = s.below(1000), want = s.integer(1, 40);
  bool mt  = s.chance(50);
  c.add("T", T).add("seed", (long)seed).add("wanted", (long)want).add("threads", (long)mt);
  std::vector<Vec> all;
  auto [sol, ok] = GSL_Minimize_gen_all(*l.m, T, seed, all, want, mt);
  c.check(ok, "no minimum", "status");
  c.check((int)all.size() >= std::min(want, 1), "number of minima", "number");
  if (!mt) c.check((int)all.size() <= want, "more minima than wanted", "number");
  double low = 1e300;
  int bad    = 0;
  for (auto &row : all)
  {
    c.check(row.size() == (std::size_t)l.n + 2, "row", "shape");
    Vec p(row.begin(), row.begin() + l.n);
    c.close(row[l.n], l.m->EWSBVEV(l.m->MinimizeOrderVEV(p)), 1e-12, 0, "electroweak vacuum expectation value", "row");
    c.close(row[l.n + 1], l.m->V(p, T), 1e-12, 0, "potential", "row");
    // the simplex may collapse, hardly ever, far from a minimum
    if (l.well(p, T, 0.3) < 0) c.check(l.n > 2 && ++bad < 2, "no minimum: " + str(p), "minimum");
    low = std::min(low, row[l.n + 1]);
  }
  c.close(l.m->V(sol, T), low, 1e-12, 0, "the lowest of the minima", "lowest");
  c.check(bad || l.well(sol, T, 0.3) >= 0, "no minimum: " + str(sol), "minimum");
  c.label(bad ? "collapsed" : l.well(sol, T, 0.3) == l.lowest(T) ? "global" : "local");
  c.nontrivial();
}

// following minima over temperature
static void c12_develop(Src &s, Ctx &c)
{
  int nw  = s.integer(2, 3);
  Land l  = genLand(s, c, nw, anyCoeff(s, nw), true, s.integer(1, 3));
  int which = s.pick(std::vector<int>{2, 4}), steps = s.integer(1, 120), pts = s.integer(1, 3);
  double a = s.real(0, l.tmax), b = s.boolean() ? 0 : s.unit() * l.tmax;
  if (s.boolean()) std::swap(a, b);
  if (std::abs(a - b) < 1) c.discard();
  double h = (b - a) / steps;
  std::vector<std::pair<double, double>> box(l.n, {-300, 300});
  auto R = MinimaDevelopmentWithTemperature(l.m, a, b, h, box, s.below(1000), pts, which);
  c.add("from, to, steps", str(Vec{a, b, (double)steps}));
  c.add("minimizer", (long)which);
  c.check((int)R.size() <= pts, "more histories than starting points", "number");
  if (R.empty()) c.discard(); // no convergence
  for (auto &q : R)
  {
    c.check((int)q.size() == steps + 1, std::to_string(q.size()) + " points for " + std::to_string(steps) + " steps", "temperatures");
    int w = -2;
    for (std::size_t i = 0; i < q.size(); i++)
    {
      c.close(q[i].first, a + h * i, 0, 1e-9 * (1 + l.tmax), "temperature", "temperatures");
      int k = l.well(q[i].second, q[i].first, which == 2 ? 0.3 : 10);
      c.check(k >= 0, "no minimum: " + str(q[i].second) + " at T = " + std::to_string(q[i].first), which == 4 ? "nlopt-local" : "minimum");
      c.check(w == -2 || k == w || std::abs(h) > 10 || which == 4, "the history leaves its minimum", "follow");
      w = k;
    }
  }
  c.nontrivial();
}

static void c12_real(Src &s, Ctx &c)
{
  std::string n = s.pick(realModels());
  Point P       = genPoint(s, n);
  c.add("model", n);
  c.add("parameters", str(P.par));
  Model m = initPoint(P);
  if (!m) c.discard();
  double T  = s.chance(30) ? 0 : s.real(0, 250);
  int which = s.pick(std::vector<int>{2, 6, 6}), k = m->get_nVEV();
  bool mt   = s.chance(30);
  c.add("T", T).add("minimizer", (long)which);
  auto V = [&](const Vec &v) { return m->VEff(m->MinimizeOrderVEV(v), T); };
  Vec check, r = Minimize_gen_all(m, T, check, m->get_vevTreeMin(), which, mt);
  c.check(check.back() == 1 || which == 4, "GSL found nothing", "status");
  double v = V(r), best = V(m->get_vevTreeMin());
  Vec at   = m->get_vevTreeMin();
  for (int i = 0; i < 8; i++)
  {
    Vec p = i == 0 ? m->get_vevTreeMin() : i == 1 ? Vec(k, 0) : s.vec(k, 400);
    if (i == 1)
      for (double &x : p)
        x = s.sym(30);
    p        = descend(V, p);
    double w = V(p);
    if (w < best && len(p) < 2000) best = w, at = p;
  }
  c.add("result", str(r)).add("other", str(at)).add("difference", v - best);
  double scale = std::abs(best - V(Vec(k, 0))) + 1e3;
  if (len(at) > 1500) c.discard(); // unbounded
  c.check(v <= best + 1e-3 * scale + 1e-9 * std::abs(best), "a lower minimum is at " + str(at), "global");
  c.label(m->EWSBVEV(m->MinimizeOrderVEV(r)) > 0 ? "broken" : "symmetric");
  c.nontrivial();
}

static void c12_tree(Src &s, Ctx &c)
{
  std::string n = s.pick(realModels());
  Point P       = genPoint(s, n);
  c.add("model", n);
  c.add("parameters", str(P.par));
  Model m = initPoint(P);
  if (!m) c.discard();
  int which = s.pick(std::vector<int>{2, 6}), k = m->get_nVEV();
  Vec check, r = Minimize_gen_all_tree_level(P.id, m->get_parStored(), m->get_parCTStored(), GetSMConstants(), check, m->get_vevTreeMin(), which, s.chance(30));
  auto V   = [&](const Vec &v) { return m->VTree(m->MinimizeOrderVEV(v)); };
  double best = V(m->get_vevTreeMin());
  Vec at      = m->get_vevTreeMin();
  for (int i = 0; i < 6; i++)
  {
    Vec p = i == 0 ? at : descend(V, s.vec(k, 400));
    if (V(p) < best && len(p) < 2000) best = V(p), at = p;
  }
  c.add("result", str(r)).add("other", str(at)).add("difference", V(r) - best);
  if (len(at) > 1500) c.discard();
  c.check(V(r) <= best + 1e-3 * std::abs(best) + 1, "a lower minimum is at " + str(at), "global");
  c.nontrivial();
}

static void c12_select(Src &s, Ctx &c)
{
  bool g = s.boolean(), n = s.boolean(), cm = s.boolean();
  int w  = CalcWhichMinimizer(g, cm, n);
  auto u = GetMinimizers(w);
  c.check(u.UseGSL == g && u.UseNLopt == n && !u.UseCMAES, "selection of the minimisers", "select"); // no CMAES here
  c.nontrivial();
}

// ---------------------------------------------------------------- C13
struct OneStep
{
  double D, lam, E, T0, Tc;
  double f(double T) const
  {
    double q = 9 * E * E * T * T - 8 * lam * D * (T * T - T0 * T0);
    return q < 0 ? 0 : (3 * E * T + std::sqrt(q)) / (2 * lam);
  }
};
static void c13_bisect(Src &s, Ctx &c)
{
  OneStep o;
  o.T0         = s.real(40, 200);
  double ratio = s.chance(15) ? 0 : s.real(0, 0.8); // E^2 = ratio lambda D
  double v0    = s.chance(85) ? s.real(30, 250) : s.real(250, 400);
  o.lam        = s.logreal(0.02, 1);
  o.D          = o.lam * v0 * v0 / (2 * o.T0 * o.T0);
  o.E          = std::sqrt(ratio * o.lam * o.D);
  o.Tc         = o.T0 / std::sqrt(1 - ratio);
  int n        = s.pick(std::vector<int>{1, 2, 2, 3, 4}), ew = s.integer(1, n);
  double my    = s.logreal(1e3, 3e4), sing = ew < n ? s.sym(150) : 0;
  Vec dir(n, 0);
  double q = 0;
  for (int i = 0; i < ew; i++)
    dir[i] = s.sym(1), q += dir[i] * dir[i];
  if (q < 0.01) dir = Vec(n, 0), dir[0] = 1, q = 1;
  for (double &x : dir)
    x /= std::sqrt(q);
  auto m = std::make_shared<Synth>(n, ew);
  m->V   = [=](const Vec &v, double T) {
    double f = 0, e = 0;
    for (int i = 0; i < n; i++)
      f += dir[i] * v[i];
    for (int i = 0; i < n; i++)
    {
      double y = v[i] - f * dir[i] - (i == n - 1 && ew < n ? sing : 0);
      e += my / 2 * y * y;
    }
    return e + o.D * (T * T - o.T0 * o.T0) * f * f - o.E * T * std::abs(f * f * f) + o.lam / 4 * std::pow(f, 4);
  };
  m->install();
  auto place = [&](double T) {
    Vec p(n, 0);
    for (int i = 0; i < n; i++)
      p[i] = dir[i] * o.f(T);
    if (ew < n) p[n - 1] += sing;
    return p;
  };
  m->vevTreeMin = place(0);
  bool unstable = s.chance(15);
  if (unstable) m->vevTreeMin[s.below(n)] += s.boolean() ? 3 : -3;
  double Ts = s.chance(60) ? 0 : s.real(0, 1.3) * o.Tc, Te = s.chance(75) ? s.real(1.02, 2.5) * o.Tc : s.real(0.3, 1) * o.Tc;
  if (Te < Ts + 0.1) c.discard();
  int which = s.pick(std::vector<int>{2, 6});
  bool mt   = s.chance(15);
  // the broken phase counts from half a GeV on
  double T1 = o.Tc;
  if (o.f(o.Tc * (1 - 1e-9)) < 0.5)
  {
    double x = 0, y = o.Tc;
    for (int i = 0; i < 80; i++)
      (o.f((x + y) / 2) > 0.5 ? x : y) = (x + y) / 2;
    T1 = x;
  }
  c.add("D, lambda, E, T0, Tc", str(Vec{o.D, o.lam, o.E, o.T0, o.Tc}));
  c.add("fields, electroweak", str(Vec{(double)n, (double)ew})).add("direction", str(dir)).add("range", str(Vec{Ts, Te})).add("minimizer", (long)which);
  if (std::abs(Ts - T1) < 0.05 || std::abs(Te - T1) < 0.05) c.discard();
  auto r = PTFinder_gen_all(m, Ts, Te, which, mt);
  c.add("status", (long)r.StatusFlag).add("Tc", r.Tc).add("vc", r.vc).add("minimum", str(r.EWMinimum));
  auto is = [&](MinimizerStatus x, const char *t) {
    c.label(t);
    c.check(r.StatusFlag == x, std::string("expected status: ") + t, "status");
  };
  double fmax = 0;
  for (int i = 0; i <= 100; i++)
  {
    double T = Ts + (std::min(Te, T1) - Ts) * i / 100;
    fmax     = std::max(fmax, o.f(T));
  }
  c.nontrivial();
  if (Te < T1)
  {
    is(MinimizerStatus::NOTVANISHINGATFINALTEMP, "not vanishing at the final temperature");
    c.close(r.vc, o.f(Te), 0, 0.2, "size of the minimum", "size");
    c.check(r.Tc == Te && r.EWMinimum.size() == (std::size_t)n, "report", "report");
    c.close(len(r.EWMinimum), len(place(Te)), 0, 0.5, "minimum", "report");
  }
  else if (Ts > T1 || o.f(Ts) > 255.2)
  {
    is(MinimizerStatus::NLOVEVZEROORINF, "zero or too large");
    c.check(r.Tc == Te && r.vc == 0, "report", "report");
  }
  else if (o.f(Ts) < 254.8 && unstable && Ts == 0)
  {
    bool still = m->CheckNLOVEV(place(0)); // a sign flip
    if (!still)
    {
      is(MinimizerStatus::NOTNLOSTABLE, "not stable");
      c.close(r.vc, o.f(0), 0, 0.2, "size of the minimum", "size");
    }
  }
  else if (fmax < 254.8)
  {
    is(MinimizerStatus::SUCCESS, "success");
    c.close(r.Tc, T1, 0, 0.03 + 1e-4 * T1, "critical temperature", "critical");
    double slack = 0.3 + std::abs(o.f(T1 - 0.05) - o.f(T1 - 0.001));
    c.close(r.vc, o.f(std::min(r.Tc, T1 - 1e-9)), 0, slack, "size of the minimum", "size");
    c.close(m->EWSBVEV(m->MinimizeOrderVEV(r.EWMinimum)), r.vc, 1e-9, 1e-9, "size of the reported minimum", "size");
    Vec a = place(std::min(r.Tc, T1 - 1e-9)), b = a;
    for (int i = 0; i < ew; i++)
      b[i] = -b[i];
    c.check(std::min(dist(r.EWMinimum, a), dist(r.EWMinimum, b)) < slack + 0.3, "reported minimum", "minimum");
  }
}

static void c13_real(Src &s, Ctx &c)
{
  std::string n = s.pick(realModels());
  Point P       = genPoint(s, n);
  c.add("model", n);
  c.add("parameters", str(P.par));
  Model m = initPoint(P);
  if (!m) c.discard();
  int which = 6, k = m->get_nVEV();
  double Ts = s.chance(70) ? 0 : s.real(0, 60), Te = s.real(200, 300);
  bool mt = s.chance(30);
  auto r  = PTFinder_gen_all(m, Ts, Te, which, mt);
  c.add("range", str(Vec{Ts, Te})).add("status", (long)r.StatusFlag).add("Tc", r.Tc).add("vc", r.vc).add("minimum", str(r.EWMinimum));
  c.label("status " + std::to_string((int)r.StatusFlag));
  auto V  = [&](double T) { return [&, T](const Vec &v) { return m->VEff(m->MinimizeOrderVEV(v), T); }; };
  auto ew = [&](const Vec &v) { return m->EWSBVEV(m->MinimizeOrderVEV(v)); };
  if (r.StatusFlag == MinimizerStatus::SUCCESS)
  {
    c.check(r.Tc > Ts && r.Tc < Te, "critical temperature outside of the range", "critical");
    c.close(ew(r.EWMinimum), r.vc, 1e-9, 1e-9, "size of the reported minimum", "size");
    c.check(r.vc > 0 && r.vc < 255, "size", "size");
    // lowest symmetric and broken minimum around the critical temperature
    auto lowest = [&](double T, bool broken, Vec &at) {
      double best = 1e300;
      auto W      = V(T);
      auto U      = [&](const Vec &v) {
        if (broken) return W(v);
        Vec x = v;
        m->SetEWVEVZero(x);
        return W(x);
      };
      for (int i = 0; i < 4; i++)
      {
        Vec p = i == 0 ? r.EWMinimum : i == 1 && !broken ? Vec(k, 0) : s.vec(k, 150);
        p     = descend(U, p, i == 0 ? 1 : 20);
        if (!broken) m->SetEWVEVZero(p);
        if (W(p) < best && len(p) < 1500) best = W(p), at = p;
      }
      return best;
    };
    Vec a(k, 0), b(k, 0), d(k, 0), e(k, 0);
    double lo = r.Tc - 0.01, hi = r.Tc + 0.03;
    double sb = lowest(lo, false, a), bb = lowest(lo, true, b), sh = lowest(hi, false, d), bh = lowest(hi, true, e);
    c.add("below", str(b)).add("above", str(e)).add("differences", str(Vec{bb - sb, bh - sh}));
    double tol = 1e-7 * std::abs(bb) + 20;
    c.check(bb <= sb + tol, "the broken phase is above the symmetric one just below the critical temperature", "below");
    // above, nothing broken is left below the symmetric phase
    c.check(bh >= sh - tol - 0.002 * r.vc * std::pow(r.Tc, 3) * 0.03, "the broken phase is still lower just above the critical temperature", "above");
    c.nontrivial();
  }
  else if (r.StatusFlag == MinimizerStatus::NOTVANISHINGATFINALTEMP)
  {
    c.check(r.Tc == Te, "report", "report");
    c.close(ew(r.EWMinimum), r.vc, 1e-9, 1e-9, "size of the reported minimum", "size");
    Vec z = r.EWMinimum;
    m->SetEWVEVZero(z);
    auto W = V(Te);
    c.check(W(r.EWMinimum) <= W(Vec(k, 0)) + 1, "the reported minimum is above the origin", "report");
    c.nontrivial();
  }
  else if (r.StatusFlag == MinimizerStatus::NOTNLOSTABLE)
  {
    c.check(Ts == 0 && !m->CheckNLOVEV(r.EWMinimum), "report", "report");
    c.close(ew(r.EWMinimum), r.vc, 1e-9, 1e-9, "size of the reported minimum", "size");
    c.check(V(0)(r.EWMinimum) <= V(0)(m->get_vevTreeMin()) + 1 + 1e-6 * std::abs(V(0)(r.EWMinimum)), "the tree-level vacuum is lower", "report");
    c.nontrivial();
  }
}

// ---------------------------------------------------------------- C14
static void c14_plane(Src &s, Ctx &c)
{
  int nw   = s.integer(2, 3);
  int n    = s.integer(2, 5);
  Land l   = genLand(s, c, nw, anyCoeff(s, nw), true, n);
  double T = s.unit() * l.tmax;
  int which = s.pick(std::vector<int>{2, 4, 6, 6});
  Vec a, b;
  if (s.chance(60))
  {
    int i = s.below(nw);
    a = l.place(i, T), b = l.place((i + 1) % nw, T);
  }
  else
    a = s.vec(n, 200), b = s.vec(n, 200);
  if (s.chance(25)) b[s.below(n)] = a[s.below(n)];
  if (s.chance(25))
  { // hardly any extent along the first field
    int k = s.below(n);
    b[k]  = a[k] + s.sym(0.01);
  }
  if (dist(a, b) < 5) c.discard();
  double t = s.real(-0.2, 1.2);
  Vec base(n), nrm(n);
  for (int i = 0; i < n; i++)
    nrm[i] = b[i] - a[i], base[i] = a[i] + t * nrm[i];
  if (s.chance(30))
    for (double &x : base)
      x += s.sym(50);
  double L = len(nrm);
  c.add("T", T).add("from", str(a)).add("to", str(b)).add("base", str(base)).add("minimizer", (long)which);
  auto r = MinimizePlane(base, a, b, l.m, T, which);
  c.add("result", str(r.Minimum));
  c.check(r.Minimum.size() == (std::size_t)n, "dimension", "shape");
  double off = 0;
  for (int i = 0; i < n; i++)
    off += (r.Minimum[i] - base[i]) * nrm[i] / L;
  c.close(off, 0, 0, 1e-6 * (1 + len(r.Minimum)), "distance from the plane", "plane");
  c.close(r.PotVal, l.m->V(r.Minimum, T), 1e-9, 1e-6, "reported potential", "potential");
  // orthonormal basis of the plane
  std::vector<Vec> B;
  for (int i = 0; i < n && (int)B.size() < n - 1; i++)
  {
    Vec e(n, 0);
    e[i]     = 1;
    auto sub = [&](const Vec &q) {
      double d = 0;
      for (int k = 0; k < n; k++)
        d += e[k] * q[k];
      for (int k = 0; k < n; k++)
        e[k] -= d * q[k];
    };
    Vec u = nrm;
    for (double &x : u)
      x /= L;
    for (int twice = 0; twice < 2; twice++)
    {
      sub(u);
      for (auto &q : B)
        sub(q);
    }
    double z = len(e);
    if (z < 0.3 / n) continue;
    for (double &x : e)
      x /= z;
    B.push_back(e);
  }
  auto W = [&](const Vec &y) {
    Vec p = base;
    for (std::size_t k = 0; k < B.size(); k++)
      for (int i = 0; i < n; i++)
        p[i] += y[k] * B[k][i];
    return l.m->V(p, T);
  };
  auto proj = [&](const Vec &p) {
    Vec y(B.size(), 0);
    for (std::size_t k = 0; k < B.size(); k++)
      for (int i = 0; i < n; i++)
        y[k] += (p[i] - base[i]) * B[k][i];
    return y;
  };
  double best = 1e300, near = 0;
  Vec at;
  for (int i = 0; i < 6; i++)
  {
    Vec y = i == 0 ? proj(r.Minimum) : i == 1 ? proj(a) : i == 2 ? proj(b) : s.vec(B.size(), 300);
    y     = descend(W, y, i == 0 ? 1 : 20);
    if (i == 0) near = W(y);
    if (W(y) < best) best = W(y), at = y;
  }
  c.add("potential, best", str(Vec{r.PotVal, best}));
  double tol = 1e-4 * l.E + 0.02 * l.my;
  c.label(std::string(which == 2 ? "GSL" : which == 4 ? "NLopt" : "both") + " " + std::to_string(n) + (r.PotVal <= best + tol ? " found" : " above"));
  bool found = r.PotVal <= best + tol;
  if (which == 6 && n <= 3 && std::abs(best) < 1e10) c.check(found, "a lower point of the plane is " + str(at) + " by " + std::to_string(r.PotVal - best), "minimum");
  // the simplex may collapse, hardly ever, in more dimensions or when rounding hides the minimum
  if (which != 4 && n <= 3 && std::abs(best) < 1e10) c.check(found || r.PotVal <= near + tol, "no minimum in the plane", "local");
  if (found || which == 4) c.nontrivial();
}

static void c14_real(Src &s, Ctx &c)
{
  std::string n = s.pick(realModels());
  if (n == "sm") c.discard(); // one field
  Point P = genPoint(s, n);
  c.add("model", n);
  c.add("parameters", str(P.par));
  Model m = initPoint(P);
  if (!m) c.discard();
  int k    = m->get_nVEV(), which = 6;
  double T = s.real(0, 150), t = s.real(0, 1);
  Vec a = s.chance(60) ? Vec(k, 0) : s.vec(k, 100), b = s.chance(60) ? m->get_vevTreeMin() : s.vec(k, 250);
  if (dist(a, b) < 5) c.discard();
  Vec base(k), nrm(k);
  for (int i = 0; i < k; i++)
    nrm[i] = b[i] - a[i], base[i] = a[i] + t * nrm[i];
  auto V = [&](const Vec &v) { return m->VEff(m->MinimizeOrderVEV(v), T); };
  auto r = MinimizePlane(base, a, b, P.id, m->get_parStored(), m->get_parCTStored(), GetSMConstants(), T, which);
  c.add("T", T).add("from", str(a)).add("to", str(b)).add("base", str(base)).add("result", str(r.Minimum));
  for (double x : r.Minimum)
    if (std::abs(x) > 290) c.discard(); // unbounded, at the edge of the search
  double off = 0;
  for (int i = 0; i < k; i++)
    off += (r.Minimum[i] - base[i]) * nrm[i] / len(nrm);
  c.close(off, 0, 0, 1e-6 * (1 + len(r.Minimum)), "distance from the plane", "plane");
  c.close(r.PotVal, V(r.Minimum), 1e-9, 1e-3, "reported potential", "potential");
  c.check(r.PotVal <= V(base) + 1e-9 * std::abs(V(base)) + 1, "above the base point", "minimum");
  for (int i = 0; i < 30; i++)
  { // points of the plane around the result and elsewhere
    Vec p    = i < 15 ? r.Minimum : base;
    double h = i < 15 ? s.real(0.5, 20) : s.real(5, 300), d = 0;
    Vec e    = s.vec(k, h);
    for (int j = 0; j < k; j++)
      d += e[j] * nrm[j];
    for (int j = 0; j < k; j++)
      p[j] += e[j] - d * nrm[j] / (len(nrm) * len(nrm));
    c.check(r.PotVal <= V(p) + 1e-6 * std::abs(V(p)) + 1e-3 * std::abs(r.PotVal - V(base)) + 100, "a lower point of the plane is " + str(p) + " by " + std::to_string(r.PotVal - V(p)), "minimum");
  }
  c.nontrivial();
}

int main(int argc, char **argv)
{
  std::vector<pbt::Property> P;
  P.push_back({"C12",
               {{"wells", 6000, 200000, c12_wells, "the global minimum was found", 150, false, 0, 0.5},
                {"far", 6000, 200000, c12_far, "the tree-level vacuum is outside of the default box"},
                {"refuse", 60, 2000, c12_refuse, "every case"},
                {"gsl", 6000, 200000, c12_gsl, "every case"},
                {"develop", 1000, 30000, c12_develop, "every case"},
                {"select", 50, 50, c12_select, "every case"},
                {"tree", 60, 3000, c12_tree, "every case"},
                {"real", 30, 1500, c12_real, "every case"}},
               {}});
  P.push_back({"C13",
               {{"bisect", 3000, 100000, c13_bisect, "every case"},
                {"real", 6, 500, c13_real, "a conclusive status"}},
               {}});
  P.push_back({"C14",
               {{"plane", 5000, 150000, c14_plane, "the lowest point of the plane was found, or NLopt alone", 150, false, 0, 0.96},
                {"real", 40, 1500, c14_real, "every case"}},
               {}});
  return main_(P, argc, argv);
}
