// C15 - C18: phases, symmetries, critical temperatures, restoration and stability.
#include "land.hpp"
#include <set>

using namespace pbt;
using BSMPT::CoexPhases;
using BSMPT::Minimum;
using BSMPT::MinimumTracer;
using BSMPT::Phase;
using BSMPT::StatusCoexPair;
using BSMPT::StatusCrit;
using BSMPT::StatusEWSR;
using BSMPT::StatusTracing;
using BSMPT::Vacuum;
using Model = std::shared_ptr<Class_Potential_Origin>;

static std::shared_ptr<MinimumTracer> tracer(const Land &l)
{
  Model m = l.m;
  return std::make_shared<MinimumTracer>(m, 4, false);
}

// ---------------------------------------------------------------- C15
static void orderly(Ctx &c, const std::vector<Minimum> &L, double from, double to)
{
  double sg = to > from ? 1 : -1;
  for (std::size_t i = 0; i < L.size(); i++)
  {
    c.check((L[i].temp - from) * sg >= 0 && (to - L[i].temp) * sg >= 0, "a temperature outside of the range: " + std::to_string(L[i].temp), "order");
    if (i) c.check((L[i].temp - L[i - 1].temp) * sg > 0 || (L[i].temp == L[i - 1].temp && i + 1 == L.size()), "temperatures are not ordered", "order");
    if (i) c.check(dist(L[i].point, L[i - 1].point) < 1.001 * L[i].point.size(), "the phase jumps at T = " + std::to_string(L[i].temp), "continuous");
  }
}

static void c15_wells(Src &s, Ctx &c)
{
  int nw  = s.integer(2, 3);
  bool seek = s.chance(20); // for the global minimum
  Land l  = genLand(s, c, nw, anyCoeff(s, nw), seek);
  auto tr = tracer(l);
  int i   = s.below(nw);
  double a = s.chance(40) ? 0 : s.unit() * l.tmax, b = s.chance(40) ? l.tmax : s.unit() * l.tmax, dT = s.chance(50) ? 1 : s.logreal(0.1, 20);
  if (std::abs(a - b) < 1e-3) c.discard();
  if (s.boolean()) std::swap(a, b);
  if (s.boolean()) dT = -dT; // the sign is taken from the range
  Vec start = l.place(i, a);
  for (double &x : start)
    x += s.sym(0.5) / l.n;
  bool un = s.chance(30);
  c.add("from, to, step", str(Vec{a, b, dT}));
  std::vector<Minimum> L;
  double end = -1;
  bool glob  = seek && !un && std::abs(a - b) < 60 * std::abs(dT);
  if (glob)
    L = tr->TrackPhase(end, start, a, b, dT, false, un);
  else
    L = tr->TrackPhase(start, a, b, dT, false, un);
  c.check(L.size() >= 2, "the phase was not found", "found");
  c.check(L.front().temp == a, "the phase does not start at the first temperature", "ends");
  c.check(L.back().temp == b, "the phase does not reach the last temperature", "ends");
  orderly(c, L, a, b);
  for (auto &m : L)
  {
    c.check(dist(m.point, l.place(i, m.temp)) < 0.05, "not the minimum at T = " + std::to_string(m.temp) + ": " + str(m.point) + " instead of " + str(l.place(i, m.temp)), "minimum");
    c.close(m.potential, l.m->V(m.point, m.temp), 1e-9, 1e-9, "stored potential", "potential");
  }
  if (glob)
  { // where the phase stops being the global minimum
    c.label("with global minimum");
    bool first = true;
    for (auto &m : L)
    {
      std::vector<double> F;
      double me = l.F(i, m.temp), other = 1e300;
      for (int k = 0; k < nw; k++)
        if (k != i) other = std::min(other, l.F(k, m.temp));
      if (std::abs(me - other) < 1e-3 * l.E) break; // nearly degenerate
      if (me > other)
      {
        c.check(end == m.temp || !first, "lost the global minimum at T = " + std::to_string(m.temp) + " but reports " + std::to_string(end), "global");
        first = false;
        break;
      }
      c.check((m.temp - end) * (b - a) <= 0, "the phase is still global at T = " + std::to_string(m.temp) + " after " + std::to_string(end), "global");
    }
  }
  // as a phase
  Phase p;
  p.MinTracer = tr;
  int kind    = std::abs(a - b) > 60 ? s.below(2) : s.below(3); // the third one looks for global minima at every step
  double lo = std::min(a, b), hi = std::max(a, b), mid = lo + (hi - lo) * s.unit();
  if (kind == 0)
    p = Phase(start, a, b, tr);
  else if (kind == 1)
    p = Phase(mid, l.place(i, mid), lo, hi, tr);
  else
    p = Phase(mid, l.place(i, mid), lo, hi, end, tr);
  if (kind == 2 && s.chance(85)) c.label("phase"); // expensive because of the global minima
  c.close(p.T_low, lo, 0, 0, "lowest temperature of the phase", "ends");
  c.close(p.T_high, hi, 0, 0, "highest temperature of the phase", "ends");
  for (int k = 0; k < 12; k++)
  {
    double T  = s.chance(10) ? lo : s.chance(10) ? hi : lo + (hi - lo) * s.unit();
    Minimum m = p.Get(T);
    c.check(std::abs(m.temp - T) < 2e-5, "asked for T = " + std::to_string(T) + " and got " + std::to_string(m.temp), "get");
    T = m.temp; // steps below 1e-5 are not resolved
    c.check(dist(m.point, l.place(i, T)) < 0.05, "not the minimum at T = " + std::to_string(T), "get");
    c.close(m.potential, l.m->V(m.point, T), 1e-9, 1e-9, "potential between the points", "potential");
    for (std::size_t q = 1; q < p.MinimumPhaseVector.size(); q++)
      c.check(p.MinimumPhaseVector[q].temp > p.MinimumPhaseVector[q - 1].temp, "points of the phase are not ordered", "order");
    c.check(p.T_low == p.MinimumPhaseVector.front().temp && p.T_high == p.MinimumPhaseVector.back().temp, "range of the phase is not that of its points", "ends");
  }
  // the phase grows when it is asked for outside of its range
  for (double T : {lo - s.unit() * std::min(lo, 20.0), hi + s.unit() * std::min(20.0, std::max(0.0, l.tmax - hi))})
  {
    Minimum m = p.Get(T);
    c.check(dist(m.point, l.place(i, m.temp)) < 0.05, "not the minimum at T = " + std::to_string(m.temp), "get");
    c.check(p.T_low == p.MinimumPhaseVector.front().temp && p.T_high == p.MinimumPhaseVector.back().temp, "range of the phase is not that of its points", "ends");
  }
  c.nontrivial();
}

// phases that end: V = D (T^2-T0^2) f^2 - E T |f|^3 + lambda/4 f^4
static void c15_ends(Src &s, Ctx &c)
{
  double D = s.real(0.05, 0.5), lam = s.logreal(0.02, 0.5), T0 = s.real(50, 200), ratio = s.real(0.05, 0.9);
  double E  = std::sqrt(8 * lam * D / 9 * ratio); // 9 E^2 = ratio * 8 lambda D
  double T1 = T0 / std::sqrt(1 - ratio);
  int n     = s.pick(std::vector<int>{1, 1, 2, 3});
  double my = s.logreal(3e3, 3e4), tilt = n > 1 ? s.sym(0.5) : 0;
  auto m    = std::make_shared<Synth>(n, 1);
  m->V      = [=](const Vec &v, double T) {
    double f = v[0], e = D * (T * T - T0 * T0) * f * f - E * T * std::abs(f * f * f) + lam / 4 * std::pow(f, 4);
    for (int k = 1; k < n; k++)
      e += my / 2 * std::pow(v[k] - tilt * k * f, 2);
    return e;
  };
  m->install();
  Model mp = m;
  auto tr  = std::make_shared<MinimumTracer>(mp, 4, false);
  auto f   = [&](double T) { return (3 * E * T + std::sqrt(std::max(0.0, 9 * E * E * T * T - 8 * lam * D * (T * T - T0 * T0)))) / (2 * lam); };
  c.add("D, lambda, E, T0, T1", str(Vec{D, lam, E, T0, T1}));
  c.add("fields", (long)n);
  double top   = T1 + s.real(5, 100);
  bool broken  = s.chance(60);
  double from  = broken ? s.real(0, 0.9 * T0) : top, to = broken ? top : s.real(0, 0.7) * T0;
  double sgn   = s.boolean() ? 1 : -1;
  auto place   = [&](double T, double sg) {
    Vec v(n, 0);
    v[0] = broken ? sg * f(T) : 0;
    for (int k = 1; k < n; k++)
      v[k] = tilt * k * v[0];
    return v;
  };
  Vec start = place(from, sgn);
  auto L    = tr->TrackPhase(start, from, to, s.chance(50) ? 1 : s.logreal(0.3, 10), false);
  c.check(L.size() >= 2, "the phase was not found", "found");
  orderly(c, L, from, to);
  c.label(broken ? "broken phase" : "symmetric phase");
  double sector = n == 1 ? 1 : 0; // tilted fields flip together
  for (auto &q : L)
  {
    // beyond its end the phase is gone
    if (broken && q.temp > T1 || !broken && q.temp < T0) continue;
    double sg = q.point[0] < 0 ? -1 : 1;
    if (sector || tilt >= 0)
      if (broken) c.check(q.point[0] > 0, "the point is not in the reduced sector", "sector");
    // close to its end the minimum is as flat as the end is near
    double soft = broken ? std::sqrt(std::max(1e-9, 1 - q.temp / T1)) : std::sqrt(std::max(1e-9, q.temp / T0 - 1));
    if (soft > 0.02) c.check(dist(q.point, place(q.temp, sg)) < 0.1, "not the minimum at T = " + std::to_string(q.temp) + ": " + str(q.point) + " instead of " + str(place(q.temp, sg)), "minimum");
    c.close(q.potential, m->V(q.point, q.temp), 1e-9, 1e-6, "stored potential", "potential");
  }
  double end = L.back().temp, want = broken ? T1 : T0;
  c.add("end, expected", str(Vec{end, want}));
  c.close(end, want, 2e-3, 0.3 * E / D, "end of the phase", "ends"); // curvatures are taken over 0.1 GeV
  c.nontrivial();
}

// no phase
static void c15_none(Src &s, Ctx &c)
{
  Land l  = genLand(s, c, 2, anyCoeff(s, 2));
  auto tr = tracer(l);
  double T = s.unit() * l.tmax, x = l.w->x[0](T), y = l.w->x[1](T), best = -1e300, at = x;
  for (int i = 1; i < 4000; i++)
  {
    double u = x + (y - x) * i / 4000, v = l.w->at(u, T);
    if (v > best) best = v, at = u;
  }
  Vec p(l.n);
  p[0] = at;
  for (int k = 1; k < l.n; k++)
    p[k] = l.slope[k] * at;
  auto L = tr->TrackPhase(p, T, l.tmax + 10, 1, false);
  c.add("point, T", str(p) + " " + std::to_string(T));
  for (auto &m : L)
    c.check(l.well(m.point, m.temp) >= 0, "a point that is no minimum: " + str(m.point), "minimum");
  if (L.empty()) c.nontrivial();
}

static void c15_real(Src &s, Ctx &c)
{
  std::string n = s.pick(realModels());
  Point P       = genPoint(s, n);
  c.add("model", n);
  c.add("parameters", str(P.par));
  Model m = initPoint(P);
  if (!m) c.discard();
  auto tr    = std::make_shared<MinimumTracer>(m, 4, false);
  double top = s.real(20, 120);
  Vec start  = m->get_vevTreeMin();
  auto L     = tr->TrackPhase(start, 0, top, s.chance(70) ? 1 : s.real(0.5, 5), false);
  c.add("to", top);
  if (L.empty())
  {
    c.label("no electroweak minimum");
    c.discard();
  }
  orderly(c, L, 0, top);
  for (std::size_t i = 0; i < L.size(); i += std::max<std::size_t>(1, L.size() / 6))
  {
    auto V = [&](const Vec &v) { return m->VEff(m->MinimizeOrderVEV(v), L[i].temp); };
    c.close(L[i].potential, V(L[i].point), 1e-9, 1e-3, "stored potential", "potential");
    Local q = local(V, L[i].point, 0.2);
    double scale = 1 + L[i].temp * L[i].temp;
    c.check(q.grad < 2e-2 * scale * L[i].point.size() || q.grad < 0.3 * std::abs(q.trace), "no stationary point: gradient " + std::to_string(q.grad) + " at T = " + std::to_string(L[i].temp), "minimum");
    if (i + 1 < L.size()) c.check(q.curv > -1e-3 * std::abs(q.trace) - 1, "no minimum: curvature " + std::to_string(q.curv) + " at T = " + std::to_string(L[i].temp), "minimum");
  }
  if (L.back().temp == top)
  {
    Phase p(start, 0, top, tr);
    for (int k = 0; k < 3; k++)
    {
      double T  = top * s.unit();
      Minimum q = p.Get(T);
      c.check(std::abs(q.temp - T) < 2e-5, "asked for T = " + std::to_string(T) + " and got " + std::to_string(q.temp), "get");
      auto V  = [&](const Vec &v) { return m->VEff(m->MinimizeOrderVEV(v), T); };
      Local o = local(V, q.point, 0.2);
      c.check(o.grad < 2e-2 * (1 + T * T) * q.point.size() || o.grad < 0.3 * std::abs(o.trace), "no stationary point between the points", "get");
    }
    c.label("whole range");
  }
  c.nontrivial();
}

// the list of points against a sorted map
static void c15_points(Src &s, Ctx &c)
{
  Phase p;
  std::map<double, double> ref;
  bool ranged = false;
  int N = s.integer(1, 25);
  std::string h;
  for (int i = 0; i < N; i++)
  {
    Minimum m;
    m.temp      = s.integer(0, 12) * 10;
    m.point     = {(double)i};
    m.potential = i;
    h += std::to_string((int)m.temp) + " ";
    if (i == 0 && s.boolean())
    { // as after tracing
      p.MinimumPhaseVector = {m};
      p.T_low = p.T_high = m.temp;
      ranged = true;
    }
    p.Add(m);
    ref.emplace(m.temp, m.potential); // the first one stays
    c.check(p.MinimumPhaseVector.size() == ref.size(), "number of points", "points");
    std::size_t k = 0;
    for (auto &[t, v] : ref)
    {
      auto &q = p.MinimumPhaseVector[k++];
      c.check(q.temp == t && q.potential == v && q.point[0] == v, "point " + std::to_string(k) + " is not the one that was added", "points");
    }
    if (ref.size() > 1)
    {
      c.check(p.T_low == ref.begin()->first || (!ranged && p.T_low == 0), "lowest temperature", "points");
      c.check(p.T_high == ref.rbegin()->first || (!ranged && p.T_high == 0), "highest temperature", "points");
    }
  }
  c.add("temperatures", h);
  if (ref.size() > 2) c.nontrivial();
}

// ---------------------------------------------------------------- C16
static void c16_group(Src &s, Ctx &c)
{
  int n = s.integer(1, 5);
  // parities of the terms of the potential
  std::vector<std::pair<int, double>> terms;
  int k = s.integer(0, n);
  for (int i = 0; i < k; i++)
    terms.push_back({s.integer(1, (1 << n) - 1), s.real(0.3, 2) * (s.boolean() ? 1 : -1)});
  Vec a2 = s.vec(n, [&] { return s.real(0.5, 2); }), a4 = s.vec(n, [&] { return s.real(0.5, 2); });
  auto m = std::make_shared<Synth>(n, 1);
  m->V   = [=](const Vec &v, double) {
    double r = 0;
    for (int i = 0; i < n; i++)
    {
      double x = v[i] / 100;
      r += a2[i] * x * x + a4[i] * x * x * x * x;
    }
    for (auto &[p, f] : terms)
    {
      double t = f;
      for (int i = 0; i < n; i++)
        if (p >> i & 1) t *= v[i] / 100;
      r += t;
    }
    return 1e6 * r;
  };
  m->install();
  std::string d;
  for (auto &[p, f] : terms)
    d += std::to_string(p) + " ";
  c.add("fields", (long)n);
  c.add("parities", d);
  std::set<int> want, got;
  for (int g = 0; g < (1 << n); g++)
  {
    bool ok = true;
    for (auto &[p, f] : terms)
      ok &= __builtin_parity(p & g) == 0;
    if (ok) want.insert(g);
  }
  Model mp = m;
  MinimumTracer tr(mp, 4, false);
  for (auto &G : tr.GroupElements)
  {
    int g = 0;
    for (int i = 0; i < n; i++)
      for (int j = 0; j < n; j++)
      {
        c.check(G(i, j) == (i == j ? (G(i, i) < 0 ? -1 : 1) : 0), "no sign flip", "group");
        if (i == j && G(i, i) < 0) g |= 1 << i;
      }
    c.check(got.insert(g).second, "a sign flip is listed twice", "group");
  }
  auto show = [](const std::set<int> &x) {
    std::string r;
    for (int i : x)
      r += std::to_string(i) + " ";
    return r;
  };
  c.check(got == want, "symmetry group is {" + show(got) + "} instead of {" + show(want) + "}", "group");
  // one representative of every orbit
  for (int t = 0; t < 6; t++)
  {
    Vec v = s.vec(n, [&] { return s.chance(15) ? 0.0 : s.sym(300); });
    for (double &x : v)
      if (std::abs(x) < 1e-3) x = 0;
    Vec first;
    for (int g : want)
    {
      Vec u = v;
      for (int i = 0; i < n; i++)
        if (g >> i & 1) u[i] = -u[i];
      Vec r = u;
      tr.ReduceVEV(r);
      c.close(m->V(r, 0), m->V(v, 0), 1e-12, 0, "potential of the representative", "representative");
      for (int i = 0; i < n; i++)
        c.check(std::abs(r[i]) == std::abs(v[i]), "the representative is no image of the point", "representative");
      if (first.empty())
        first = r;
      else
        c.check(dist(first, r) == 0, "images of one point are reduced to " + str(first) + " and " + str(r), "canonical");
      Vec again = r;
      tr.ReduceVEV(again);
      c.check(dist(again, r) == 0, "the representative is reduced to something else", "canonical");
    }
  }
  if (want.size() > 1) c.label("symmetric");
  if (want.size() > 1 && want.size() < (1u << n)) c.label("subgroup");
  c.nontrivial();
}

static void c16_real(Src &s, Ctx &c)
{
  std::string n = s.pick(realModels());
  Point P       = genPoint(s, n);
  c.add("model", n);
  c.add("parameters", str(P.par));
  Model m = initPoint(P);
  if (!m) c.discard();
  MinimumTracer tr(m, 4, false);
  int k  = m->get_nVEV();
  auto V = [&](const Vec &v) { return m->VEff(m->MinimizeOrderVEV(v), 0, 0, 0); };
  std::set<int> got;
  for (auto &G : tr.GroupElements)
  {
    int g = 0;
    for (int i = 0; i < k; i++)
      if (G(i, i) < 0) g |= 1 << i;
    got.insert(g);
  }
  std::vector<Vec> pts;
  for (int i = 0; i < 12; i++)
    pts.push_back(s.vec(k, [&] { return s.sym(300); }));
  for (int g = 0; g < (1 << k); g++)
  {
    double worst = 0;
    for (auto &p : pts)
    {
      Vec q = p;
      for (int i = 0; i < k; i++)
        if (g >> i & 1) q[i] = -q[i];
      worst = std::max(worst, std::abs(V(p) - V(q)) / (std::abs(V(p)) + std::abs(V(q))));
    }
    if (worst > 1e-4) c.check(!got.count(g), "sign flip " + std::to_string(g) + " changes the potential by a part of " + std::to_string(worst), "group");
    if (worst < 1e-13) c.check(got.count(g), "sign flip " + std::to_string(g) + " was not found", "group");
  }
  for (int t = 0; t < 4; t++)
  {
    Vec v = s.vec(k, [&] { return s.sym(300); }), first;
    for (int g : got)
    {
      Vec r = v;
      for (int i = 0; i < k; i++)
        if (g >> i & 1) r[i] = -r[i];
      tr.ReduceVEV(r);
      if (first.empty()) first = r;
      c.check(dist(first, r) == 0, "images of one point are reduced to " + str(first) + " and " + str(r), "canonical");
    }
    // flat directions
    Vec f = v;
    tr.ConvertToNonFlatDirections(f);
    c.close(V(f), V(v), 1e-7, 1e-3, "potential without flat directions", "flat");
  }
  // any flat direction is one: rotate or move
  for (auto &p : tr.flat_2D_dirs)
    for (auto q : pts)
    {
      double a = s.real(0, 6.28), x = q[p[0]], y = q[p[1]], v0 = V(q);
      q[p[0]] = x * std::cos(a) - y * std::sin(a), q[p[1]] = x * std::sin(a) + y * std::cos(a);
      c.close(V(q), v0, 1e-7, 1e-3, "potential along the flat direction", "flat");
      c.label("flat direction");
    }
  for (auto p : tr.flat_1D_dirs)
    for (auto q : pts)
    {
      double v0 = V(q);
      q[p]      = s.sym(300);
      c.close(V(q), v0, 1e-7, 1e-3, "potential along the flat direction", "flat");
      c.label("flat direction");
    }
  if (got.size() > 1) c.nontrivial();
}

static void c16_flat(Src &s, Ctx &c)
{
  // blocks: 'n' not flat, 'f' one flat field, 'c' circle, 's' sphere, 'x' exchange of two fields, 'y' exchange of three
  std::string kinds;
  std::vector<char> block; // kind of every field
  std::vector<int> first;  // first field of its block
  bool flat1 = false;
  while (block.size() < 5)
  {
    char k  = s.pick(std::vector<char>{'n', 'n', 'f', 'c', 's', 'x', 'y'});
    int len = k == 'c' || k == 'x' ? 2 : k == 's' || k == 'y' ? 3 : 1;
    if (block.size() + len > 5 || (k == 'f' && flat1))
    {
      if (s.boolean()) break;
      continue;
    }
    if (k == 'f') flat1 = true;
    int f = block.size();
    for (int i = 0; i < len; i++)
      block.push_back(k), first.push_back(f);
    kinds += k;
    if (s.chance(30)) break;
  }
  if (block.empty() || kinds == "f") c.discard();
  int n = block.size();
  // the order of the fields
  std::vector<int> perm(n);
  for (int i = 0; i < n; i++)
    perm[i] = i;
  for (int i = n - 1; i > 0; i--)
    std::swap(perm[i], perm[s.below(i + 1)]);
  Vec a = s.vec(n, [&] { return s.real(0.5, 2); }), b = s.vec(n, [&] { return s.real(0.5, 2); }), cc = s.vec(n, [&] { return s.sym(1); });
  double mix = s.real(0.1, 1);
  auto m     = std::make_shared<Synth>(n, 1);
  m->V       = [=](const Vec &v, double) {
    double r = 0, prod = 1;
    for (int q = 0; q < n; q++)
    {
      double x = v[perm[q]] / 100;
      if (block[q] == 'n')
      {
        r += a[q] * x * x + cc[q] * x * x * x + b[q] * x * x * x * x;
        prod *= 1 + a[q] * x * x;
      }
      if ((block[q] == 'c' || block[q] == 's') && first[q] == q)
      {
        double R = 0;
        for (int j = q; j < n && first[j] == q; j++)
          R += v[perm[j]] * v[perm[j]] / 1e4;
        r += a[q] * R + b[q] * R * R;
        prod *= 1 + b[q] * R;
      }
      if (block[q] == 'x' || block[q] == 'y')
        r += a[first[q]] * x * x + b[first[q]] * x * x * x * x; // sum over the block: symmetric, not flat
    }
    return 1e6 * (r + mix * prod);
  };
  m->install();
  c.add("blocks", kinds);
  c.add("order", str(Vec(perm.begin(), perm.end())));
  std::set<std::vector<std::size_t>> w1, w2, w3, g1, g2, g3;
  std::vector<int> nonflat(n, 1);
  for (int q = 0; q < n; q++)
  {
    if (block[q] == 'f') w1.insert({(std::size_t)perm[q]});
    if ((block[q] == 'c' || block[q] == 's') && first[q] == q)
    {
      std::vector<std::size_t> f;
      for (int j = q; j < n && first[j] == q; j++)
        f.push_back(perm[j]);
      std::sort(f.begin(), f.end());
      for (std::size_t i = 0; i < f.size(); i++)
        for (std::size_t j = i + 1; j < f.size(); j++)
          w2.insert({f[i], f[j]});
      if (f.size() == 3) w3.insert(f);
    }
  }
  Model mp = m;
  MinimumTracer tr(mp, 4, false);
  for (auto i : tr.flat_1D_dirs)
    g1.insert({i});
  for (auto &i : tr.flat_2D_dirs)
    g2.insert(i);
  for (auto &i : tr.flat_3D_dirs)
    g3.insert(i);
  auto show = [](const std::set<std::vector<std::size_t>> &x) {
    std::string r = "{";
    for (auto &i : x)
    {
      r += "(";
      for (auto j : i)
        r += std::to_string(j) + " ";
      r += ")";
    }
    return r + "}";
  };
  c.check(g1 == w1, "flat fields " + show(g1) + " instead of " + show(w1), "flat");
  c.check(g2 == w2, "flat circles " + show(g2) + " instead of " + show(w2), "flat");
  c.check(g3 == w3, "flat spheres " + show(g3) + " instead of " + show(w3), "flat");
  for (auto &i : w1)
    nonflat[i[0]] = 0;
  for (auto &i : w2)
    nonflat[i[1]] = 0;
  c.check(tr.NonFlatDirections == nonflat, "chosen directions", "flat");
  c.check(tr.flat_dirs_found == !(w1.empty() && w2.empty()), "flag of flat directions", "flat");
  // one representative of a circle or sphere
  Vec v = s.vec(n, [&] { return s.sym(300); }), r = v;
  tr.ConvertToNonFlatDirections(r);
  c.close(m->V(r, 0), m->V(v, 0), 1e-11, 0, "potential of the representative", "representative");
  Vec u = v;
  for (auto &p : w2)
  {
    double t = s.real(0, 6.3), x = u[p[0]], y = u[p[1]];
    u[p[0]] = x * std::cos(t) - y * std::sin(t), u[p[1]] = x * std::sin(t) + y * std::cos(t);
  }
  tr.ConvertToNonFlatDirections(u);
  c.check(dist(u, r) < 1e-9 * (1 + dist(r, Vec(n, 0))), "rotated points are reduced to " + str(r) + " and " + str(u), "canonical");
  for (std::size_t i = 0; i < u.size(); i++)
    if (!nonflat[i] && !w1.count({i})) c.check(u[i] == 0, "a flat direction is not removed", "canonical");
  c.label("blocks " + std::to_string(kinds.size()));
  if (!w1.empty() || !w2.empty()) c.label("flat");
  if (kinds.find('x') != std::string::npos || kinds.find('y') != std::string::npos) c.label("exchange symmetry");
  c.nontrivial();
}

// ---------------------------------------------------------------- C17
static Phase knots(const Land &l, std::shared_ptr<MinimumTracer> tr, int i, double lo, double hi, int n)
{
  Phase p;
  p.MinTracer = tr;
  for (int k = 0; k < n; k++)
  {
    Minimum m;
    m.temp      = k == n - 1 ? hi : lo + (hi - lo) * k / (n - 1);
    m.point     = l.place(i, m.temp);
    m.potential = l.F(i, m.temp);
    p.Add(m);
  }
  p.T_low  = lo;
  p.T_high = hi;
  return p;
}
// number of sign changes of a difference of free energies, and the last root
static int roots(const std::function<double(double)> &f, double a, double b, double *root)
{
  int n = 0, N = 4000;
  double p = f(a);
  for (int i = 1; i <= N; i++)
  {
    double t = a + (b - a) * i / N, q = f(t);
    if (p * q < 0)
    {
      n++;
      double x = t - (b - a) / N, y = t;
      for (int k = 0; k < 80; k++)
        (f((x + y) / 2) * p > 0 ? x : y) = (x + y) / 2;
      if (root) *root = x;
    }
    if (q != 0) p = q;
  }
  return n;
}
static void checkPair(Ctx &c, const CoexPhases &cp, const std::function<double(double)> &dF, double scale, double tol = 0)
{
  double a = cp.T_low, b = cp.T_high, root = -1;
  double fa = dF(a), fb = dF(b);
  if (std::abs(fa) < 1e-5 * scale || std::abs(fb) < 1e-5 * scale) return;
  int n = roots(dF, a, b, &root);
  c.add("pair", str(Vec{a, b, fa, fb, (double)n, cp.crit_temp}));
  if (fa > 0 && fb > 0)
  {
    c.check(cp.crit_status == StatusCrit::FalseLower && cp.crit_temp == -1, "the false vacuum is lower at both ends", "crit");
    c.label("false lower");
  }
  else if (fa < 0 && fb < 0)
  {
    c.check(cp.crit_status == StatusCrit::TrueLower && cp.crit_temp == b, "the true vacuum is lower at both ends", "crit");
    c.label("true lower");
  }
  else if (fa < 0 && fb > 0)
  {
    c.check(cp.crit_status == StatusCrit::Success, "there is a critical temperature", "crit");
    c.check(cp.crit_temp >= a && cp.crit_temp <= b, "critical temperature outside of the overlap", "crit");
    if (n == 1)
      c.close(cp.crit_temp, root, 0, tol + 2e-4 + 1e-6 * b, "critical temperature", "crit");
    else
    {
      double h = 1e-3;
      c.check(dF(std::max(a, cp.crit_temp - h)) * dF(std::min(b, cp.crit_temp + h)) <= 0, "the free energies do not cross at the critical temperature", "crit");
    }
    c.label(n == 1 ? "critical temperature" : "several crossings");
  }
  else
  {
    c.check(cp.crit_status == StatusCrit::Failure && cp.crit_temp == -2, "the phases cross the wrong way", "crit");
    c.label("wrong way");
  }
}
static void c17_pair(Src &s, Ctx &c)
{
  Land l   = genLand(s, c, 2, anyCoeff(s, 2));
  auto tr  = tracer(l);
  double a = s.unit() * l.tmax * 0.7, b = a + (l.tmax - a) * s.real(0.05, 1);
  int f    = s.below(2);
  Phase F = knots(l, tr, f, std::max(0.0, a - s.real(0, 20)), b + s.real(0, 20), s.integer(3, 9));
  Phase T = knots(l, tr, 1 - f, std::max(0.0, a - s.real(0, 20)), b + s.real(0, 20), s.integer(3, 9));
  F.id = s.below(5), T.id = s.below(5);
  int id  = s.below(100);
  auto dF = [&](double t) { return l.F(1 - f, t) - l.F(f, t); };
  CoexPhases cp(id, F, T, a, b);
  c.check(cp.coex_pair_id == id && cp.false_phase.id == F.id && cp.true_phase.id == T.id && cp.T_low == a && cp.T_high == b, "the pair does not keep what it was given", "pair");
  checkPair(c, cp, dF, l.E);
  c.nontrivial();
}
// phases that only touch
static void c17_touch(Src &s, Ctx &c)
{
  Land l  = genLand(s, c, 2, anyCoeff(s, 2));
  auto tr = tracer(l);
  double a = (0.2 + 0.6 * s.unit()) * l.tmax, b = a;
  if (s.boolean())
    for (int i = s.integer(1, 40); i > 0; i--)
      b = std::nextafter(b, 1e9);
  Phase F = knots(l, tr, 0, a - 10, b + 20, 4), T = knots(l, tr, 1, a - 20, b + 10, 4);
  CoexPhases cp(0, F, T, a, b);
  double d = l.F(1, a) - l.F(0, a);
  if (std::abs(d) > 1e-4 * l.E)
    c.check(cp.crit_status == (d > 0 ? StatusCrit::FalseLower : StatusCrit::TrueLower), "phases that touch", "crit");
  c.nontrivial();
}

static void c17_vacuum(Src &s, Ctx &c)
{
  int nw = s.integer(2, 3);
  auto k = anyCoeff(s, nw);
  if (s.chance(70))
  { // make them cross: the later wells gain at low temperature
    k[0] = {0, 0, 0};
    double t = 1;
    for (int i = 1; i < nw; i++)
    {
      t *= s.real(0.3, 0.9);
      double g = s.real(0.2, 1) * i;
      k[i]     = {-g * t * t, g, 0};
    }
  }
  Land l     = genLand(s, c, nw, k, true);
  auto tr    = tracer(l);
  int mode   = s.pick(std::vector<int>{-1, -1, 0, 1, 2, 3}), pts = s.pick(std::vector<int>{0, 5, 10});
  double hi  = l.tmax * s.real(0.6, 1), lo = s.chance(70) ? 0 : s.unit() * hi * 0.3;
  Model m    = l.m;
  c.add("mode, points", str(Vec{(double)mode, (double)pts}));
  c.add("range", str(Vec{lo, hi}));
  Vacuum v(lo, hi, tr, m, mode, pts);
  c.add("status", (long)v.status_vacuum);
  c.label("mode " + std::to_string(mode) + (v.status_vacuum == StatusTracing::Success ? " success" : " no success"));
  std::vector<int> id;
  for (std::size_t i = 0; i < v.PhasesList.size(); i++)
  {
    auto &p = v.PhasesList[i];
    int w   = -2;
    c.check(p.MinimumPhaseVector.size() > 1, "a phase without points", "phases");
    for (auto &q : p.MinimumPhaseVector)
    {
      int a = l.well(q.point, q.temp);
      c.check(a >= 0, "a phase with a point that is no minimum: " + str(q.point), "phases");
      c.check(w == -2 || w == a, "one phase in two minima", "phases");
      c.check(q.temp >= lo && q.temp <= hi, "temperature outside of the range", "phases");
      w = a;
    }
    for (int a : id)
      c.check(a != w, "the same phase twice", "phases");
    id.push_back(w);
    c.check(p.T_low == lo && p.T_high == hi, "a phase that exists at all temperatures ends: [" + std::to_string(p.T_low) + ", " + std::to_string(p.T_high) + "]", "phases");
  }
  if (v.status_vacuum != StatusTracing::Success)
  {
    c.check(mode >= 0 || v.PhasesList.empty(), "tracing failed", "status");
    return;
  }
  for (std::size_t i = 0; i < v.PhasesList.size(); i++)
  {
    c.check(v.PhasesList[i].id == (int)i, "number of the phase", "phases");
    if (i) c.check(v.PhasesList[i].T_high <= v.PhasesList[i - 1].T_high, "phases are not sorted", "phases");
  }
  // every global minimum is in one of the phases
  for (int i = 0; i <= 40; i++)
  {
    double T = lo + (hi - lo) * i / 40;
    int g    = l.lowest(T);
    double gap = 1e300;
    for (int j = 0; j < nw; j++)
      if (j != g) gap = std::min(gap, l.F(j, T) - l.F(g, T));
    if (gap < 1e-4 * l.E) continue;
    bool edge = i == 0 || (i == 40);
    if (mode == 0 || mode == 1) edge = false; // only both ends of the range count in these modes; judged below
    if (mode == -1 && !edge)
    { // the grid has to meet it
      bool met = false;
      for (int j = 1; j <= pts; j++)
      {
        double t = lo + (hi - lo) / (pts + 1) * j;
        met |= l.lowest(t) == g;
        if (l.lowest(t) == g)
          for (int q = 0; q < nw; q++)
            if (q != g && l.F(q, t) - l.F(g, t) < 1e-4 * l.E) met = false;
      }
      if (!met) continue;
    }
    if (mode == 2 || mode == 3) edge = i == 0 || i == 40;
    if ((mode == 2 || mode == 3) && !edge) continue;
    bool have = false;
    for (int a : id)
      have |= a == g;
    if (mode >= 0 && !edge && i != 0 && i != 40) continue;
    c.check(have, "the global minimum at T = " + std::to_string(T) + " is in no phase", "coverage");
  }
  // pairs
  std::size_t np = v.PhasesList.size(), want = np * (np - 1) / 2;
  c.check(v.CoexPhasesList.size() == want, std::to_string(v.CoexPhasesList.size()) + " pairs of " + std::to_string(np) + " phases", "pairs");
  c.check((v.status_coex_pairs == StatusCoexPair::Success) == (want > 0), "status of the pairs", "pairs");
  std::set<std::pair<int, int>> seen;
  for (std::size_t i = 0; i < v.CoexPhasesList.size(); i++)
  {
    auto &p = v.CoexPhasesList[i];
    int a = p.false_phase.id, b = p.true_phase.id;
    c.check(a >= 0 && b > a && b < (int)np, "phases of the pair", "pairs");
    c.check(seen.insert({a, b}).second, "a pair is listed twice", "pairs");
    c.check(p.coex_pair_id == (int)i, "number of the pair", "pairs");
    c.check(p.T_low == std::max(v.PhasesList[a].T_low, v.PhasesList[b].T_low) && p.T_high == std::min(v.PhasesList[a].T_high, v.PhasesList[b].T_high), "overlap", "pairs");
    auto dF = [&](double t) { return l.F(id[b], t) - l.F(id[a], t); };
    checkPair(c, p, dF, l.E);
  }
  if (np > 1) c.nontrivial();
}

// phases that begin and end inside of the range
static void c17_folds(Src &s, Ctx &c)
{
  Fold l     = genFold(s, c);
  Model m    = l.m;
  auto tr    = std::make_shared<MinimumTracer>(m, 4, false);
  int mode   = s.pick(std::vector<int>{-1, -1, -1, 0, 1, 2, 3}), pts = s.pick(std::vector<int>{0, 2, 5, 10});
  c.add("mode, points", str(Vec{(double)mode, (double)pts}));
  Vacuum v(l.lo, l.hi, tr, m, mode, pts);
  c.add("status", (long)v.status_vacuum);
  std::string st = v.status_vacuum == StatusTracing::Success ? " success" : v.status_vacuum == StatusTracing::NoCoverage ? " no coverage" : v.status_vacuum == StatusTracing::NoGlobMinCoverage ? " no global minimum" : " failure";
  c.label("mode " + std::to_string(mode) + st);
  std::vector<int> id;
  for (auto &p : v.PhasesList)
  {
    c.add("phase", str(Vec{(double)p.id, p.T_low, p.T_high, p.MinimumPhaseVector.front().point[0], p.MinimumPhaseVector.back().point[0]}));
    int w = -2;
    c.check(p.MinimumPhaseVector.size() > 1, "a phase without points", "phases");
    for (auto &q : p.MinimumPhaseVector)
    {
      int a = l.which(q.point, q.temp);
      c.check(a >= 0, "a phase with a point that is no minimum: " + str(q.point) + " at T = " + std::to_string(q.temp), "phases");
      c.check(w == -2 || w == a, "one phase in two minima", "phases");
      c.check(q.temp >= l.lo && q.temp <= l.hi, "temperature outside of the range", "phases");
      w = a;
    }
    for (int a : id)
      c.check(a != w, "the same phase twice", "phases");
    id.push_back(w);
    c.close(p.T_low, std::max(l.lo, l.bottom(w)), 0, 0.5, "lowest temperature of a phase", "ends");
    c.close(p.T_high, std::min(l.hi, l.top(w)), 0, 0.5, "highest temperature of a phase", "ends");
  }
  if (v.status_vacuum != StatusTracing::Success) return;
  for (std::size_t i = 0; i < v.PhasesList.size(); i++)
  {
    c.check(v.PhasesList[i].id == (int)i, "number of the phase", "phases");
    if (i) c.check(v.PhasesList[i].T_high <= v.PhasesList[i - 1].T_high, "phases are not sorted", "phases");
  }
  // some phase at every temperature
  for (int i = 0; i <= 200; i++)
  {
    double T  = l.lo + (l.hi - l.lo) * i / 200;
    bool have = false;
    for (auto &p : v.PhasesList)
      have |= T >= p.T_low - 0.5 && T <= p.T_high + 0.5;
    c.check(have, "success, but no phase at T = " + std::to_string(T), "coverage");
  }
  // the global minimum where the mode looks for it
  Vec look{l.lo, l.hi};
  if (mode == -1)
    for (int j = 1; j <= pts; j++)
      look.push_back(l.lo + (l.hi - l.lo) / (pts + 1) * j);
  for (double T : look)
  {
    if (l.gap(T) < 1e-3 * l.s * 100) continue;
    bool have = false;
    for (int a : id)
      have |= a == l.lowest(T);
    c.check(have, "the global minimum at T = " + std::to_string(T) + " is in no phase", "coverage");
  }
  std::size_t np = v.PhasesList.size(), k = 0;
  for (std::size_t a = 0; a < np; a++)
    for (std::size_t b = a + 1; b < np; b++)
    {
      auto &A = v.PhasesList[a], &B = v.PhasesList[b];
      double lo = std::max(A.T_low, B.T_low), hi = std::min(A.T_high, B.T_high);
      if (lo > hi) continue;
      c.check(k < v.CoexPhasesList.size(), "a pair is missing", "pairs");
      auto &p = v.CoexPhasesList[k];
      c.check(p.coex_pair_id == (int)k && p.false_phase.id == (int)a && p.true_phase.id == (int)b, "phases of the pair", "pairs");
      // evaluating a phase can move its ends a little
      c.close(p.T_low, lo, 0, 0.01, "overlap", "pairs");
      c.close(p.T_high, hi, 0, 0.01, "overlap", "pairs");
      if (l.soft(id[a], p.T_low) > 0.01 && l.soft(id[b], p.T_low) > 0.01 && l.soft(id[a], p.T_high) > 0.01 && l.soft(id[b], p.T_high) > 0.01)
        checkPair(c, p, [&](double t) { return l.F(id[b], t) - l.F(id[a], t); }, l.s, 0.01);
      else
      { // the ends are the flat ones
        double x = p.T_low + 0.02 * (p.T_high - p.T_low), y = p.T_high - 0.02 * (p.T_high - p.T_low);
        auto dF  = [&](double t) { return l.F(id[b], t) - l.F(id[a], t); };
        double root = -1;
        if (p.T_high - p.T_low > 2 && dF(x) < -100 * l.s && dF(y) > 100 * l.s && roots(dF, x, y, &root) == 1)
        {
          c.check(p.crit_status == StatusCrit::Success, "there is a critical temperature", "crit");
          c.close(p.crit_temp, root, 0, 0.02, "critical temperature", "crit");
          c.label("critical temperature between ends");
        }
      }
      k++;
    }
  c.check(k == v.CoexPhasesList.size(), std::to_string(v.CoexPhasesList.size()) + " pairs instead of " + std::to_string(k), "pairs");
  c.check((v.status_coex_pairs == StatusCoexPair::Success) == (k > 0), "status of the pairs", "pairs");
  if (np > 1) c.nontrivial();
}

// ---------------------------------------------------------------- C18
static void c18_synth(Src &s, Ctx &c)
{
  int n = s.integer(1, 4);
  // V = T^2/2 x M x + T^2 d x + tree level
  Eigen::MatrixXd M = Eigen::MatrixXd::Zero(n, n);
  for (int i = 0; i < n; i++)
  {
    M(i, i) = s.chance(80) ? s.real(0.05, 2) : -s.real(0.05, 1);
    for (int j = 0; j < i; j++)
      if (s.chance(40)) M(i, j) = M(j, i) = s.sym(0.3);
  }
  int new_ = s.integer(1, n);
  Eigen::VectorXd d = Eigen::VectorXd::Zero(n);
  bool tad = s.chance(50);
  if (tad)
    for (int i = 0; i < n; i++)
      if (i >= new_ || s.chance(15)) d[i] = s.sym(60);
  auto m   = std::make_shared<Synth>(n, new_);
  double mu = s.sym(1e4); // of one sign and size: convergence is judged by one direction
  Vec a2   = s.vec(n, [&] { return mu * s.real(0.3, 1); }), a4 = s.vec(n, [&] { return s.real(0.05, 0.5); });
  m->V     = [=](const Vec &v, double T) {
    Eigen::Map<const Eigen::VectorXd> x(v.data(), n);
    double r = T * T * (0.5 * x.dot(M * x) + d.dot(x));
    for (int i = 0; i < n; i++)
      r += a2[i] * v[i] * v[i] + a4[i] * std::pow(v[i], 4);
    return r;
  };
  m->install();
  m->nVEV = n;
  Model mp = m;
  MinimumTracer tr(mp, 4, false);
  Eigen::SelfAdjointEigenSolver<Eigen::MatrixXd> es(M);
  double low = es.eigenvalues()[0];
  Vec flat(M.data(), M.data() + n * n);
  c.add("curvature", str(flat));
  c.add("tadpoles", str(Vec(d.data(), d.data() + n)));
  c.add("electroweak fields", (long)new_);
  if (std::abs(low) < 1e-3) c.discard();
  int r = tr.IsThereEWSymmetryRestoration();
  c.add("verdict", (long)r);
  StatusEWSR st = tr.GetStatusEWSR(r);
  if (low < 0)
  {
    c.check(r == -1 && st == StatusEWSR::NotBFB, "negative curvature, verdict " + std::to_string(r), "verdict");
    c.label("negative curvature");
  }
  else
  {
    Eigen::VectorXd x = -M.ldlt().solve(d);
    double ew = 0;
    for (int i = 0; i < new_; i++)
      ew += x[i] * x[i];
    ew = std::sqrt(ew);
    if (std::abs(ew - 0.5) > 0.01)
    {
      int want = ew > 0.5 ? 2 : 3;
      c.check(r == want && st == (want == 3 ? StatusEWSR::EWSymRes : StatusEWSR::EWSymNonRes), "electroweak vacuum expectation value " + std::to_string(ew) + ", verdict " + std::to_string(r), "verdict");
      c.label(want == 3 ? "restored" : "not restored");
    }
    c.check(tr.HighTemperatureVEV.size() == (std::size_t)n, "no high-temperature minimum", "minimum");
    for (int i = 0; i < n; i++)
      c.close(tr.HighTemperatureVEV[i], x[i], 1e-3, 1e-2, "high-temperature minimum", "minimum");
  }
  c.nontrivial();
}

static void c18_real(Src &s, Ctx &c)
{
  std::string n = s.pick(realModels());
  Point P       = genPoint(s, n, 0.5);
  c.add("model", n);
  c.add("parameters", str(P.par));
  Model m = initPoint(P);
  if (!m) c.discard();
  MinimumTracer tr(m, 4, false);
  int k  = m->get_nVEV();
  int r  = tr.IsThereEWSymmetryRestoration();
  // scale-free potential V(T x, T) / T^4 at very high temperature
  auto low = [&](double T) {
    auto W = [&](const Vec &x) {
      Vec v = x;
      for (double &y : v)
        y *= T;
      return m->VEff(m->MinimizeOrderVEV(v), T) / std::pow(T, 4);
    };
    return local(W, Vec(k, 0), 0.01);
  };
  Local a = low(1e5), b = low(1e6);
  c.add("curvature", str(Vec{a.curv, b.curv}));
  c.add("verdict", (long)r);
  if (!(std::abs(a.curv - b.curv) < 0.1 * std::abs(b.curv)) || std::abs(b.curv) < 1e-2 * b.trace / k) c.discard();
  c.label("verdict " + std::to_string(r));
  if (r == 0) c.discard(); // inconclusive
  if (b.curv < 0)
    c.check(r == -1, "negative curvature at high temperature, verdict " + std::to_string(r), "verdict");
  else
    c.check(r == 3 || r == 2, "positive curvature at high temperature, verdict " + std::to_string(r), "verdict");
  if (n == "sm" || n == "r2hdm" || n == "c2hdm") c.check(r != 2, "doublets have no tadpoles at high temperature", "verdict");
  c.nontrivial();
}

static void c18_globmin(Src &s, Ctx &c)
{
  int nw  = s.integer(2, 3);
  Land l  = genLand(s, c, nw, anyCoeff(s, nw), true);
  auto tr = tracer(l);
  double T = s.chance(40) ? 0 : s.unit() * l.tmax;
  c.add("T", T);
  int g = l.lowest(T);
  double gap = 1e300;
  for (int i = 0; i < nw; i++)
    if (i != g) gap = std::min(gap, l.F(i, T) - l.F(g, T));
  if (gap < 1e-4 * l.E) c.discard();
  for (int i = 0; i < nw; i++)
  {
    Minimum q;
    q.temp  = T;
    q.point = l.place(i, T);
    for (double &x : q.point)
      x += s.sym(0.3) / l.n;
    q.is_glob_min = s.boolean();
    tr->IsGlobMin(q);
    c.check(q.is_glob_min == (i == g), i == g ? "the global minimum is not recognised" : "a local minimum is taken for the global one", "global");
  }
  // stability of the tree-level vacuum
  int ew = s.below(nw);
  l.m->vevTreeMin = l.place(ew, 0);
  g = l.lowest(0);
  gap = 1e300;
  for (int i = 0; i < nw; i++)
    if (i != g) gap = std::min(gap, l.F(i, 0) - l.F(g, 0));
  if (gap < 1e-4 * l.E) c.discard();
  Vec got = tr->ConvertToVEVDim(tr->GetGlobalMinimum(0));
  // sign conventions are ignored by the comparison of the models
  for (int i = 0; i < nw; i++)
  {
    bool same = i != ew;
    Vec a = l.place(i, 0), b = l.place(ew, 0);
    for (int k = 0; k < l.n; k++)
      same &= std::abs(std::abs(a[k]) - std::abs(b[k])) < 3;
    if (same) c.discard();
  }
  auto st = tr->GetStatusNLOVEV(l.m->CheckNLOVEV(got));
  c.check((st == BSMPT::StatusNLOStability::Success) == (ew == g), "stability of the vacuum", "stable");
  c.label(ew == g ? "stable" : "unstable");
  c.nontrivial();
}

int main(int argc, char **argv)
{
  std::vector<pbt::Property> P;
  P.push_back({"C15",
               {{"wells", 3000, 60000, c15_wells, "phases over a range of temperatures"},
                {"ends", 6000, 200000, c15_ends, "a phase with a known end"},
                {"none", 6000, 200000, c15_none, "tracing from a maximum refused"},
                {"points", 20000, 1000000, c15_points, "three points or more"},
                {"real", 15, 800, c15_real, "the electroweak phase was traced"}},
               {"minima move by less than a GeV per GeV of temperature, except at the end of a phase"}});
  P.push_back({"C16",
               {{"group", 20000, 600000, c16_group, "every case"},
                {"flat", 20000, 600000, c16_flat, "every case"},
                {"real", 300, 10000, c16_real, "a model with symmetries"}},
               {}});
  P.push_back({"C17",
               {{"pair", 6000, 200000, c17_pair, "every case"},
                {"touch", 3000, 60000, c17_touch, "every case", 20, true},
                {"vacuum", 1200, 40000, c17_vacuum, "two phases or more"},
                {"folds", 600, 20000, c17_folds, "two phases or more", 40, true}},
               {}});
  P.push_back({"C18",
               {{"synth", 20000, 600000, c18_synth, "every case"},
                {"real", 100, 3000, c18_real, "a conclusive verdict"},
                {"globmin", 3000, 100000, c18_globmin, "minima are not degenerate"}},
               {}});
  return main_(P, argc, argv);
}
