// C21, C22: transition temperatures, strength, inverse time scale, wall velocity.
#include "synth.hpp"
#include <BSMPT/bounce_solution/bounce_solution.h>

using namespace pbt;
using BSMPT::BounceActionInt;
using BSMPT::BounceSolution;
using BSMPT::CoexPhases;
using BSMPT::Minimum;
using BSMPT::MinimumTracer;
using BSMPT::Phase;
using BSMPT::StatusGW;
using ST = BSMPT::StatusTemperature;
using LD = long double;

static std::shared_ptr<BSMPT::Class_Potential_Origin> theModel()
{
  static std::shared_ptr<BSMPT::Class_Potential_Origin> m =
      BSMPT::ModelID::FChoose(BSMPT::ModelID::ModelIDs::SM, BSMPT::GetSMConstants());
  return m;
}

// ---------------------------------------------------------------- action curves
struct Curve
{
  Vec T, S3;
  double Tc;
  std::string kind;
};
// S3/T = 140 somewhere in the grid, most of the time
static Curve genCurve(Src &s, Ctx &c)
{
  Curve q;
  q.Tc      = s.logreal(30, 300);
  double ts = s.real(0.3, 0.97);
  int kind  = s.below(4);
  std::function<double(double)> f;
  if (kind == 0)
  { // thin-wall like
    double p = s.real(0.2, 2), e = s.real(1.5, 2.5);
    f        = [=](double t) { return std::pow(t, p) / std::pow(1.001 - t, e); };
    q.kind   = "diverging at Tc";
  }
  else if (kind == 1)
  { // straight in log
    double k = s.logreal(1, 100);
    f        = [=](double t) { return std::exp(k * (t - 1)); };
    q.kind   = "exponential";
  }
  else if (kind == 2)
  { // supercooled: grows again towards low temperatures
    double m = s.real(0.3, 0.9), w = s.real(0.05, 0.5), d = s.real(0.5, 1.2);
    f        = [=](double t) { return d + std::pow((t - m) / w, 2); };
    ts       = s.chance(50) ? m + w * s.real(-1, 1) : ts;
    ts       = std::min(0.97, std::max(0.3, ts));
    q.kind   = "with a minimum";
  }
  else
  {
    double k = s.real(1, 8), a = s.real(0, 0.3), w = s.real(3, 15), ph = s.real(0, 6);
    f        = [=](double t) { return std::exp(k * (t - 1)) * (1 + a * std::sin(w * t + ph)); };
    q.kind   = "wiggling";
  }
  double A = (s.chance(85) ? 140 : s.real(60, 260)) / f(ts);
  double lo = s.chance(70) ? ts * s.real(0.5, 0.98) : s.real(0.1, 0.9), hi = s.chance(70) ? ts + (0.998 - ts) * s.unit() : lo + (0.998 - lo) * s.unit();
  if (hi < lo + 0.01) hi = std::min(0.999, lo + 0.01);
  int n = s.integer(4, s.chance(50) ? 12 : 40);
  for (int i = 0; i < n; i++)
  {
    double u = (i + (s.chance(50) || i == 0 || i == n - 1 ? 0 : s.real(-0.35, 0.35))) / (n - 1);
    double t = lo + (hi - lo) * u;
    q.T.push_back(t * q.Tc);
    q.S3.push_back(A * f(t) * t * q.Tc);
  }
  c.label(q.kind);
  c.add("Tc", q.Tc);
  c.add("T", str(q.T));
  c.add("S3", str(q.S3));
  return q;
}
static BounceSolution make(const Curve &q, double v, double g)
{
  BounceSolution b(theModel());
  b.Tc = q.Tc;
  b.Tm = 1e10; // no further actions are calculated
  b.SetGstar(g);
  b.vwall = b.UserDefined_vwall = v;
  for (std::size_t i = 0; i < q.T.size(); i++)
  {
    BounceActionInt a;
    a.T      = q.T[i];
    a.Action = q.S3[i];
    b.SolutionList.push_back(a);
  }
  b.SetBounceSol();
  return b;
}
struct Ref
{
  const Curve &q;
  const BounceSolution &b;
  LD v, g;
  LD S3(LD T) const { return b.S3ofT_spline((double)T); }
  LD H(LD T) const { return acosl(-1.0L) * sqrtl(g / 90) * T * T / 2.4e18L; }
  LD rate(LD T) const
  {
    if (T < q.T.front() || T > q.T.back()) return 0;
    LD S = S3(T);
    if (S <= 0) return 0;
    return powl(T, 4) * powl(S / (2 * acosl(-1.0L) * T), 1.5L) * expl(-S / T);
  }
  LD lnGH(LD T) const // log of rate / H^4
  {
    LD S = S3(T), p = acosl(-1.0L);
    return 4 * logl(T) + 1.5L * logl(S / (2 * p * T)) - S / T - 4 * logl(H(T));
  }
  // expected number of bubbles that cover a point; the conformal distance is exact
  LD I(LD T) const
  {
    LD p = acosl(-1.0L), k = 1 / (p * sqrtl(g / 90) / 2.4e18L), r = 0;
    static const LD x[4] = {0.1834346424956498L, 0.5255324099163290L, 0.7966664774136267L, 0.9602898564975363L};
    static const LD w[4] = {0.3626837833783620L, 0.3137066458778873L, 0.2223810344533745L, 0.1012285362903763L};
    for (std::size_t i = 0; i + 1 < q.T.size(); i++)
    {
      LD a = std::max<LD>(T, q.T[i]), b2 = q.T[i + 1];
      if (b2 <= a) continue;
      int n = 48;
      LD h  = (b2 - a) / n;
      for (int j = 0; j < n; j++)
        for (int m = 0; m < 4; m++)
          for (int sg = -1; sg <= 1; sg += 2)
          {
            LD t = a + (j + 0.5L + sg * x[m] / 2) * h;
            LD d = k * (1 / T - 1 / t);
            r += w[m] * h / 2 * rate(t) / (powl(t, 4) * H(t)) * d * d * d;
          }
    }
    return 4 * p / 3 * v * v * v * r;
  }
  bool wild() const // the quadrature is noisy where the rate changes by hundreds of orders of magnitude
  {
    bool r = false;
    for (std::size_t i = 0; i + 1 < q.T.size(); i++)
      r |= q.S3[i + 1] > 1.5 * q.S3[i];
    return r;
  }
  LD root(LD goal) const
  {
    LD a = q.T.front(), e = q.T.back();
    for (int i = 0; i < 60; i++)
      (I((a + e) / 2) > goal ? a : e) = (a + e) / 2;
    return a;
  }
  // how fast the number of bubbles changes with the temperature
  LD slope(LD T) const { return std::abs(logl(I(T * (1 + 1e-6L)) / I(T * (1 - 1e-6L))) / 2e-6L); }
  // is the number of bubbles the goal, as far as the quadrature of a wild curve can tell?
  bool reached(LD T, LD goal, LD tol) const
  {
    LD y = I(T) / goal;
    if (std::abs(y - 1) <= (wild() ? std::max(tol, 0.03L) : tol)) return true;
    LD e = (wild() ? 3e-4L : 3e-6L) * T;
    return I(std::max<LD>(T - e, q.T.front())) >= goal && I(std::min<LD>(T + e, q.T.back())) <= goal;
  }
  bool positive() const // the action curve is positive and not wild between its points
  {
    for (std::size_t i = 0; i + 1 < q.T.size(); i++)
      for (int j = 0; j <= 40; j++)
      {
        double t = q.T[i] + (q.T[i + 1] - q.T[i]) * j / 40;
        if (!(S3(t) > 0.05 * std::min(q.S3[i], q.S3[i + 1]))) return false;
      }
    return true;
  }
  // does fn change sign on a dense grid, and between which temperatures for the first time from above
  template <class F> int crossings(F fn, double *lo = nullptr, double *hi = nullptr) const
  {
    int n    = 0;
    double p = 0, tp = 0;
    for (int i = (int)q.T.size() - 1; i >= 0; i--)
      for (int j = 0; j < (i ? 40 : 1); j++)
      {
        double t = i ? q.T[i] - (q.T[i] - q.T[i - 1]) * j / 40 : q.T[0], y = (double)fn(t);
        if (p != 0 && y * p < 0)
        {
          if (!n)
          {
            if (lo) *lo = t;
            if (hi) *hi = tp;
          }
          n++;
        }
        if (y != 0) p = y, tp = t;
      }
    return n;
  }
};

static void checkRoot(Ctx &c, const Ref &r, ST st, double T, std::function<LD(double)> fn, const std::string &what, double tol)
{
  double lo = 0, hi = 0;
  int n = r.crossings(fn, &lo, &hi);
  bool straddle = false, pos = false, neg = false;
  for (double t : r.q.T)
    (fn(t) > 0 ? pos : neg) = true;
  straddle = pos && neg;
  if (straddle) c.check(st == ST::Success, what + " exists but was not found", what);
  if (n == 0) c.check(st != ST::Success, what + " does not exist but was found at " + std::to_string(T), what);
  if (st != ST::Success)
  {
    c.check(st == ST::NotMet && T == -1, what + " that is not met must be -1", what);
    return;
  }
  c.check(T >= r.q.T.front() && T <= r.q.T.back(), what + " outside of the known actions", what);
  double d = 2e-10 * T + 1e-9;
  double a = (double)fn(T - d), b = (double)fn(T + d), y = (double)fn(T);
  c.check(std::abs(y) <= tol || a * b <= 0, what + " is not a root: " + std::to_string(y) + " at T=" + std::to_string(T), what);
  // the highest root, if there is just one down to the first point on the other side
  int m = 0;
  for (int i = (int)r.q.T.size() - 1; i > 0 && !m; i--)
  {
    if ((fn(r.q.T[i - 1]) > 0) == (fn(r.q.T.back()) > 0)) continue;
    m = r.crossings([&](double t) { return t >= r.q.T[i - 1] ? fn(t) : (LD)0; });
  }
  if (n == 1 || m == 1) c.check(T >= lo - 1e-6 * T && T <= hi + 1e-6 * T, what + " is not the highest root", what);
  if (n > 1) c.label(m == 1 ? "highest of several roots" : "several roots");
}

// ---------------------------------------------------------------- C21
static void c21_temperatures(Src &s, Ctx &c)
{
  Curve q  = genCurve(s, c);
  double v = s.chance(40) ? 0.95 : s.real(0.05, 1), g = s.chance(50) ? 106.75 : s.real(80, 130);
  c.add("vwall", v);
  c.add("g*", g);
  BounceSolution b = make(q, v, g);
  c.check(b.status_bounce_sol == StatusGW::Success, "four actions are enough", "status");
  Ref r{q, b, v, g};
  if (!r.positive()) c.discard();
  for (std::size_t i = 0; i < q.T.size(); i++)
    c.close(b.GetBounceSol(q.T[i]), q.S3[i], 1e-9, 0, "action at a calculated temperature", "spline");
  double t = q.T.front() + (q.T.back() - q.T.front()) * s.unit();
  c.close(b.TunnelingRate(t), (double)r.rate(t), 1e-9, 1e-300, "tunnelling rate", "rate");
  c.check(b.TunnelingRate(q.T.front() * 0.99) == 0 && b.TunnelingRate(q.T.back() * 1.001) == 0, "no rate is known outside", "rate");
  b.CalculateNucleationTempApprox();
  checkRoot(c, r, b.status_nucl_approx, b.GetNucleationTempApprox(), [&](double T) { return r.S3(T) / T - 140; }, "S3/T = 140", 1e-5);
  b.CalculateNucleationTemp();
  checkRoot(c, r, b.status_nucl, b.GetNucleationTemp(), [&](double T) { return r.lnGH(T); }, "rate = H^4", 1e-5);
  if (b.status_nucl == ST::Success) c.nontrivial();
}

static void c21_fraction(Src &s, Ctx &c)
{
  Curve q  = genCurve(s, c);
  double v = s.chance(40) ? 0.95 : s.real(0.05, 1), g = s.chance(50) ? 106.75 : s.real(80, 130);
  c.add("vwall", v);
  c.add("g*", g);
  BounceSolution b = make(q, v, g);
  Ref r{q, b, v, g};
  if (!r.positive()) c.discard();
  double t = q.T.front() + (q.T.back() - q.T.front()) * s.real(0, 0.95);
  LD I     = r.I(t);
  double P = b.CalcFalseVacFraction(t);
  c.check(P >= 0 && P <= 1, "fraction outside 0..1", "fraction");
  if (r.wild())
  {
    LD a = r.I(std::max(t * (1 - 3e-4), q.T.front())), e = r.I(std::min(t * (1 + 3e-4), q.T.back()));
    c.check(P <= (double)expl(-e) + 1e-6 && P >= (double)expl(-a) - 1e-6, "false vacuum fraction at T=" + std::to_string(t) + ": " + std::to_string(P), "fraction");
  }
  else
  c.close(P, (double)expl(-I), 0, 1e-5 * std::max(1e-3, (double)(I * expl(-I))) + 1e-12, "false vacuum fraction at T=" + std::to_string(t), "fraction");
  if (I > 1e-4 && I < 50) c.label("fraction between 0 and 1");
  // percolation and completion, in any order, repeated, with default or other fractions
  double f1 = s.chance(50) ? 0.71 : s.real(0.3, 0.95), f2 = s.chance(50) ? 0.01 : s.real(0.001, 0.2);
  c.add("fractions", std::to_string(f1) + " " + std::to_string(f2));
  int order = s.below(3);
  if (order == 0) b.CalculateCompletionTemp(f2);
  b.CalculatePercolationTemp(f1);
  if (order == 2) b.CalculatePercolationTemp(f1);
  b.CalculateCompletionTemp(f2);
  bool steep = false;
  auto look  = [&](ST st, double T, double f, const std::string &what) {
    LD goal = -logl(f);
    LD top = r.I(q.T.back()), bottom = r.I(q.T.front());
    // the calculation only uses temperatures with a known action
    bool exists = bottom > goal * 1.001L && top < goal, none = bottom < goal * 0.999L;
    if (exists && st != ST::Success)
    { // where is it, and does the number of bubbles change too fast there for its stated precision?
      LD a = r.root(goal), slope = r.slope(a);
      c.add("expected", "T=" + std::to_string((double)a) + " slope " + std::to_string((double)slope));
      if (slope < 2e4) c.fail(what + " exists but was not found", what);
      c.label("too steep");
      steep = true;
    }
    if (none) c.check(st != ST::Success, what + " was found at " + std::to_string(T) + " but is never reached", what);
    if (st != ST::Success)
    {
      c.check(st == ST::NotMet && T == -1, what + " that is not met must be -1", what);
      return;
    }
    c.check(r.reached(T, goal, 2e-3), what + " is not where the fraction is reached: " + std::to_string((double)(r.I(T) / goal)), what);
    c.check(T < q.Tc && T >= q.T.front(), what + " outside of the known actions", what);
    c.nontrivial();
  };
  look(b.status_perc, b.GetPercolationTemp(), f1, "percolation");
  look(b.status_compl, b.GetCompletionTemp(), f2, "completion");
  if (b.status_perc == ST::Success && b.status_compl == ST::Success)
  {
    c.check(b.GetPercolationTemp() >= b.GetCompletionTemp(), "completion before percolation", "order");
    c.label("completes");
  }
  if (b.status_compl == ST::Success && !steep) c.check(b.status_perc == ST::Success, "completion without percolation", "order");
}

// fewer than four actions
static void c21_few(Src &s, Ctx &c)
{
  Curve q = genCurve(s, c);
  int n   = s.integer(1, 3);
  q.T.resize(n);
  q.S3.resize(n);
  BounceSolution b = make(q, 0.95, 106.75);
  c.check(b.status_bounce_sol == StatusGW::Failure, "a curve needs four actions", "few");
  b.CalculateNucleationTempApprox();
  b.CalculateNucleationTemp();
  b.CalculatePercolationTemp();
  b.CalculateCompletionTemp();
  c.check(b.status_nucl_approx == ST::NotSet && b.status_nucl == ST::NotSet && b.status_perc == ST::NotSet &&
              b.status_compl == ST::NotSet,
          "status without a curve", "few");
  c.check(b.Tnucl == -1 && b.Tnucl_approx == -1 && b.Tperc == -1 && b.Tcompl == -1, "temperature without a curve", "few");
  c.nontrivial();
}

// ---------------------------------------------------------------- C22
// two wells with known free energies
struct TwoWells
{
  std::shared_ptr<Synth> m;
  std::shared_ptr<Wells> w;
  std::shared_ptr<MinimumTracer> tr;
};
static TwoWells genWells(Src &s, Ctx &c, double Tc, double strength)
{
  TwoWells r;
  double a0 = s.sym(30), a1 = s.sym(0.05), d = s.real(60, 300) + 0.25 * Tc, b1 = s.sym(0.2);
  if (s.chance(50)) d = -d;
  // the true vacuum gains on the false one below Tc
  double L = strength * std::pow(Tc, 4), gf = s.real(5, 40), n = s.real(1, 3);
  r.w    = std::make_shared<Wells>();
  r.w->x = {[=](double T) { return a0 + a1 * T; }, [=](double T) { return a0 + d + b1 * T * (d > 0 ? -1 : 1); }};
  r.w->F = {[=](double T) { return -gf * std::pow(T, 4); },
            [=](double T) { return -gf * std::pow(T, 4) + L / n * (std::pow(T / Tc, n) - 1); }};
  r.w->dF = {[=](double T) { return -4 * gf * std::pow(T, 3); },
             [=](double T) { return -4 * gf * std::pow(T, 3) + L / Tc * std::pow(T / Tc, n - 1); }};
  r.w->k = std::pow(std::abs(d), 2) * s.real(3e3, 2e4) + 30 * L;
  auto w = r.w;
  int nf = s.integer(1, 3);
  double my = s.real(5e3, 5e4);
  r.m    = std::make_shared<Synth>(nf, 1);
  r.m->V = [=](const Vec &v, double T) {
    double e = w->at(v[0], T);
    for (std::size_t i = 1; i < v.size(); i++)
    {
      double y = v[i] - 0.3 * i * v[0];
      e += my / 2 * y * y;
    }
    return e;
  };
  r.m->install();
  r.tr                = std::make_shared<MinimumTracer>();
  r.tr->modelPointer  = r.m;
  r.tr->GroupElements = {};
  c.add("wells", str(Vec{a0, a1, d, b1, gf, n, L, r.w->k, (double)nf, my}));
  return r;
}
static Vec place(const TwoWells &w, int i, double T)
{
  Vec v(w.m->get_nVEV());
  v[0] = w.w->x[i](T);
  for (std::size_t k = 1; k < v.size(); k++)
    v[k] = 0.3 * k * v[0];
  return v;
}
static Phase phase(const TwoWells &w, int i, double lo, double hi, int n)
{
  Phase p;
  p.MinTracer = w.tr;
  for (int k = 0; k < n; k++)
  {
    Minimum m;
    m.temp      = lo + (hi - lo) * k / (n - 1);
    m.point     = place(w, i, m.temp);
    m.potential = w.w->F[i](m.temp);
    p.Add(m);
  }
  p.T_low  = lo;
  p.T_high = hi;
  return p;
}

static void c22_strength(Src &s, Ctx &c)
{
  Curve q         = genCurve(s, c);
  double g        = s.chance(50) ? 106.75 : s.real(80, 130);
  double strength = s.logreal(3e-3, 300);
  TwoWells w      = genWells(s, c, q.Tc, strength);
  int opt         = s.below(4);
  double ud       = opt == 0 ? -1 : opt == 1 ? -2 : opt == 2 ? 0.95 : s.real(0.05, 1);
  c.add("g*", g);
  c.add("wall velocity option", ud);
  BounceSolution b = make(q, ud >= 0 ? ud : 0.95, g);
  b.modelPointer      = w.m;
  b.UserDefined_vwall = ud;
  b.MinTracer         = w.tr;
  b.phase_pair.false_phase = phase(w, 0, q.T.front() * 0.8, q.Tc, 6);
  b.phase_pair.true_phase  = phase(w, 1, q.T.front() * 0.8, q.Tc, 6);
  Ref r0{q, b, 0.95, g};
  if (!r0.positive()) c.discard();
  bool thrown = false;
  try
  {
    b.CalculatePTStrength();
  }
  catch (std::runtime_error &)
  {
    thrown = true;
  }
  c.check(thrown, "strength before percolation must be refused", "refuse");
  thrown = false;
  try
  {
    b.GetInvTimeScale();
  }
  catch (std::runtime_error &)
  {
    thrown = true;
  }
  c.check(thrown, "inverse time scale before percolation must be refused", "refuse");
  b.CalculatePercolationTemp();
  if (b.status_perc != ST::Success) c.discard();
  // every wall velocity percolates somewhere in the curve
  Ref rs{q, b, 0.1, g};
  if (rs.I(q.T.front()) < 0.4) c.discard();
  b.CalculatePTStrength();
  double T = b.GetPercolationTemp(), v = b.GetWallVelocity(), al = b.GetPTStrength();
  c.add("result", str(Vec{T, v, al}));
  Ref r{q, b, v, g};
  LD goal = -logl(0.71L);
  if (T < 0)
  { // the number of bubbles changes too fast for this wall velocity
    c.check(r.slope(r.root(goal)) > 2e4, "no percolation temperature for the wall velocity", "consistent");
    c.discard();
  }
  auto at     = [&](Vec p, double u) { return w.m->V(p, u); };
  auto slopeT = [&](const Vec &p, double t) { return (8 * (at(p, t + 1e-3) - at(p, t - 1e-3)) - (at(p, t + 2e-3) - at(p, t - 2e-3))) / 12e-3; };
  auto alphaAt = [&](double t) {
    double rho = g * M_PI * M_PI / 30 * std::pow(t, 4);
    // the minima that were found are only as exact as their gradient
    Vec p0v = b.phase_pair.false_phase.Get(t).point, p1v = b.phase_pair.true_phase.Get(t).point;
    for (int i = 0; i < 2; i++)
    {
      Vec want = place(w, i, t), got = i ? p1v : p0v;
      for (std::size_t k = 0; k < want.size(); k++)
        c.close(got[k], want[k], 0, 0.05, "minimum of the phase at the percolation temperature", "minimum");
    }
    double dV = w.w->F[0](t) - w.w->F[1](t), dd = slopeT(p0v, t) - slopeT(p1v, t);
    return (dV - t / 4 * dd) / rho;
  };
  double scaleA = strength / g;
  c.close(al, alphaAt(T), 1e-4, 1e-6 * scaleA + 1e-9, "strength at the percolation temperature", "alpha");
  c.check(r.reached(T, goal, 5e-3), "percolation temperature for the wall velocity: " + std::to_string((double)(r.I(T) / goal)), "consistent");
  double cs = 1 / std::sqrt(3.0), vcj = (cs + std::sqrt(al * al + 2 * al / 3)) / (1 + al);
  if (ud >= 0)
    c.close(v, ud, 0, 0, "wall velocity that was set", "vwall");
  else if (b.UserDefined_vwall == 0.95)
  {
    c.label("wall velocity did not converge");
    c.close(v, 0.95, 0, 0, "wall velocity if none was found", "vwall");
  }
  else if (ud == -1)
  {
    double rho = g * M_PI * M_PI / 30 * std::pow(T, 4), want = std::sqrt((w.w->F[0](T) - w.w->F[1](T)) / (al * rho));
    if (std::abs(want - vcj) > 1e-4 * vcj) c.close(v, want > vcj ? 1 : want, 1e-4, 0, "wall velocity in local equilibrium", "vwall");
    c.label("local equilibrium");
    if (want > vcj) c.label("faster than Jouguet");
  }
  else
  {
    double psi = slopeT(b.phase_pair.true_phase.Get(T).point, T) / slopeT(b.phase_pair.false_phase.Get(T).point, T), a = 0.2233, bb = 1.704, p = -3.433;
    double x = std::abs((3 * al + psi - 1) / (2 * (2 - 3 * psi + std::pow(psi, 3))));
    double y = std::abs(vcj * (1 - a * std::pow(1 - psi, bb) / al));
    double want = std::pow(std::pow(x, p / 2) + std::pow(y, p / 2), 1 / p);
    c.close(v, want, 1e-2, 0, "fitted wall velocity", "vwall");
    c.label("fitted");
  }
  if (ud >= 0 || b.UserDefined_vwall != 0.95) c.check(v > 0, "wall velocity is not positive", "vwall");
  // inverse time scale
  double h = 1e-4 * T;
  auto sT  = [&](double t) { return (double)(r.S3(t) / t); };
  double i = 1e100, o = -1e100; // keep the stencil inside of one piece of the curve
  for (double t : q.T)
  {
    if (t > T) i = std::min(i, t - T);
    if (t <= T) o = std::max(o, t - T);
  }
  h = std::min(h, std::max(1e-7 * T, std::min(i, -o) / 2.5));
  double d = (8 * (sT(T + h) - sT(T - h)) - (sT(T + 2 * h) - sT(T - 2 * h))) / (12 * h);
  b.CalculateInvTimeScale();
  c.close(b.GetInvTimeScale(), T * d, 1e-5, 1e-3 + 1e-11 * T / h * 140, "inverse time scale", "beta");
  c.nontrivial();
}

// which image of the true vacuum is nearest
static void c22_symmetry(Src &s, Ctx &c)
{
  int n = s.integer(1, 5);
  BounceSolution b(theModel());
  auto tr         = std::make_shared<MinimumTracer>();
  auto point      = [&](Vec x) {
    Phase p;
    p.MinTracer = tr;
    Minimum m;
    m.temp  = 100;
    m.point = x;
    p.Add(m);
    return p;
  };
  Vec f(n), t(n);
  for (int i = 0; i < n; i++)
  {
    f[i] = s.chance(30) ? 0 : s.sym(200);
    t[i] = s.chance(20) ? 0 : s.sym(200);
  }
  b.Tc = 100;
  b.phase_pair.false_phase = point(f);
  b.phase_pair.true_phase  = point(t);
  int k = s.integer(1, 8);
  for (int i = 0; i < k; i++)
  {
    Eigen::MatrixXd M = Eigen::MatrixXd::Identity(n, n);
    if (i || s.chance(20))
      for (int j = 0; j < n; j++)
        if (s.boolean()) M(j, j) = -1;
    b.GroupElements.push_back(M);
  }
  c.add("false", str(f));
  c.add("true", str(t));
  b.CalculateOptimalDiscreteSymmetry();
  double best = 1e300;
  auto dist   = [&](const Eigen::MatrixXd &M) {
    double r = 0;
    for (int i = 0; i < n; i++)
    {
      double x = 0;
      for (int j = 0; j < n; j++)
        x += M(i, j) * t[j];
      r += (x - f[i]) * (x - f[i]);
    }
    return std::sqrt(r);
  };
  for (auto &M : b.GroupElements)
    best = std::min(best, dist(M));
  c.add("group", (long)k);
  c.close(dist(b.OptimalDiscreteSymmetry), best, 1e-12, 0, "distance of the chosen image from the false vacuum", "nearest");
  Vec x = b.TransformIntoOptimalDiscreteSymmetry(t);
  double d2 = 0;
  for (int i = 0; i < n; i++)
    d2 += (x[i] - f[i]) * (x[i] - f[i]);
  c.close(std::sqrt(d2), best, 1e-12, 0, "distance of the image", "image");
  if (k > 1) c.nontrivial();
}

int main(int argc, char **argv)
{
  std::vector<pbt::Property> P;
  P.push_back({"C21",
               {{"temperatures", 60000, 1000000, c21_temperatures, "the rate reaches the expansion"},
                {"fraction", 3000, 60000, c21_fraction, "percolation or completion is reached"},
                {"few", 500, 5000, c21_few, "every case"}},
               {"the action curve is the one of the cubic spline (C29) and positive between its points"}});
  P.push_back({"C22",
               {{"strength", 3000, 60000, c22_strength, "the transition percolates for every wall velocity"},
                {"symmetry", 20000, 300000, c22_symmetry, "more than one group element"}},
               {"minima and free energies are known functions of the temperature"}});
  return main_(P, argc, argv);
}
