// C19, C20: the bounce action.
#include "synth.hpp"
#include <BSMPT/bounce_solution/action_calculation.h>
#include <memory>
#include <new>

using namespace pbt;
using BSMPT::BounceActionInt;
using AS = BounceActionInt::ActionStatus;
using EV = Eigen::VectorXd;
using Fn = std::function<double(Vec)>;
using Gn = std::function<Vec(Vec)>;

// ---------------------------------------------------------------- reference solution in one dimension
// x'' + al/r x' = g(x), false vacuum x=0, true vacuum x=1, all of order one
struct Solution
{
  double S = -1, y0 = 0; // action, distance of the release point from the true vacuum
  Vec x, v2;             // speed squared along the path, x decreasing
  double speed2(double u) const
  {
    if (x.size() < 2 || u >= x.front() || u <= x.back()) return 0;
    std::size_t a = 0, b = x.size() - 1;
    while (b - a > 1)
    {
      std::size_t m = (a + b) / 2;
      (x[m] >= u ? a : b) = m;
    }
    double t = (x[a] - u) / (x[a] - x[b]);
    return v2[a] + t * (v2[b] - v2[a]);
  }
};
template <class G> Solution reference(const G &g, int al, double top, double curv)
{
  double m   = std::sqrt(curv);
  auto shoot = [&](double ly, Solution *out) {
    double y0 = std::exp(ly), r, y, v; // y = 1 - x
    if (y0 < 1e-4)
    {
      auto s    = [&](double z) { return al == 2 ? (z < 1e-4 ? 1 + z * z / 6 : std::sinh(z) / z) : (z < 1e-4 ? 1 + z * z / 8 : 2 * std::cyl_bessel_i(1, z) / z); };
      double lo = 0, hi = 400, z = 0;
      for (int i = 0; i < 80; i++)
      {
        z = (lo + hi) / 2;
        (s(z) * y0 < 1e-4 ? lo : hi) = z;
      }
      r = z / m, y = y0 * s(z);
      v = al == 2 ? y0 * m * (std::cosh(z) / z - std::sinh(z) / z / z) : y0 * m * 2 * std::cyl_bessel_i(2, z) / z;
    }
    else
    {
      r         = 1e-3 / m;
      double gp = g(1 - y0);
      y = y0 - gp * r * r / 2 / (al + 1), v = -gp * r / (al + 1);
    }
    double K = 0, h = 4e-3 / m;
    int res  = 0;
    auto pw  = [&](double q) { return al == 2 ? q * q : q * q * q; };
    for (long i = 0; i < 400000; i++)
    {
      auto acc = [&](double q, double yy, double vv) { return -g(1 - yy) - al * vv / q; };
      double l1 = acc(r, y, v), k2 = v + h / 2 * l1, l2 = acc(r + h / 2, y + h / 2 * v, k2), k3 = v + h / 2 * l2,
             l3 = acc(r + h / 2, y + h / 2 * k2, k3), k4 = v + h * l3, l4 = acc(r + h, y + h * k3, k4);
      double y1 = y + h / 6 * (v + 2 * k2 + 2 * k3 + k4), v1 = v + h / 6 * (l1 + 2 * l2 + 2 * l3 + l4);
      if (out)
      {
        double vm = v + h / 8 * (2 * l1 + l2 + l3), vq = v + h / 2 * l2;
        (void)vm;
        K += h / 6 * (pw(r) * v * v + 4 * pw(r + h / 2) * vq * vq + pw(r + h) * v1 * v1) / 2;
        out->x.push_back(1 - y);
        out->v2.push_back(v * v);
      }
      r += h, y = y1, v = v1;
      if (y > 1)
      {
        res = 1;
        break;
      }
      if (v < 0)
      {
        res = -1;
        break;
      }
    }
    if (out) out->S = (al == 2 ? 4 * M_PI : 2 * M_PI * M_PI) * K * 2 / (1 + al);
    return res;
  };
  double lo = -300, hi = std::log(1 - top) - 1e-9;
  for (int i = 0; i < 64; i++)
  {
    double mid = (lo + hi) / 2;
    (shoot(mid, nullptr) == 1 ? lo : hi) = mid;
  }
  Solution r;
  shoot(lo, &r);
  r.y0 = std::exp(lo);
  return r;
}

// f' = x (x-b) (x-1) (1 + c x + d x^2)
struct Poly
{
  double b, c, d;
  double g(double x) const { return x * (x - b) * (x - 1) * (1 + c * x + d * x * x); }
  double f(double x) const
  {
    double a1 = b, a2 = -(1 + b), a3 = 1, p[6] = {0, a1, a2 + c * a1, a3 + c * a2 + d * a1, c * a3 + d * a2, d * a3}, r = 0;
    for (int i = 5; i >= 1; i--)
      r = (r + p[i] / (i + 1)) * x;
    return r * x;
  }
  double h(double x) const
  {
    double e = 1e-5;
    return (g(x + e) - g(x - e)) / (2 * e);
  }
};
static Poly genPoly(Src &s, Ctx &c, double lo, double hi)
{
  for (int i = 0; i < 20; i++)
  {
    Poly p{s.real(lo, hi), 0, 0};
    if (s.boolean()) p.c = s.real(-0.5, 1), p.d = s.real(-0.2, 1);
    if (p.f(1) < -1e-3)
    {
      c.add("potential", str(Vec{p.b, p.c, p.d}));
      return p;
    }
  }
  c.discard();
  return {};
}
static Solution solve(const Poly &p, int al)
{
  return reference([&](double x) { return p.g(x); }, al, p.b, p.h(1));
}

// coordinates: a random rotation and offset
struct Frame
{
  Eigen::MatrixXd R;
  EV off;
  Frame(Src &s, int n, double size)
  {
    Eigen::MatrixXd M(n, n);
    int kind = s.below(3);
    for (int i = 0; i < n; i++)
      for (int j = 0; j < n; j++)
        M(i, j) = kind == 0 ? i == j : s.normal();
    if (kind == 0)
    {
      for (int i = 0; i < n; i++)
        if (s.boolean()) M(i, i) = -1;
      R = M;
    }
    else
      R = M.householderQr().householderQ();
    off = EV::Zero(n);
    if (kind != 1)
      for (int i = 0; i < n; i++)
        off[i] = s.sym(size);
  }
  EV in(const Vec &q) const
  {
    return R.transpose() * (Eigen::Map<const EV>(q.data(), q.size()) - off);
  }
  Vec out(const EV &u) const
  {
    EV w = R * u + off;
    return Vec(w.data(), w.data() + w.size());
  }
};

static double norm(const Vec &a)
{
  double r = 0;
  for (double x : a)
    r += x * x;
  return std::sqrt(r);
}

// the returned profile against the equation of motion, with the exact gradient
static void checkProfile(Ctx &c, BounceActionInt &b, const Fn &V, const Gn &G, int al, double tolForce, double vfalse)
{
  auto &r = b.rho_sol, &l = b.l_sol, &d = b.dldrho_sol;
  c.check(r.size() >= 10 && r.size() == l.size() && l.size() == d.size(), "no profile was returned", "profile");
  c.check(r[0] == 0, "the profile does not start at the centre", "profile");
  double L = b.Spline.L, maxG = 0, dmax = 0;
  for (std::size_t i = 1; i < r.size(); i++)
  {
    c.check(r[i] > r[i - 1], "radius is not increasing", "profile");
    dmax = std::max(dmax, d[i]);
  }
  for (std::size_t i = 0; i < r.size(); i++)
    c.check(d[i] > -2e-3 * dmax, "the field runs backwards", "profile");
  c.check(std::abs(l.back() - L) < 0.02 * L, "the profile does not end at the false vacuum: " + std::to_string(l.back() / L), "profile");
  c.check(norm(b.Spline(L) - b.FalseVacuum) < 1e-6 * (1 + L), "the path does not end at the false vacuum", "profile");
  c.check(std::abs(d.back()) < 0.02 * dmax, "the profile does not come to rest", "profile");
  for (int i = 0; i <= 50; i++)
    maxG = std::max(maxG, norm(G(b.Spline(L * i / 50))));
  // exact energy balance along the path: d/drho (l'^2/2 - V) = -al/rho l'^2
  double lost = 0, range = std::abs(V(b.Spline(l[0])) - vfalse) + 1e-300, vmax = 0;
  for (std::size_t i = 0; i < r.size(); i++)
    vmax = std::max(vmax, std::abs(V(b.Spline(l[i])) - vfalse));
  range = std::max(range, vmax);
  for (std::size_t i = 1; i + 1 < r.size(); i++)
  {
    double h = r[i] - r[i - 1], m = (r[i] + r[i - 1]) / 2, dm = (d[i] + d[i - 1]) / 2;
    if (i > 1)
      lost += h / 6 * al * (d[i] * d[i] / r[i] + d[i - 1] * d[i - 1] / r[i - 1] + 4 * dm * dm / m);
    else
      lost += 0.5 * d[1] * d[1] * al / 2; // d ~ rho at the start
    if (l[i] < 0 || l[i] > L) continue;
    double e = 0.5 * d[i] * d[i] - (V(b.Spline(l[i])) - V(b.Spline(l[0])));
    c.check(std::abs(e + lost) < 0.01 * range + 0.02 * lost, "energy balance at radius " + std::to_string(r[i]) + ": " + std::to_string((e + lost) / range), "motion");
  }
  // normal force
  if (l.size() > 1 && b.dim > 1)
  {
    double worst = 0, len = 0; // mean along the path
    for (std::size_t i = 1; i + 1 < r.size(); i++)
    {
      double u = std::min(L, std::max(0.0, l[i]));
      Vec g = G(b.Spline(u)), t = b.Spline.dl(u), k = b.Spline.d2l(u);
      double gt = 0;
      for (int j = 0; j < b.dim; j++)
        gt += g[j] * t[j];
      Vec f(b.dim);
      for (int j = 0; j < b.dim; j++)
        f[j] = d[i] * d[i] * k[j] - (g[j] - gt * t[j]);
      worst += norm(f) / maxG * std::abs(l[i + 1] - l[i - 1]);
      len += std::abs(l[i + 1] - l[i - 1]);
    }
    worst /= len;
    c.add("normal force", worst);
    c.check(worst < tolForce, "force normal to the path: " + std::to_string(worst), "motion");
  }
}

static BounceActionInt calc(Src &s, const std::vector<Vec> &path, const Vec &tv, const Vec &fv, Fn &V, Gn &G, int al, bool analytic)
{
  auto go = [&](BounceActionInt b) { return b; };
  (void)go;
  BounceActionInt b = analytic ? BounceActionInt(path, tv, fv, V, G, 100, 10) : BounceActionInt(path, tv, fv, V, 100, 10);
  b.Alpha = al;
  return b;
}

// ---------------------------------------------------------------- C20
static std::vector<double> marks(Src &s, int n)
{
  Vec u{0};
  bool even = s.boolean();
  for (int i = 1; i < n; i++)
    u.push_back(u.back() + (even ? 1 : s.real(0.5, 1.5)));
  for (auto &x : u)
    x /= u.back();
  return u;
}

static void c20_line(Src &s, Ctx &c)
{
  int al    = s.chance(75) ? 2 : 3;
  Poly p    = genPoly(s, c, 0.03, 0.49);
  int n     = s.chance(60) ? 1 : s.integer(2, 5);
  double v  = s.logreal(40, 800), lam = s.logreal(3e-3, 2), E = lam * std::pow(v, 4) * 12, off = s.boolean() ? 0 : s.sym(1) * E;
  Frame F(s, n, 300);
  double M2 = s.real(0.3, 5) * E / v / v * p.h(0);
  bool an   = s.boolean();
  c.add("D", (long)al + 1);
  c.add("fields", (long)n);
  c.add("v, lambda", str(Vec{v, lam, off}));
  Fn V = [&](Vec q) {
    EV u     = F.in(q);
    double r = off + E * p.f(u[0] / v);
    for (int k = 1; k < n; k++)
      r += M2 / 2 * k * u[k] * u[k];
    return r;
  };
  Gn G = [&](Vec q) {
    EV u = F.in(q), g = EV::Zero(n);
    g[0] = E / v * p.g(u[0] / v);
    for (int k = 1; k < n; k++)
      g[k] = M2 * k * u[k];
    EV w = F.R * g;
    return Vec(w.data(), w.data() + n);
  };
  EV t = EV::Zero(n);
  t[0] = v;
  Vec tv = F.out(t), fv = F.out(EV::Zero(n));
  std::vector<Vec> path;
  Vec u = marks(s, s.pick(std::vector<int>{2, 2, 3, 5, 12, 30}));
  for (double x : u)
    path.push_back(F.out(t * (1 - x)));
  path.front() = tv, path.back() = fv;
  BounceActionInt b = an ? BounceActionInt(path, tv, fv, V, G, 100, 10) : BounceActionInt(path, tv, fv, V, 100, 10);
  b.Alpha           = al;
  b.CalculateAction();
  Solution r  = solve(p, al);
  double want = al == 2 ? r.S * std::pow(v, 3) / std::sqrt(E) : r.S * std::pow(v, 4) / E;
  c.add("release", r.y0);
  c.add("action", str(Vec{b.Action, want}));
  c.add("status", (long)b.StateOfBounceActionInt);
  c.label(r.y0 > 0.1 ? "thick wall" : r.y0 > 1e-4 ? "medium wall" : r.y0 > 1e-10 ? "thin wall" : "very thin wall");
  if (al == 3) c.label("zero temperature");
  if (b.Action <= 0)
  {
    c.check(b.StateOfBounceActionInt != AS::Success, "success without action", "status");
    c.check(b.Action == -1, "failed action is not -1", "status");
    c.check(r.y0 < 1e-9, "no bounce was found", "found");
    c.discard();
  }
  c.check(b.StateOfBounceActionInt == AS::Success, "an action without success", "status");
  double tol = r.y0 > 1e-9 ? 3e-4 : al == 2 ? 3e-3 : 1e-2;
  c.close(b.Action, want, tol, 0, "action", "action");
  if (r.y0 > 1e-9) checkProfile(c, b, V, G, al, 0.06, off);
  c.nontrivial();
}

// straight solution, bent initial path
static void c20_bent(Src &s, Ctx &c)
{
  int al    = 2;
  Poly p    = genPoly(s, c, 0.12, 0.42);
  int n     = s.integer(2, 5);
  double v  = s.logreal(40, 800), lam = s.logreal(3e-3, 2), E = lam * std::pow(v, 4) * 12;
  Frame F(s, n, 300);
  double M2 = s.real(0.5, 5) * E / v / v * p.h(0), bend = s.real(0.02, 0.3);
  EV A(n);
  for (int i = 0; i < n; i++)
    A[i] = s.sym(1);
  c.add("fields", (long)n);
  c.add("v, lambda, bend", str(Vec{v, lam, bend}));
  Fn V = [&](Vec q) {
    EV u     = F.in(q);
    double r = E * p.f(u[0] / v);
    for (int k = 1; k < n; k++)
      r += M2 / 2 * k * u[k] * u[k];
    return r;
  };
  Gn G = [&](Vec q) {
    EV u = F.in(q), g = EV::Zero(n);
    g[0] = E / v * p.g(u[0] / v);
    for (int k = 1; k < n; k++)
      g[k] = M2 * k * u[k];
    EV w = F.R * g;
    return Vec(w.data(), w.data() + n);
  };
  EV t = EV::Zero(n);
  t[0] = v;
  Vec tv = F.out(t), fv = F.out(EV::Zero(n));
  std::vector<Vec> path;
  for (int i = 0; i <= 20; i++)
  {
    EV q = t * (1 - i / 20.);
    for (int k = 1; k < n; k++)
      q[k] = v * bend * std::sin(M_PI * i / 20.) * A[k];
    path.push_back(F.out(q));
  }
  path.front() = tv, path.back() = fv;
  BounceActionInt b = s.boolean() ? BounceActionInt(path, tv, fv, V, G, 100, 10) : BounceActionInt(path, tv, fv, V, 100, 10);
  b.CalculateAction();
  Solution r  = solve(p, al);
  double want = r.S * std::pow(v, 3) / std::sqrt(E);
  c.add("action", str(Vec{b.Action, want}));
  c.add("status", (long)b.StateOfBounceActionInt);
  if (b.Action <= 0)
  {
    c.label("failed");
    c.discard();
  }
  c.check(b.Action > want * (1 - 2e-3), "action below the true bounce", "action");
  c.close(b.Action, want, 0.1, 0, "action", "action");
  checkProfile(c, b, V, G, al, 0.3, 0);
  c.nontrivial();
}

// the solution is a circular arc: the force normal to the arc is chosen to keep the field on it
static void c20_arc(Src &s, Ctx &c)
{
  Poly p     = genPoly(s, c, 0.15, 0.4);
  int n      = s.integer(2, 4);
  double v   = s.logreal(60, 600), lam = s.logreal(3e-3, 1), E = lam * std::pow(v, 4) * 12;
  double ang = s.real(0.3, 1.6), Rc = v / ang, M2 = s.real(1, 6) * E / v / v * p.h(0);
  Frame F(s, n, 200);
  Solution r = solve(p, 2);
  c.add("fields", (long)n);
  c.add("v, lambda, angle", str(Vec{v, lam, ang}));
  // local coordinates: arc in the plane of the first two, centre (0,-Rc)
  Fn V = [&](Vec q) {
    EV u       = F.in(q);
    double X   = u[0], Y = u[1] + Rc, rad = std::hypot(X, Y), x = Rc * std::atan2(X, Y) / v, t = rad - Rc;
    double res = E * p.f(x) - t / Rc * E * r.speed2(x) + M2 / 2 * t * t;
    for (int k = 2; k < n; k++)
      res += M2 / 2 * u[k] * u[k];
    return res;
  };
  auto at = [&](double x, double t) {
    EV q = EV::Zero(n);
    q[0] = (Rc + t) * std::sin(x * ang);
    q[1] = (Rc + t) * std::cos(x * ang) - Rc;
    return F.out(q);
  };
  Vec tv = at(1, 0), fv = at(0, 0);
  std::vector<Vec> path;
  int kind = s.below(3);
  for (int i = 0; i <= 20; i++)
  {
    double x = 1 - i / 20.;
    if (kind == 0)
      path.push_back(at(x, 0));
    else if (kind == 1)
      path.push_back(x * tv + (1 - x) * fv);
    else
      path.push_back(at(x, v * 0.2 * std::sin(M_PI * x)));
  }
  path.front() = tv, path.back() = fv;
  BounceActionInt b(path, tv, fv, V, 100, 10);
  b.CalculateAction();
  double want = r.S * std::pow(v, 3) / std::sqrt(E);
  c.label(kind == 0 ? "from the solution" : kind == 1 ? "from a straight line" : "from the other side");
  c.add("action", str(Vec{b.Action, want, b.Action / want - 1}));
  c.add("status", (long)b.StateOfBounceActionInt);
  if (b.Action <= 0)
  {
    c.label("failed");
    c.discard();
  }
  c.check(b.Action > want * (1 - 0.01), "action below the true bounce", "action");
  c.close(b.Action, want, kind == 0 ? 0.05 : 0.25, 0, "action", "action");
  c.nontrivial();
}

// ---------------------------------------------------------------- C19
// curved valley between two minima
struct Valley
{
  Poly p;
  int n;
  double v, E, M2, curv;
  EV A;
  double raw(const EV &u) const
  {
    double x = u[0] / v, r = E * p.f(x);
    for (int k = 1; k < n; k++)
    {
      double y = u[k] - v * curv * A[k] * x * (x - 1);
      r += M2 / 2 * k * y * y;
    }
    return r;
  }
  EV on(double x) const
  {
    EV u(n);
    u[0] = v * x;
    for (int k = 1; k < n; k++)
      u[k] = v * curv * A[k] * x * (x - 1);
    return u;
  }
};
static Valley genValley(Src &s, Ctx &c, bool curved)
{
  Valley w;
  w.p    = genPoly(s, c, 0.1, 0.42);
  w.n    = s.integer(curved ? 2 : 1, 4);
  w.v    = s.logreal(60, 600);
  w.E    = s.logreal(3e-3, 1) * std::pow(w.v, 4) * 12;
  w.M2   = s.real(0.5, 5) * w.E / w.v / w.v * w.p.h(0);
  w.curv = curved ? s.real(0.05, 0.5) : 0;
  w.A    = EV(w.n);
  for (int i = 0; i < w.n; i++)
    w.A[i] = s.sym(1);
  c.add("valley", str(Vec{(double)w.n, w.v, w.E, w.M2, w.curv}));
  return w;
}
static BounceActionInt bounce(Fn &V, const std::vector<Vec> &path, int al)
{
  BounceActionInt b(path, path.front(), path.back(), V, 100, 10);
  b.Alpha = al;
  b.CalculateAction();
  return b;
}
// the action of the bounce that is constrained to a path, from the reference solver
template <class P> static double constrained(const Valley &w, const P &path, double *y0)
{
  // tabulate arc length and potential, some way beyond both ends
  const int N = 4000, X = 200;
  Vec l, V;
  EV last;
  for (int i = -X; i <= N + X; i++)
  {
    EV u = path(i / double(N));
    l.push_back(l.empty() ? 0 : l.back() + (u - last).norm());
    V.push_back(w.raw(u));
    last = u;
  }
  double l0 = l[X], L = l[X + N] - l0;
  tk::spline sp;
  Vec x, y;
  for (int i = 0; i <= N + 2 * X; i += 10)
    x.push_back((l[i] - l0) / L), y.push_back(V[i] / w.E);
  sp.set_points(x, y);
  double top = 0;
  for (int i = 1; i < N; i++)
    if (sp(i / double(N)) > 0) top = i / double(N);
  auto g = [&](double u) { return sp.deriv(1, std::max(-0.04, std::min(1.0, u))); };
  // the bounce starts between the zero of the potential and the true vacuum
  double curv = sp.deriv(2, 1);
  if (!(curv > 0) || top > 0.97) return -1;
  Solution r = reference(g, 2, top, curv);
  if (y0) *y0 = r.y0;
  return r.S * std::pow(L, 3) / std::sqrt(w.E);
}

static void c19_scaling(Src &s, Ctx &c)
{
  bool curved = s.chance(70);
  Valley w    = genValley(s, c, curved);
  int n       = w.n, al = s.chance(85) ? 2 : 3;
  Fn V        = [&](Vec q) { return w.raw(Eigen::Map<EV>(q.data(), n)); };
  std::vector<Vec> path;
  bool along = s.boolean();
  for (int i = 0; i <= 12; i++)
  {
    EV u = w.on(1 - i / 12.);
    if (!along)
      for (int k = 1; k < n; k++)
        u[k] = 0;
    path.push_back(Vec(u.data(), u.data() + n));
  }
  BounceActionInt b = bounce(V, path, al);
  // transformed problem
  double kappa = s.chance(60) ? s.logreal(0.03, 30) : 1, mu = s.chance(60) ? s.logreal(0.3, 3) : 1, shift = s.chance(60) ? s.sym(10) * w.E : 0;
  int extra    = s.chance(30) ? 1 : 0;
  if (n == 1 && extra) extra = 0;
  Frame F(s, n + extra, 300);
  Fn V2 = [&](Vec q) {
    EV u     = F.in(q) / mu;
    double r = w.raw(u.head(n));
    if (extra) r += w.M2 / 2 * u[n] * u[n];
    return kappa * r + shift;
  };
  std::vector<Vec> path2;
  for (auto &q : path)
  {
    EV u = EV::Zero(n + extra);
    for (int i = 0; i < n; i++)
      u[i] = q[i] * mu;
    path2.push_back(F.out(u));
  }
  BounceActionInt b2 = bounce(V2, path2, al);
  double f           = al == 2 ? std::pow(mu, 3) / std::sqrt(kappa) : std::pow(mu, 4) / kappa;
  c.add("transformation", str(Vec{kappa, mu, shift, (double)extra}));
  c.add("actions", str(Vec{b.Action, b2.Action, b2.Action / b.Action / f - 1}));
  c.label(curved ? "curved valley" : "straight valley");
  if (b.Action <= 0 || b2.Action <= 0)
  {
    c.label("failed");
    if (!curved) c.fail("no bounce was found", "found");
    c.discard();
  }
  c.close(b2.Action / f, b.Action, curved ? 0.08 : 5e-4, 0, "scaled action", "scaling");
  c.nontrivial();
}

// a bounce on a fixed path is never below the true bounce, and the deformation must gain
static void c19_bounds(Src &s, Ctx &c)
{
  Valley w = genValley(s, c, true);
  int n    = w.n;
  Fn V     = [&](Vec q) { return w.raw(Eigen::Map<EV>(q.data(), n)); };
  auto straight = [&](double x) {
    EV u = EV::Zero(n);
    u[0] = w.v * x;
    return u;
  };
  auto valley = [&](double x) { return w.on(x); };
  std::vector<Vec> path;
  bool along = s.boolean();
  for (int i = 0; i <= 12; i++)
  {
    EV u = along ? valley(1 - i / 12.) : straight(1 - i / 12.);
    path.push_back(Vec(u.data(), u.data() + n));
  }
  BounceActionInt b = bounce(V, path, 2);
  double Ss = constrained(w, straight, nullptr), Sv = constrained(w, valley, nullptr), up = 1e300;
  if (Ss > 0) up = std::min(up, Ss);
  if (Sv > 0) up = std::min(up, Sv);
  c.add("actions", str(Vec{b.Action, Ss, Sv}));
  if (b.Action <= 0 || up > 1e299)
  {
    c.label("failed");
    c.discard();
  }
  c.label(Ss < Sv ? "straight path is better" : "valley is better");
  // the terms across the valley are never negative: the bounce of the first coordinate alone is a lower bound
  double low = solve(w.p, 2).S * std::pow(w.v, 3) / std::sqrt(w.E);
  c.add("lower, upper", str(Vec{b.Action / low, b.Action / up}));
  c.check(b.Action > low * (1 - 5e-3), "the action is below that of a lower potential with fewer fields: " + std::to_string(b.Action / low), "bound");
  c.check(b.Action < up * 1.08, "the action is above the one of a fixed path: " + std::to_string(b.Action / up), "bound");
  // both parts of the action are related
  Vec r = b.rho_sol, l = b.l_sol, d = b.dldrho_sol;
  if (b.Spline.L > 0 && r.size() > 10)
  {
    double K = 0, P = 0;
    tk::spline ls(r, l), ds(r, d);
    const int N = 4000;
    double h    = r.back() / N;
    for (int i = 0; i < N; i++)
    {
      double q = (i + 0.5) * h, u = ls(q), e = ds(q);
      K += h * 4 * M_PI * q * q * e * e / 2;
      P += h * 4 * M_PI * q * q * V(b.Spline(u));
    }
    c.add("parts", str(Vec{K, P}));
    c.close(2. / 3 * K, b.Action, 0.05, 0, "kinetic part of the action", "virial");
    c.close(-2 * P, b.Action, 0.05, 0, "potential part of the action", "virial");
  }
  c.nontrivial();
}

// a higher barrier means a larger action
static void c19_monotone(Src &s, Ctx &c)
{
  Poly p   = genPoly(s, c, 0.08, 0.4);
  double v = s.logreal(60, 600), E = s.logreal(3e-3, 1) * std::pow(v, 4) * 12;
  double x0 = s.real(0.1, 0.8), wd = s.real(0.1, 0.3), a = s.logreal(1e-3, 0.3) * std::abs(p.f(1));
  auto bump = [=](double x) { return a * std::exp(-std::pow((x - x0) / wd, 2)) * x * x * (1 - x) * (1 - x) * 16; };
  Fn V  = [=](Vec q) { return E * p.f(q[0] / v); };
  Fn V2 = [=](Vec q) { return E * (p.f(q[0] / v) + bump(q[0] / v)); };
  c.add("bump", str(Vec{x0, wd, a}));
  std::vector<Vec> path{{v}, {0}};
  double S1 = bounce(V, path, 2).Action, S2 = bounce(V2, path, 2).Action;
  c.add("actions", str(Vec{S1, S2}));
  c.check(S1 > 0, "no bounce was found", "found");
  if (S2 <= 0) c.discard();
  c.check(S2 > S1 * (1 - 1e-4), "a higher barrier lowered the action", "monotone");
  if (S2 > S1 * 1.001) c.nontrivial();
}

// the result is a function of the problem, not of what the memory held before or of earlier calculations
static void c19_repeat(Src &s, Ctx &c)
{
  Valley w = genValley(s, c, s.boolean());
  int n    = w.n;
  Fn V     = [&](Vec q) { return w.raw(Eigen::Map<EV>(q.data(), n)); };
  std::vector<Vec> path;
  for (int i = 0; i <= 8; i++)
  {
    EV u = w.on(1 - i / 8.);
    path.push_back(Vec(u.data(), u.data() + n));
  }
  int al = s.chance(70) ? 2 : 3;
  Vec got;
  std::vector<Vec> sol;
  for (int fill : {0x00, 0xff, 0x41, (int)s.below(256)})
  {
    struct alignas(BounceActionInt) Mem
    {
      unsigned char x[sizeof(BounceActionInt)];
    };
    auto mem = std::make_unique<Mem>();
    std::memset(mem->x, fill, sizeof(mem->x));
    auto *b = new (mem->x) BounceActionInt(path, path.front(), path.back(), V, 100, 10);
    b->Alpha = al;
    b->CalculateAction();
    got.push_back(b->Action);
    sol.push_back(b->l_sol);
    b->~BounceActionInt();
  }
  c.add("actions", str(got));
  for (std::size_t i = 1; i < got.size(); i++)
  {
    c.check(got[i] == got[0], "the action depends on uninitialised memory", "memory");
    c.check(sol[i] == sol[0], "the profile depends on uninitialised memory", "memory");
  }
  if (got[0] > 0) c.nontrivial();
}

// no bounce
static void c19_refuse(Src &s, Ctx &c)
{
  Poly p   = genPoly(s, c, 0.08, 0.45);
  double v = s.logreal(60, 600), E = s.logreal(3e-3, 1) * std::pow(v, 4) * 12;
  int kind = s.below(2);
  Fn V     = [=](Vec q) { return E * p.f(q[0] / v); };
  std::vector<Vec> path;
  if (kind == 0) // from the true to the false vacuum: there is no such transition
    path = {{0}, {v}};
  else // the false vacuum is the top of the barrier
    path = {{v}, {p.b * v}};
  BounceActionInt b(path, path.front(), path.back(), V, 100, 10);
  b.CalculateAction();
  c.label(kind ? "false vacuum is no minimum" : "towards the higher minimum");
  c.check(b.Action == -1, "an action for a transition that does not exist: " + std::to_string(b.Action), "refuse");
  c.check(b.StateOfBounceActionInt != AS::Success && b.StateOfBounceActionInt != AS::NotCalculated, "no reason given", "refuse");
  if (kind) c.check(b.StateOfBounceActionInt == AS::FalseVacuumNotMinimum, "wrong reason", "refuse");
  c.nontrivial();
}

int main(int argc, char **argv)
{
  std::vector<pbt::Property> P;
  P.push_back({"C19",
               {{"scaling", 100, 3000, c19_scaling, "both problems have a bounce", 150, false, 0, 0.6},
                {"bounds", 100, 3000, c19_bounds, "a bounce was found", 150, false, 0, 0.6},
                {"monotone", 200, 6000, c19_monotone, "the action grew by more than 1e-3"},
                {"repeat", 60, 2000, c19_repeat, "a bounce was found"},
                {"refuse", 200, 5000, c19_refuse, "every case"}},
               {"field values of the electroweak scale"}});
  P.push_back({"C20",
               {{"line", 300, 10000, c20_line, "a bounce was found", 150, false, 0, 0.6},
                {"bent", 100, 3000, c20_bent, "a bounce was found", 150, false, 0, 0.6},
                {"arc", 100, 3000, c20_arc, "a bounce was found", 150, false, 0, 0.6}},
               {"field values of the electroweak scale"}});
  return main_(P, argc, argv);
}
