// Landscapes of a few wells with known minima in one to four fields.
#pragma once
#include "synth.hpp"
#include <Eigen/Dense>

using pbt::Ctx;
using pbt::Src;
using pbt::str;

static double dist(const Vec &a, const Vec &b)
{
  double r = 0;
  for (std::size_t i = 0; i < a.size(); i++)
    r += (a[i] - b[i]) * (a[i] - b[i]);
  return std::sqrt(r);
}

// ---------------------------------------------------------------- landscapes with known minima
struct Land
{
  std::shared_ptr<Synth> m;
  std::shared_ptr<Wells> w;
  int n = 1, nw = 2; // fields, wells
  double my = 1e4, tmax = 200, E = 1;
  Vec slope;
  Vec place(int i, double T) const
  {
    Vec v(n);
    v[0] = w->x[i](T);
    for (int k = 1; k < n; k++)
      v[k] = slope[k] * v[0];
    return v;
  }
  double F(int i, double T) const { return w->F[i](T); }
  int lowest(double T) const
  {
    int b = 0;
    for (int i = 1; i < nw; i++)
      if (F(i, T) < F(b, T)) b = i;
    return b;
  }
  // the well that a point is in, -1 if none
  int well(const Vec &p, double T, double tol = 0.1) const
  {
    for (int i = 0; i < nw; i++)
      if (dist(p, place(i, T)) < tol) return i;
    return -1;
  }
};

// wells[i]: free energy B_i + A_i (T/tmax)^2 + C_i (T/tmax)^3 in units of E
static Land genLand(Src &s, Ctx &c, int nw, const std::vector<Vec> &coeff, bool central = false, int fields = 0)
{ // central: inside of the box that is searched for global minima
  Land r;
  r.nw     = nw;
  r.n      = central ? s.pick(std::vector<int>{1, 1, 2}) : s.pick(std::vector<int>{1, 1, 2, 2, 3, 4});
  if (fields) r.n = fields;
  r.tmax   = s.real(100, 400);
  double E = s.logreal(1e5, 3e7), tmax = r.tmax, gf = s.chance(50) ? 0 : s.real(1, 40);
  r.w      = std::make_shared<Wells>();
  double x = s.sym(40), biggest = 0, far = central ? 90 : 200, spread = central ? 0.05 : 0.1;
  if (central) x -= nw > 2 ? 120 : 60;
  Vec desc{(double)r.n, tmax, E, gf};
  bool flip = s.boolean();
  for (int i = 0; i < nw; i++)
  {
    double a = x, b = s.sym(spread);
    double sg = flip ? -1 : 1;
    r.w->x.push_back([=](double T) { return sg * (a + b * T); });
    Vec k = coeff[i];
    r.w->F.push_back([=](double T) { return -gf * std::pow(T, 4) + E * (k[0] + k[1] * std::pow(T / tmax, 2) + k[2] * std::pow(T / tmax, 3)); });
    biggest = std::max(biggest, std::abs(k[0]) + std::abs(k[1]) + std::abs(k[2]));
    desc.push_back(a);
    desc.push_back(b);
    for (double q : k)
      desc.push_back(q);
    x += s.real(60, far) + 2 * spread * tmax;
  }
  r.E    = E;
  r.w->k = 2e3 + E * (60 * biggest + s.real(1, 20)) * (nw > 2 ? 4 : 1) / 3600;
  r.my   = s.logreal(3e3, 1e5);
  r.slope = Vec(r.n, 0);
  for (int k = 1; k < r.n; k++)
    r.slope[k] = s.sym(0.6);
  desc.push_back(r.my);
  for (double q : r.slope)
    desc.push_back(q);
  c.add("landscape", str(desc));
  r.m      = std::make_shared<Synth>(r.n, s.boolean() ? 1 : r.n);
  auto w   = r.w;
  auto sl  = r.slope;
  double my = r.my;
  r.m->V   = [=](const Vec &v, double T) {
    double e = w->at(v[0], T);
    for (std::size_t i = 1; i < v.size(); i++)
    {
      double y = v[i] - sl[i] * v[0];
      e += my / 2 * y * y;
    }
    return e;
  };
  r.m->install();
  r.m->vevTreeMin = r.place(r.lowest(0), 0);
  return r;
}
static std::vector<Vec> anyCoeff(Src &s, int nw)
{
  std::vector<Vec> k;
  for (int i = 0; i < nw; i++)
    k.push_back({s.sym(1), s.sym(1), s.sym(1)});
  return k;
}
// gradient and smallest curvature of the potential in its own right
struct Local
{
  double grad, curv, trace;
};
static Local local(const std::function<double(const Vec &)> &V, const Vec &p, double h)
{
  int n = p.size();
  Eigen::VectorXd g(n);
  Eigen::MatrixXd H(n, n);
  auto at = [&](int i, double a, int j, double b) {
    Vec q = p;
    q[i] += a;
    if (j >= 0) q[j] += b;
    return V(q);
  };
  double v0 = V(p);
  for (int i = 0; i < n; i++)
  {
    double p1 = at(i, h, -1, 0), m1 = at(i, -h, -1, 0), p2 = at(i, 2 * h, -1, 0), m2 = at(i, -2 * h, -1, 0);
    g[i]    = (8 * (p1 - m1) - (p2 - m2)) / (12 * h);
    H(i, i) = (16 * (p1 + m1) - (p2 + m2) - 30 * v0) / (12 * h * h);
    for (int j = i + 1; j < n; j++)
      H(i, j) = H(j, i) = (at(i, h, j, h) + at(i, -h, j, -h) - at(i, h, j, -h) - at(i, -h, j, h)) / (4 * h * h);
  }
  Eigen::SelfAdjointEigenSolver<Eigen::MatrixXd> es(H);
  return {g.norm(), es.eigenvalues()[0], H.trace()};
}


// ---------------------------------------------------------------- phases that begin and end
// V = s (T f - int h(f) df): stationary where h(f) = T, minima on the falling pieces of h.
// Every second turning point of h is the highest, the next one the lowest temperature of a phase.
struct Fold
{
  std::shared_ptr<Synth> m;
  Vec x, t, area; // turning points, their temperatures, integral of h up to them
  double s = 1e4, my = 1e4, sg = 1, off = 0, lo = 0, hi = 0;
  int n = 1, N = 2; // fields, phases
  Vec slope;
  double h(double f) const
  {
    if (f <= x.front()) return t.front() + 0.02 * std::pow(x.front() - f, 2);
    if (f >= x.back()) return t.back() - 0.02 * std::pow(f - x.back(), 2);
    std::size_t i = 0;
    while (f > x[i + 1]) i++;
    double u = (f - x[i]) / (x[i + 1] - x[i]);
    return t[i] + (t[i + 1] - t[i]) * u * u * (3 - 2 * u);
  }
  double H(double f) const // integral of h from the first turning point
  {
    if (f <= x.front())
    {
      double d = x.front() - f;
      return -(t.front() * d + 0.02 / 3 * d * d * d);
    }
    if (f >= x.back())
    {
      double d = f - x.back();
      return area.back() + t.back() * d - 0.02 / 3 * d * d * d;
    }
    std::size_t i = 0;
    while (f > x[i + 1]) i++;
    double w = x[i + 1] - x[i], u = (f - x[i]) / w;
    return area[i] + w * (t[i] * u + (t[i + 1] - t[i]) * (u * u * u - u * u * u * u / 2));
  }
  double top(int i) const { return t[2 * i]; }
  double bottom(int i) const { return t[2 * i + 1]; }
  bool exists(int i, double T) const { return T > bottom(i) && T < top(i); }
  double field(int i, double T) const
  {
    double a = x[2 * i], b = x[2 * i + 1];
    for (int k = 0; k < 60; k++)
      (h((a + b) / 2) > T ? a : b) = (a + b) / 2;
    return (a + b) / 2;
  }
  Vec place(int i, double T) const
  {
    Vec v(n);
    v[0] = off + sg * field(i, T);
    for (int k = 1; k < n; k++)
      v[k] = slope[k] * v[0];
    return v;
  }
  double F(int i, double T) const
  {
    double f = field(i, T);
    return s * (T * f - H(f));
  }
  int lowest(double T) const
  {
    int b = -1;
    for (int i = 0; i < N; i++)
      if (exists(i, T) && (b < 0 || F(i, T) < F(b, T))) b = i;
    return b;
  }
  double gap(double T) const // to the next phase
  {
    int g = lowest(T);
    double r = 1e300;
    for (int i = 0; i < N; i++)
      if (i != g && exists(i, T)) r = std::min(r, F(i, T) - F(g, T));
    return r;
  }
  // how far from an end of the phase, as a part of its range
  double soft(int i, double T) const { return std::min(top(i) - T, T - bottom(i)) / (top(i) - bottom(i)); }
  // the phase that a minimum belongs to
  int which(const Vec &p, double T) const
  {
    for (int i = 0; i < N; i++)
      if (T > bottom(i) - 1 && T < top(i) + 1 && dist(p, place(i, std::min(top(i), std::max(bottom(i), T)))) < (soft(i, T) > 0.02 ? 0.3 : 5.)) return i;
    return -1;
  }
};
static Fold genFold(Src &s, Ctx &c)
{
  Fold r;
  r.N  = s.pick(std::vector<int>{2, 2, 3, 3, 4});
  r.n  = s.pick(std::vector<int>{1, 1, 2});
  r.hi = s.real(120, 300), r.lo = s.chance(60) ? 0 : s.real(0, 0.3) * r.hi;
  double W = r.hi - r.lo;
  Vec mid;
  for (int i = 1; i < r.N; i++)
    mid.push_back(r.hi - W * (i + s.sym(0.35)) / r.N);
  r.t.push_back(r.hi + s.real(20, 60));
  for (double m : mid)
  {
    double a = s.chance(50) ? s.real(2, 10) : s.real(5, 60);
    r.t.push_back(m - a * s.real(0.2, 0.8)); // the end of the hotter phase
    r.t.push_back(r.t.back() + a);           // the beginning of the colder one
  }
  r.t.push_back(r.lo - s.real(20, 60));
  double f = 0;
  Vec desc{(double)r.N, (double)r.n, r.lo, r.hi};
  for (std::size_t i = 0; i < r.t.size(); i++)
  {
    if (i % 2) // a phase
    {
      if (r.t[i - 1] - r.t[i] < 12) c.discard();
      f += (r.t[i - 1] - r.t[i]) * s.real(0.2, 0.6);
    }
    else if (i) // a barrier
      f += s.real(15, 60);
    r.x.push_back(f);
    desc.push_back(r.t[i]);
    desc.push_back(f);
  }
  r.area.push_back(0);
  for (std::size_t i = 1; i < r.t.size(); i++)
    r.area.push_back(r.area[i - 1] + (r.x[i] - r.x[i - 1]) * (r.t[i - 1] + r.t[i]) / 2);
  if (f > 420) c.discard();
  r.sg  = s.boolean() ? 1 : -1;
  r.off = -r.sg * f / 2 + s.sym(210 - f / 2);
  r.s   = s.logreal(1e3, 3e4);
  r.my  = s.logreal(3e3, 1e5);
  r.slope = Vec(r.n, 0);
  for (int k = 1; k < r.n; k++)
    r.slope[k] = s.sym(0.6);
  for (double q : {r.s, r.sg, r.off, r.my, r.slope.back()})
    desc.push_back(q);
  c.add("fold", str(desc));
  r.m    = std::make_shared<Synth>(r.n, s.boolean() ? 1 : r.n);
  auto q = std::make_shared<Fold>(r);
  q->m   = nullptr;
  r.m->V = [q](const Vec &v, double T) {
    double u = (v[0] - q->off) * q->sg, e = q->s * (T * u - q->H(u));
    for (std::size_t i = 1; i < v.size(); i++)
    {
      double y = v[i] - q->slope[i] * v[0];
      e += q->my / 2 * y * y;
    }
    return e;
  };
  r.m->install();
  r.m->vevTreeMin = r.place(r.lowest(std::max(r.lo, 0.0)), std::max(r.lo, 0.0));
  return r;
}
